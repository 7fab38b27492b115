"""A controlled scheduler: worker threads run one at a time, switches happen where the schedule says so.

A job calls point() at its own synchronisation points; with trace=True every executed line of the files below `roots` is such
a point as well.  A schedule is a list of (thread, budget): the thread runs until it has passed `budget` points (None: to its
end).  A worker that makes no progress (it waits for a lock another worker holds) is passed over.
"""
import queue
import sys
import threading

_here = threading.local()


def point():
    w = getattr(_here, 'worker', None)
    if w is not None:
        w.pass_point()


class Worker:
    def __init__(self, run, k, job, roots, opcodes):
        self.run, self.k, self.job, self.roots, self.opcodes = run, k, job, roots, opcodes
        self.go = threading.Semaphore(0)
        self.budget = None
        self.points = 0
        self.done = False
        self.error = None
        self.lines = [] if run.keep_lines else None

    def pass_point(self):
        self.points += 1
        if self.budget is not None:
            self.budget -= 1
            if self.budget <= 0:
                self.run.back.put(self.k)
                self.go.acquire()
                if self.budget is None and self.run.free:
                    sys.settrace(None)      # nothing stops it any more

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(self.roots):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            if self.lines is not None:
                self.lines.append((frame.f_code.co_filename, frame.f_lineno))
            self.pass_point()
        return self.local

    def main(self):
        _here.worker = self
        self.go.acquire()
        try:
            if self.roots and not (self.run.free and self.budget is None):
                sys.settrace(self.trace)
            self.job()
        except BaseException as e:      # noqa
            self.error = e
        finally:
            sys.settrace(None)
            _here.worker = None
            self.done = True
            self.run.back.put(self.k)


class Stuck(Exception):
    pass


class Run:
    """jobs: list of callables; threads: a Pool or None for fresh threads.  free: a worker that runs to its end is not traced."""

    def __init__(self, jobs, roots=(), opcodes=False, pool=None, keep_lines=False, free=False):
        self.back = queue.SimpleQueue()
        self.free = free
        self.keep_lines = keep_lines
        self.workers = [Worker(self, k, j, tuple(roots), opcodes) for k, j in enumerate(jobs)]
        self.pool = pool

    def play(self, schedule, patience=.3, limit=20.0):
        """Runs the schedule, then lets every worker finish in order; returns the points passed by each."""
        threads = []
        for w in self.workers:
            if self.pool is not None:
                self.pool.submit(w.k, w.main)
            else:
                t = threading.Thread(target=w.main, daemon=True)
                t.start()
                threads.append(t)
        running, waited = set(), 0.0
        for k, n in list(schedule) + [(w.k, None) for w in self.workers]:
            w = self.workers[k]
            if w.done:
                continue
            if k not in running:
                w.budget = n
                running.add(k)
                w.go.release()
            while k in running:
                try:
                    running.discard(self.back.get(timeout=patience))
                except queue.Empty:
                    waited += patience
                    break                   # blocked by a worker that is not running: pass it over
        # whatever is still under way
        while not all(w.done for w in self.workers):
            for w in self.workers:
                if not w.done and w.k not in running:
                    w.budget = None
                    running.add(w.k)
                    w.go.release()
            try:
                running.discard(self.back.get(timeout=patience))
            except queue.Empty:
                waited += patience
                if waited > limit:
                    raise Stuck('workers make no progress')
        for t in threads:
            t.join(limit)
        return [w.points for w in self.workers]


class Pool:
    """Persistent threads, one per worker number: the per-thread objects of the framework are reused."""

    def __init__(self, n):
        self.q = [queue.SimpleQueue() for _ in range(n)]
        for q in self.q:
            threading.Thread(target=self.serve, args=(q,), daemon=True).start()

    def serve(self, q):
        while True:
            f = q.get()
            if f is None:
                return
            f()

    def submit(self, k, f):
        self.q[k].put(f)

    def close(self):
        for q in self.q:
            q.put(None)
