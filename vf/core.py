"""Verdicts, evidence, known findings."""
import json
import os
import random
import sys
import time
import traceback

from . import tlc

ROOT = tlc.ROOT
REPO = os.environ.get('VERIF_REPO', '/repo')


def use_repo():
    """Import the implementation from the working tree under test."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import ombott
    where = os.path.realpath(os.path.dirname(os.path.dirname(ombott.__file__)))
    if where != os.path.realpath(REPO):
        raise tlc.MachineryError('ombott imported from %s, not %s' % (where, REPO))
    return ombott


def load_known():
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


class Rnd(random.Random):
    """What is drawn from too few is all of them."""

    def sample(self, population, k, **kw):
        return super().sample(population, min(k, len(population)), **kw)


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rnd = Rnd('%s/%s' % (pid, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = [k for k in load_known() if k['property'] == pid]
        self.models = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- specification side ---------------------------------------------------------------
    def model(self, module, cfg, **kw):
        r = tlc.run(module, cfg, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.models.append(dict(module=module, states=r.states, transitions=r.transitions,
                                depth=r.depth, emitted=len(r.emitted), wall_s=round(r.wall, 2)))
        return r

    def judge(self, module, items, **kw):
        st = {}
        t0 = time.time()
        vs = tlc.judge(module, items, stats=st, **kw)
        self.states += st.get('states', 0)
        self.transitions += st.get('transitions', 0)
        self.models.append(dict(module=module, judged=len(items), states=st.get('states', 0),
                                wall_s=round(time.time() - t0, 2)))
        return vs

    # -- implementation side --------------------------------------------------------------
    def count(self, n=1):
        self.traces += n

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def bump(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, what, detail, signature=None):
        """Record one disagreement between the specification and the implementation."""
        for k in self.known:
            if k.get('signature') is not None and k['signature'] == signature:
                self.known_hits[k['id']] = self.known_hits.get(k['id'], 0) + 1
                if self.known_hits[k['id']] == 1:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                return
        self.violations.append(dict(what=what, detail=detail))
        if len(self.violations) == 1:
            sys.stderr.write('first violation: %s\n%s\n' % (
                what, json.dumps(detail, default=repr, ensure_ascii=True)[:3000]))

    def varied(self, n):
        """At most n violations, every kind of message first."""
        seen, first, rest = set(), [], []
        for v in self.violations:
            (rest if v['what'] in seen else first).append(v)
            seen.add(v['what'])
        return (first + rest)[:n]

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ['(none)'], models=self.models)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr, ensure_ascii=True)
            f.write('\n')
        if self.violations:
            rd = os.path.join(ROOT, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + '.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                               count=len(self.violations), violations=self.varied(40)),
                          f, indent=1, default=repr, ensure_ascii=True)
                f.write('\n')
            print('%d disagreement(s) between specification and code; first: %s' % (
                len(self.violations), self.violations[0]['what']))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('%s held: %d model states, %d transitions, %d traces validated against the code (%.1fs)' % (
            self.pid, self.states, self.transitions, self.traces, wall))
        return 0


def raised_in_repo(e):
    """file:line when the exception was raised by a line of the code under test, reached by a call of the check."""
    if isinstance(e, (tlc.MachineryError, MemoryError, OSError)) or type(e).__name__ == 'Hang':
        return None
    tb, first = e.__traceback__, None
    while tb is not None:
        first, tb = tb, tb.tb_next
    name = os.path.realpath(first.tb_frame.f_code.co_filename)
    root = os.path.join(os.path.realpath(REPO), 'ombott') + os.sep
    return '%s:%d' % (name[len(root):], first.tb_lineno) if name.startswith(root) else None


def main(pid, fn):
    """Run a check function; map everything to exit 0 / 1 / 2."""
    chk = Check(pid)
    try:
        try:
            fn(chk)
        except tlc.MachineryError:
            raise
        rc = chk.finish()
    except Exception as e:
        traceback.print_exc()
        where = raised_in_repo(e)
        if where and not chk.violations:
            # no step of the specification raises here: the code under test failed where it has to work
            chk.violation('the code failed unexpectedly: %s' % where, dict(error=repr(e)))
        if chk.violations:
            rc = chk.finish()
        else:
            print('ERROR: the machinery of %s failed' % pid)
            rc = 2
    finally:
        tlc.cleanup()
    sys.stdout.flush()
    return rc
