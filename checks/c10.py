"""C10: several applications in one process.  Behaviours of Apps.tla (nested calls, copies, new applications, one to three threads)
are played with real applications and the recordings judged by the specification; requests of all kinds of C08 are served by
three applications in turn, inside each other's handlers and line by line on several threads."""
import os
import queue
import re
import shutil
import tempfile
import threading
import time

from vf import core, wsgi, tlc
from vf.solo import forked, parallel, Failed
from vf.threads import Run, Pool, Stuck
from checks import c08, settings_common, view_common

ENV = dict(SHARE='none', APPS=2, THREADS=1, LEN=5, FULL=0)
CONTENT = b''.join(b'%05d|' % k for k in range(4000))
_tl = threading.local()


class Actor:
    """A thread that serves a stack of requests by command."""

    def __init__(self, stage, t):
        self.stage, self.t = stage, t
        self.inbox, self.outbox = queue.SimpleQueue(), queue.SimpleQueue()
        threading.Thread(target=self.main, daemon=True).start()

    def main(self):
        _tl.actor = self
        self.loop(None)

    def loop(self, a):
        """Commands of the handler of application a (None: the idle thread); returns how the handler ends."""
        while True:
            e = self.inbox.get()
            if e is None:
                return None
            try:
                if e['k'] == 'ret':
                    return e['w']
                if e['k'] == 'call':
                    r = self.stage.exchange(e['a'], e['tag'])
                    self.outbox.put(('reply', r))
                else:
                    self.outbox.put(('did', self.stage.do(e)))
            except Exception as x:
                self.outbox.put(('failed', repr(x)))

    def tell(self, e):
        self.inbox.put(e)
        try:
            return self.outbox.get(timeout=20)
        except queue.Empty:
            return 'failed', 'no answer'


class Stage:
    def __init__(self, o, root, fresh):
        self.o, self.root = o, root
        self.apps = [None, o.default_app(), o.Ombott(), o.Ombott(dict(max_memfile_size=5000))]
        if fresh:
            self.apps[1] = o.Ombott()
        self.late = []
        for a in (1, 2, 3):
            self.apps[a].route('/vf10/<x>', ['GET', 'POST'], self.handler(a), overwrite=True)

    def tag(self, req):
        m = re.search(r'r\d+q', req.path)
        tags = {m.group(0) if m else '', req.query.get('q') or '', req.headers.get('X-Tag') or '', req.cookies.get('c') or '', req.environ.get('QUERY_STRING', '')[2:]}
        return tags.pop() if len(tags) == 1 else 'mixed %r' % sorted(tags)

    def shows(self, a):
        req, resp = self.apps[a].request, self.apps[a].response

        def many(v):
            return [] if v is None else list(v) if isinstance(v, list) else [v]
        try:
            kept = req.kept
        except AttributeError:
            kept = ''
        if req.app is not self.apps[a]:
            kept = 'of another application'
        return dict(tag=self.tag(req), status=resp.status_code, hdr=many(resp.headers.get('X-Hdr')), list=many(resp.headers.get('X-List')), kept=kept)

    def handler(self, a):
        o, app = self.o, self.apps[a]
        req, resp = app.request, app.response

        def text():
            try:
                kept = req.kept
            except AttributeError:
                kept = ''
            return '%s/%s' % (self.tag(req), kept)

        def lazily():
            yield ''
            yield text()

        def handle(x):
            actor = _tl.actor
            actor.outbox.put(('entered', a))
            end = actor.loop(a)
            if end == 'text':
                return text()
            if end == 'gen':
                return lazily()
            if end in ('raise', 'return'):
                r = o.HTTPResponse(self.tag(req), 250, X_Hdr='own')
                if end == 'return':
                    return r
                raise r
            if end == 'crash':
                raise KeyError('page')
            if end == 'abort':
                o.abort(404, 'page')
            if end == 'redirect':
                o.redirect('/to/' + self.tag(req))
            if end == 'static':
                return o.static_file('file.bin', self.root)
            return ''
        return handle

    def do(self, e):
        app = self.apps[e['a']]
        req, resp = app.request, app.response
        if e['k'] == 'read':
            return self.shows(e['a'])
        if e['k'] == 'write':
            w, v = e['w'], e['tag']
            if w == 'status':
                resp.status = 231
            elif w == 'hdr':
                resp.headers['X-Hdr'] = v
            elif w == 'list':
                resp.headers.append('X-List', v)
            elif w == 'cookie':
                resp.set_cookie('c', v)
            elif w == 'attr':
                req.kept = v
            else:
                resp.headers.pop('X-Hdr', None)
            return None
        if e['k'] == 'copy':
            before = self.shows(e['a'])
            c = req.copy()
            saw = self.tag(c)
            c.kept = e['tag']
            c['QUERY_STRING'] = 'q=' + e['tag']
            c['HTTP_X_TAG'] = e['tag']
            c['PATH_INFO'] = '/elsewhere'
            c.query.get('q')
            r2 = resp.copy(cls=self.o.HTTPResponse)
            r2.headers['X-Hdr'] = e['tag']
            r2.headers.append('X-List', e['tag'])
            r2.set_cookie('c', e['tag'])
            r2.status = 299
            return dict(before=before, copy=saw, after=self.shows(e['a']))
        if e['k'] == 'new':
            o = self.o
            app = o.Ombott()
            app.route('/x', 'GET', lambda: 'x')
            if len(self.late) % 3 == 1:
                wsgi.call(app, wsgi.environ('/x'))
            if len(self.late) % 3 == 2:
                app.request.copy()
            self.late.append([app, o.HTTPResponse('x', 202), o.HTTPError(404), type(app.request)(wsgi.environ('/y')), type(app.response)()])
            return None
        raise tlc.MachineryError('event %r' % e)

    def exchange(self, a, tag):
        n = int(tag[1:-1])
        env = wsgi.environ('/vf10/' + tag, 'GET', 'q=' + tag, headers={'X-Tag': tag, 'Cookie': 'c=' + tag, 'Host': tag + '.test', 'Range': 'bytes=%d-%d' % (7 * n, 7 * n + 11)})
        g = wsgi.call(self.apps[a], env)
        jar = [v.split(';')[0] for v in g.all('set-cookie')]
        body = g.text()
        if g.exc is not None:
            body = 'fault %r' % g.exc
        elif '<' in body:
            body = 'page'
        elif g.header('location'):
            body = 'to ' + tag if g.header('location') == 'http://%s.test/to/%s' % (tag, tag) and not body else repr(g.header('location'))
        elif g.code == 206:
            ok = g.body == CONTENT[7 * n:7 * n + 12] and g.header('content-range') == 'bytes %d-%d/%d' % (7 * n, 7 * n + 11, len(CONTENT))
            body = 'file of ' + tag if ok else 'another part of the file'
        return dict(status=g.code, hdr=g.all('x-hdr'), list=g.all('x-list'), jar=jar, body=body)


def play(chk, stage, events):
    """One behaviour; returns the recording or None."""
    actors = [Actor(stage, t) for t in range(3)]
    out = []
    try:
        for k, e in enumerate(events):
            what, val = actors[e['t'] - 1].tell(e)
            want = {'call': 'entered', 'ret': 'reply'}.get(e['k'], 'did')
            if what != want:
                chk.violation('a request was not served as its neighbours allow', dict(events=events[:k + 1], expected=want, got=(what, val)))
                return None
            out.append(dict(e, saw=val) if isinstance(val, dict) else dict(e, saw={}))
    finally:
        for a in actors:
            for _ in range(4):
                a.inbox.put(None)
    chk.count()
    return out


def random_events(rnd, n, threads, apps):
    """A behaviour of the same machine, longer than TLC emits."""
    stack = {t: [] for t in range(1, threads + 1)}
    ev, tag = [], 0
    while len(ev) < n or any(stack.values()):
        t = rnd.choice([t for t in stack if stack[t]] or list(stack)) if len(ev) >= n else rnd.choice(list(stack))
        s = stack[t]
        free = [a for a in range(1, apps + 1) if a not in s]
        kind = rnd.choice(['call'] * (3 if not s else 2) + ['write'] * 3 + ['read'] * 3 + ['copy', 'new', 'ret'])
        if len(ev) >= n:
            kind = 'ret'
        if not s and kind != 'call' or kind == 'call' and not free:
            continue
        tag += 1
        name = 'r%dq' % tag
        if kind == 'call':
            a = rnd.choice(free)
            s.append(a)
            ev.append(dict(k='call', t=t, a=a, w='', tag=name))
        elif kind == 'write':
            ev.append(dict(k='write', t=t, a=s[-1], w=rnd.choice(['status', 'hdr', 'list', 'cookie', 'attr', 'del']), tag=name))
        elif kind == 'read':
            ev.append(dict(k='read', t=t, a=rnd.choice(s), w='', tag=''))
        elif kind == 'ret':
            ev.append(dict(k='ret', t=t, a=s.pop(), w=rnd.choice(['text', 'gen', 'raise', 'crash', 'abort', 'redirect', 'static', 'return', 'empty']), tag=''))
        else:
            ev.append(dict(k=kind, t=t, a=s[-1], w='', tag=name if kind == 'copy' else ''))
    return ev


class Three(c08.Lab):
    """Three applications with all kinds of requests."""

    def __init__(self, chk, o):
        super().__init__(chk, o)
        self.rigs = [self.rig(False), self.rig(True), self.rig(False)]
        self.rigs[2].second = True

    def check_reply(self, what, rig, name, tag, got, **detail):
        want = self.expected[rig.default, name, tag]
        if got != want and len(self.chk.violations) < 60:
            self.chk.violation(what, dict(kind=name, tag=tag, app=self.rigs.index(rig), differs={q: (want.get(q), got.get(q)) for q in set(want) | set(got) if want.get(q) != got.get(q)}, **detail))

    def serve(self, rig, name, tag):
        out, outer = {}, getattr(c08._tl, 'seen', [])
        try:
            rig.job(name, tag, out)()
            got = c08.mask(out[tag])
        except Exception as e:
            got = dict(error=repr(e))
        c08._tl.seen = outer
        return got


def nested(chk, lab, rnd):
    """Every kind inside the handler of another application: the outer handler reads everything before and after."""
    rigs = lab.rigs

    def outer(rig, inner):
        app, name = rig.app, 'outer'
        req, resp = app.request, app.response

        def look():
            return (req.path, req.method, dict(req.query), dict(req.cookies), req.headers.get('X-Tag'), req.url, req.environ['PATH_INFO'], dict(req.url_args), req.app is app, req.body.read(), dict(req.forms),
                    getattr(req, 'mine', None), resp.status_code, resp.status_line, sorted((k, repr(v)) for k, v in resp.headers.items()), resp.body)
        res = {}

        def handle(x):
            req.mine = x
            resp.headers['X-Outer'] = x
            resp.headers.append('X-Outer', '2')
            resp.set_cookie('outer', x)
            resp.status = 222
            res['before'] = look()
            res['inner'] = inner()
            res['after'] = look()
            c = req.copy()
            res['copy'] = (c.path, dict(c.query))
            return req.path
        app.route('/vf10o/<x>', 'POST', handle, overwrite=True)
        g = wsgi.call(app, wsgi.environ('/vf10o/a', 'POST', 'q=o', b'f=o', headers={'X-Tag': 'outer', 'Cookie': 'c=outer'}))
        chk.count()
        if g.exc is not None:
            chk.violation('the outer request failed', dict(error=repr(g.exc)))
            return None
        if res.get('before') != res.get('after') or g.code != 222 or g.all('X-Outer') != ['a', '2'] or g.body != b'/vf10o/a' or [v for v in g.all('Set-Cookie')] != ['outer=a']:
            chk.violation('a nested call changed the outer request or response', dict(before=res.get('before'), after=res.get('after'), reply=(g.status, g.headers, g.body)))
        return res.get('inner')
    n = 0
    for oi in range(3):
        for ii in range(3):
            if oi == ii:
                continue
            for name in sorted(rigs[ii].kinds):
                tag = 'abc'[n % 3]
                n += 1
                got = outer(rigs[oi], lambda: lab.serve(rigs[ii], name, tag))
                if got is not None:
                    lab.check_reply('a nested request got another response', rigs[ii], name, tag, got, outer=oi)
                # the inner handler of a third application deeper down
                if n % 5 == 0:
                    third = ({0, 1, 2} - {oi, ii}).pop()
                    got = outer(rigs[oi], lambda: outer(rigs[third], lambda: lab.serve(rigs[ii], name, tag)))
                    if got is not None:
                        lab.check_reply('a nested request got another response', rigs[ii], name, tag, got, outer=(oi, third))
    chk.extra['nested kinds'] = n
    # in turn
    for _ in range(chk.pick(1500, 20000)):
        rig = rnd.choice(rigs)
        name, tag = rnd.choice(sorted(rig.kinds)), rnd.choice('abc')
        lab.check_reply('a request served in turn got another response', rig, name, tag, lab.serve(rig, name, tag))
        chk.count()
        if rnd.random() < .02:
            lab.o.Ombott()


def line_by_line(chk, lab, rnd):
    """Different applications on different threads, and a thread that constructs applications, under the controlled scheduler."""
    length = {}
    for j, rig in enumerate(lab.rigs):
        for name in rig.kinds:
            run = Run([rig.job(name, 'a', {})], roots=lab.roots)
            length[j, name] = run.play([])[0]
    # every single preemption of every kind by a request of another application (of the same kind, where it has one)
    single = []
    for (j, name), n in sorted(length.items()):
        for k in range(1, n + 1):
            i = (j + 1 + k % 2) % 3
            other = name if name in lab.rigs[i].kinds and rnd.random() < .7 else rnd.choice(sorted(lab.rigs[i].kinds))
            single.append(((j, i), (name, other), rnd.random() < .1, [(0, k), (1, None), (2, None)] if rnd.random() < .8 else [(0, k), (1, rnd.randint(1, length[i, other])), (0, None)]))
    rnd.shuffle(single)
    lab.pool.close()
    n = chk.pick(6, 7)
    seeds = [rnd.getrandbits(48) for _ in range(n)]
    total = {'single preemptions there are': len(single)}
    for r in parallel([lambda j=j: shard(chk, lab, core.Rnd(seeds[j]), single[j::n]) for j in range(n)]):
        if isinstance(r, Failed):
            raise tlc.MachineryError('a process of schedules failed: %s' % r)
        for k, v in r['extra'].items():
            total[k] = total.get(k, 0) + v
        chk.count(r['trials'])
        for what, detail in r['violations']:
            chk.violation(what, detail)
    lab.pool = Pool(3)
    chk.extra.update(total)


def shard(chk, lab, rnd, single):
    o = lab.o
    lab.chk = notes = c08.Notes()
    lab.pool = Pool(3)

    def build():
        app = o.Ombott()
        app.route('/n/<x>', 'GET', lambda x: app.request.path)
        app.request.copy()
        o.HTTPResponse('x', 203, X_A='b')
        g = wsgi.call(app, wsgi.environ('/n/1'))
        if g.body != b'/n/1':
            raise AssertionError('a new application answered %r' % g.body)

    def trial(rigs, names, building, sched, free=False):
        out = {}
        jobs = [r.job(name, tag, out) for r, name, tag in zip(rigs, names, 'abc')]
        if building:
            jobs.append(build)
        run = Run(jobs, roots=lab.roots, pool=lab.pool if len(jobs) <= 3 and rnd.random() < .5 else None, free=free)
        try:
            run.play([x for x in sched if x[0] < len(jobs)])
        except Stuck as e:
            notes.violation('the workers never finish', dict(kinds=names, schedule=sched, error=str(e)))
            return
        notes.count()
        for w in run.workers[len(rigs):]:
            if w.error is not None:
                notes.violation('an application could not be built while others serve', dict(error=repr(w.error), schedule=sched))
        for w, r, name, tag in zip(run.workers, rigs, names, 'abc'):
            got = dict(error=repr(w.error)) if w.error is not None else c08.mask(out[tag])
            lab.check_reply('a request beside other applications got another response', r, name, tag, got, kinds=names, schedule=sched)
    t0, done = time.time(), 0
    for at, names, building, sched in single:
        trial([lab.rigs[x] for x in at], names, building, sched, free=True)
        done += 1
        if time.time() - t0 > chk.pick(12, 240) or len(notes.violations) > 20:
            break
    t0, n = time.time(), 0
    while time.time() - t0 < chk.pick(8, 150) and len(notes.violations) <= 20:
        k = rnd.choice([2, 2, 3])
        rigs = [lab.rigs[x] for x in rnd.sample(range(3), k)]
        names = [rnd.choice(sorted(r.kinds)) for r in rigs]
        if rnd.random() < .4 and all(names[0] in r.kinds for r in rigs):
            names = names[:1] * k
        building = rnd.random() < .35
        m = k + building
        trial(rigs, names, building, [(i % m if rnd.random() < .7 else rnd.randrange(m), rnd.choice([1, 3, 10, 30, 60, 120, 200, 300]) + rnd.randrange(12)) for i in range(rnd.choice([2, 3, 4, 6, 12]))])
        n += 1
    return dict(violations=notes.violations, trials=notes.trials, extra={'single preemptions': done, 'schedules line by line': n})


def check(chk):
    o = core.use_repo()
    rnd = chk.rnd
    root = tempfile.mkdtemp(prefix='vf-c10-')
    with open(os.path.join(root, 'file.bin'), 'wb') as f:
        f.write(CONTENT)
    lab = Three(chk, o)
    try:
        lab.solos()
        explore(chk, o, rnd, root, lab)
        view_common.check(chk, 'C10', view_common.ALL, nest=True)
        settings_common.check(chk)
    finally:
        lab.pool.close()
        shutil.rmtree(lab.root)
        shutil.rmtree(root)


def explore(chk, o, rnd, root, lab):
    inv = dict(init='Init', next='Next', invariants=['Own'], view='View')
    chk.model('Apps', inv, env=dict(ENV, APPS=3, LEN=chk.pick(7, 9)), workers=8)
    chk.model('Apps', inv, env=dict(ENV, THREADS=2, LEN=chk.pick(6, 7)), workers=8)
    if chk.thorough:
        chk.model('Apps', inv, env=dict(ENV, APPS=3, THREADS=2, LEN=7), workers=8, timeout=800)
    for share in ('apps', 'threads', 'copy', 'new'):
        r = chk.model('Apps', inv, env=dict(ENV, THREADS=2, SHARE=share), workers=4, expect_error=True)
        if 'Invariant Own is violated' not in r.out:
            raise tlc.MachineryError('the specification does not see %r' % share)
    cases = []
    r = chk.model('Apps', dict(init='Init', next='Next', invariants=['Own', 'Emit']), env=ENV, workers=8)
    cases += rnd.sample(r.emitted, min(len(r.emitted), chk.pick(500, 10 ** 6)))
    for apps, threads, length, num in ((2, 1, 12, chk.pick(20, 500)), (3, 1, 20, chk.pick(20, 500)), (3, 2, 20, chk.pick(40, 800)), (3, 3, 26, chk.pick(30, 800)), (2, 2, 40, chk.pick(10, 200))):
        r = chk.model('Apps', dict(init='Init', next='Next', invariants=['Own', 'Emit']), env=dict(ENV, APPS=apps, THREADS=threads, LEN=length, FULL=1), workers=4, simulate='num=%d' % num,
                      depth=length + 12, seed=chk.seed)
        cases += r.emitted
    events = [tlc.seq(e['e']) for e in cases] + [random_events(rnd, rnd.randint(5, 60), rnd.randint(1, 3), rnd.randint(2, 3)) for _ in range(chk.pick(150, 3000))]
    stage = None
    items = []
    for k, ev in enumerate(events):
        if k % 10 == 0:
            stage = Stage(o, root, fresh=k % 40 == 0)
        rec = play(chk, stage, ev)
        if rec is not None:
            items.append(dict(e=rec))
    chk.sample(items[-1]['e'][:6])
    for v, it in zip(chk.judge('Apps', items, env=ENV), items):
        if v['why']:
            m = re.search(r'event (\d+)', v['why'])
            k = int(m.group(1)) if m else len(it['e'])
            if len(chk.violations) < 60:
                chk.violation('recorded behaviour: ' + v['why'].split(' ')[0], dict(events=it['e'][max(0, k - 12):k], at=k))
    nested(chk, lab, rnd)
    line_by_line(chk, lab, rnd)
    chk.assumptions.append('an application that calls itself inside its own handler is not part of the property')
