"""C09: histories.  Sequences of requests of History.tla are served by one application on one thread and every reply is compared
with the specification and with the reply of a process that served nothing else; what is kept of N requests is counted."""
import base64
import collections
import email.utils
import gc
import json
import os
import re
import sys
import threading
import time
import weakref

from vf import core, wsgi, tlc
from vf.solo import forked, Failed
from checks import c08

ENV = dict(BUG='none', LEN=1, FULL=0, RAND=0)
TAG = re.compile(r'r\d+q')


class Env(dict):
    """An environ that can be weakly referenced."""
    __slots__ = ('__weakref__',)


class Desk:
    """The application of History.tla."""

    def __init__(self, o, config=None):
        self.o = o
        self.app = app = o.Ombott(dict(dict(max_body_size=300, max_memfile_size=200), **(config or {})))
        req, resp = app.request, app.response
        self.shared = o.HTTPError(419, 'shared', X_List='s')
        self.shared.headers.append('X-List', 's')
        self.shared.set_cookie('s', 's')

        def tag():
            m = TAG.search(req.path)
            return m.group(0) if m else ''

        def text():
            return '%s/%s' % (tag(), getattr(req, 'kept', ''))

        def plan():
            return req.environ['vf.plan']

        def own():
            r = o.HTTPResponse(text(), 250, X_Own=tag(), X_List=tag())
            r.set_cookie('own', tag())
            return r

        def before():
            if resp.body or len(resp.headers):       # a response starts with nothing in it
                resp.headers['X-Start'] = repr((resp.body, sorted(resp.headers.items())))
            if plan()['hook'] == 'before':
                raise RuntimeError(tag())

        def after():
            if plan()['hook'] == 'after':
                raise RuntimeError(tag())
        app.add_hook('before_request', before)
        app.add_hook('after_request', after)

        def lazily(f):
            yield ''
            yield f()

        def fail(e):
            raise e

        def handler(x):
            p, t = plan(), tag()
            if 'status' in p['marks']:
                resp.status = 231
            if 'hdr' in p['marks']:
                resp.headers['X-Hdr'] = t
            if 'list' in p['marks']:
                resp.headers.append('X-List', t)
                resp.headers.append('X-List', t)
            if 'cookie' in p['marks']:
                resp.set_cookie('c', t, path='/' + t if p.get('path_attr') else None) if p.get('path_attr') else resp.set_cookie('c', t)
            if 'attr' in p['marks']:
                req.kept = getattr(req, 'kept', '') + t
            if p['body'] == 'form':
                if req.forms.get('f') != t:
                    return 'another form: %r' % dict(req.forms)
            elif p['body'] == 'json':
                return str(req.json)
            elif p['body'] != 'none':
                return req.body.read()
            out = p['out']
            if out == 'text':
                return text()
            if out == 'bytes':
                return [text().encode()]
            if out == 'gen':
                return lazily(text)
            if out == 'raise':
                raise own()
            if out == 'error':
                return o.HTTPError(418, 'x', X_Own=t)
            if out == 'sharedresp':
                raise self.shared
            if out == 'crash':
                raise KeyError(t)
            if out == 'late':
                return lazily(lambda: fail(own()))
            if out == 'latecrash':
                return lazily(lambda: fail(KeyError(t)))
            if out == 'critical':
                resp.headers['X-Bad'] = '\udc00' + t
                return text()
            return ''
        app.route('/vf9/h/<x>', ['GET', 'POST', 'HEAD'], handler)
        app.route('/vf9/only/<x>', 'PUT', handler)

        def onerror(e):
            # (the response raised for 419 is an object of the application: what is done to it stays)
            note = e.headers.get('X-Note', '') if e.status_code != 419 else ''
            if e.status_code != 419:
                e.headers['X-Note'] = note + tag()
            resp.headers['X-Err'] = note + tag()
            resp.headers.append('X-List', tag())
            resp.set_cookie('err', tag())
            return text()
        for code in (413, 418, 419):
            app.error(code)(onerror)

    def env(self, r, t):
        path = {'found': '/vf9/h/' + t, '404': '/vf9/none/' + t, '405': '/vf9/only/' + t, 'undecodable': '/vf9/h/' + t + '\xff'}[r['path']]
        body, kw = b'', {}
        if r['body'] == 'form':
            body = b'f=' + t.encode()
        elif r['body'] == 'large':
            body = t.encode() * 200
        elif r['body'] == 'chunk':
            body, kw = b'99\r\n' + t.encode(), dict(chunked=True)
        elif r['body'] == 'json':
            body, kw = b'{' + t.encode(), dict(ctype='application/json')
        headers = {'Accept': 'application/json'} if r['json'] else {}
        headers['Cookie'] = 'in=' + t
        # a POST keeps its method, a HEAD request carries its body all the same
        method = 'HEAD' if r['head'] else 'POST' if body else 'GET'
        e = Env(wsgi.environ(path, method, 'q=' + t, body, headers=headers, **kw))
        e['vf.plan'] = r
        return e

    def serve(self, r, t):
        e = self.env(r, t)
        g = wsgi.call(self.app, e)
        return dict(code=g.code, status=g.status, headers=[h for h in g.headers or []], body=g.text(), exc=repr(g.exc) if g.exc else '', calls=len(g.calls))

    def judged(self, r, t, g):
        """What the specification speaks about."""
        def vals(n):
            return [v for k, v in g['headers'] if k.lower() == n]
        jar = [v.split(';')[0] for v in vals('set-cookie')]
        text = g['body']
        if '<' in text:
            text = 'page'
        elif text.startswith('{'):
            try:
                text = 'json' if 'body' in json.loads(text) else text
            except ValueError:
                pass
        foreign = int(any(m != t for m in TAG.findall(repr((g['status'], g['headers'], g['body'])))))
        return dict(r=r, t=t, g=dict(status=g['code'], hdr=vals('x-hdr'), list=vals('x-list'), own=vals('x-own'), err=vals('x-err'), jar=jar, body=text, foreign=foreign))


def key(r):
    return json.dumps(r, sort_keys=True)


def random_request(rnd):
    r = dict(path=rnd.choice(['found'] * 6 + ['404', '405', 'undecodable']), body=rnd.choice(['none', 'none', 'form', 'large', 'chunk', 'json']),
             marks=[m for m in ('status', 'hdr', 'list', 'cookie', 'attr') if rnd.random() < .5],
             out=rnd.choice(['text', 'bytes', 'gen', 'empty', 'raise', 'error', 'sharedresp', 'crash', 'late', 'latecrash', 'critical']), hook=rnd.choice(['fine'] * 5 + ['before', 'after']),
             head=int(rnd.random() < .15), json=int(rnd.random() < .25))
    if r['path'] != 'found' or r['hook'] == 'before':
        r.update(body='none', marks=[], out='text')
    if r['path'] == 'undecodable':
        r['hook'] = 'fine'
    if r['body'] in ('large', 'chunk', 'json'):
        r['out'] = 'text'
    return r


def plain(r):
    return dict(r, marks=sorted(tlc.seq(r['marks'])))


def histories(chk, o, rnd):
    """Sequences of the specification and random ones, judged by it and compared with a process of their own."""
    cases = []
    r = chk.model('History', dict(init='Init', next='Next', invariants=['Function', 'NoCarry', 'Emit'], view='View'), env=dict(ENV, LEN=chk.pick(2, 3)), workers=8)
    cases += [e['h'] for e in r.emitted]
    for bug in ('late', 'alias', 'jar', 'kept'):
        x = chk.model('History', dict(init='Init', next='Next', invariants=['Function', 'NoCarry'], view='View'), env=dict(ENV, LEN=2, BUG=bug), workers=4, expect_error=True)
        if 'is violated' not in x.out:
            raise tlc.MachineryError('the specification does not see the deviation %r' % bug)
    r = chk.model('History', dict(init='Init', next='Next', invariants=['Function', 'NoCarry', 'Emit'], view='View'), env=dict(ENV, LEN=6, FULL=1, RAND=1), workers=4,
                  simulate='num=%d' % chk.pick(25, 400), depth=60, seed=chk.seed)
    cases += [e['h'] for e in r.emitted]
    r = chk.model('History', dict(init='Init', next='Next', invariants=['Function', 'NoCarry', 'Emit'], view='View'), env=dict(ENV, LEN=1, FULL=1), workers=4)
    every = [e['h'][0] for e in r.emitted]
    rnd.shuffle(every)
    # every request of the specification once, in long histories
    cases += [every[k:k + 12] for k in range(0, len(every), 12)][:chk.pick(150, 10 ** 6)]
    cases += [[random_request(rnd) for _ in range(rnd.randint(2, 40))] for _ in range(chk.pick(60, 1500))]
    desk = Desk(o)
    fresh, items, det = {}, [], []

    def alone(q, t):
        # the tag is part of the request: replies are compared under one tag
        k = key(q)
        if k not in fresh:
            try:
                fresh[k] = forked(lambda: desk0.serve(q, 'r0q'))
            except Failed as e:
                fresh[k] = dict(failed=str(e))
        want = fresh[k]
        return json.loads(json.dumps(want).replace('r0q', t)), want
    desk0 = Desk(o)     # serves only in children
    for n, h in enumerate(cases):
        h = [plain(q) for q in h]
        if n % 5 == 0:
            desk = Desk(o)
        got = []

        def play():
            for k, q in enumerate(h, 1):
                got.append(desk.serve(q, 'r%dq' % k if len(h) < 10 else 'r%dq' % (100 + k)))
        if n % 3 == 1:
            t = threading.Thread(target=play)
            t.start()
            t.join(60)
        else:
            play()
        chk.count()
        if len(got) < len(h):
            chk.violation('a history was not served to its end', dict(history=h, served=len(got)))
            continue
        for k, (q, g) in enumerate(zip(h, got), 1):
            t = 'r%dq' % k if len(h) < 10 else 'r%dq' % (100 + k)
            items.append(desk.judged(q, t, g))
            det.append((h, k, g))
            if len(fresh) < chk.pick(2500, 10000) or key(q) in fresh:
                want, _ = alone(q, t)
                a = json.loads(json.dumps(g))
                # the number of digits of the tag shows in Content-Length
                for x in (a, want):
                    x['headers'] = [v for v in x.get('headers', []) if v[0] != 'Content-Length']
                if a != want and len(chk.violations) < 60:
                    chk.violation('another reply than on a fresh application', dict(history=h[:k], request=k, got=a, alone=want))
    chk.sample(dict(history=h[:3], reply=got[0]))
    for v, (h, k, g) in zip(chk.judge('History', items, env=ENV), det):
        if v['why'] and len(chk.violations) < 60:
            chk.violation('history: ' + v['why'], dict(history=h[:k], request=k, reply=g))
    chk.extra['requests in histories'] = len(items)
    chk.extra['compared with a fresh process'] = len(fresh)


def kinds(chk, o, rnd, lab):
    """Requests of every kind of C08, every ordered pair of kinds (thorough: every triple), long random histories."""
    lab.solos()

    def serve(rig, seq, pool=None):
        out = []

        def play():
            for name, tag in seq:
                x = {}
                try:
                    rig.job(name, tag, x)()
                    out.append(c08.mask(x[tag]))
                except Exception as e:
                    out.append(dict(error=repr(e)))
        if pool:
            t = threading.Thread(target=play)
            t.start()
            t.join(60)
        else:
            play()
        chk.count()
        for k, ((name, tag), got) in enumerate(zip(seq, out)):
            want = lab.expected[rig.default, name, tag]
            if got != want and len(chk.violations) < 60:
                diff = {q: (want.get(q), got.get(q)) for q in set(want) | set(got) if want.get(q) != got.get(q)}
                chk.violation('another reply than on a fresh application', dict(history=seq[:k + 1], differs=diff))
    n = 0
    for rig in lab.rigs:
        names = sorted(rig.kinds)
        for a in names:
            for b in names:
                serve(rig, [(a, 'a'), (b, 'b')], pool=n % 4 == 0)
                n += 1
                if chk.thorough and not rig.default:
                    serve(rig, [(a, 'a'), (b, 'b')] + [(c, 'abc'[k % 3]) for k, c in enumerate(names)])
        for a in names:      # the very same request again
            serve(rig, [(a, 'a'), (a, 'a'), (a, 'b'), (a, 'a')])
        for _ in range(chk.pick(60, 1500)):
            serve(rig, [(rnd.choice(names), rnd.choice('abc')) for _ in range(rnd.randint(3, 60))], pool=rnd.random() < .3)
    chk.extra['pairs of kinds'] = n


class Watch:
    """Weak references to the per-request objects the test hands in, counts of everything else."""

    def __init__(self, rig):
        self.rig = rig
        self.refs = []

    def serve(self, name, k):
        rig = self.rig
        env = Env(rig.kinds[name]('abc'[k % 3]))
        raw, ctype = env['wsgi.input'].getvalue(), env.get('CONTENT_TYPE', '')
        # a boundary, a field, a key of its own
        if env.get('CONTENT_LENGTH') == str(len(raw)) and raw:
            if ctype.endswith('boundary=B'):
                env['CONTENT_TYPE'] = ctype + 'z%d' % k
                raw = raw.replace(b'--B', b'--Bz%d' % k)
            elif ctype.startswith('application/x-www-form-urlencoded'):
                raw += b'&z%d=%d' % (k, k)
            elif ctype.startswith('application/json') and raw[:1] == b'{' and raw[-1:] == b'}':
                raw = raw[:-1] + b', "z%d": %d}' % (k, k)
            env['CONTENT_LENGTH'] = str(len(raw))
        stream = wsgi.Stream(raw)
        env['wsgi.input'] = stream
        # every request has a path, a query and a header of its own
        env['PATH_INFO'] = env['PATH_INFO'].replace('\xff', 'z%d\xff' % k)
        if name == 'nowhere':
            env['PATH_INFO'] += 'z%d' % k
        env['QUERY_STRING'] += '&z=%d' % k
        env['HTTP_X_ONCE'] = 'once %d' % k
        env['HTTP_COOKIE'] += '; z%d=%d' % (k, k)
        if name == 'wild':
            env['PATH_INFO'] = '/vf8/wild/x%d/%d-%d.5/abc/foo/p%d/end' % (k, k, k, k)
        if k % 4 == 1:
            env['HTTP_RANGE'] = 'bytes=%d-%d' % (k % 5, k)
        if k % 4 == 2:
            env['HTTP_IF_MODIFIED_SINCE'] = email.utils.formatdate(10 ** 8 + k, usegmt=True)
        env['HTTP_AUTHORIZATION'] = 'Basic ' + base64.b64encode(b'u%d:p' % k).decode()
        env['HTTP_X_FORWARDED_FOR'] = '10.0.%d.%d, 10.1.1.1' % (k >> 8 & 255, k & 255)
        env['HTTP_USER_AGENT'] = 'agent/%d' % k
        if env.get('CONTENT_TYPE', '').startswith('multipart/'):
            env['CONTENT_TYPE'] += '; z=%d' % k
        env['HTTP_HOST'] = 'h%d.test' % k
        c08._tl.seen = []
        g = wsgi.call(rig.app, env)
        self.refs.append((weakref.ref(env), weakref.ref(stream)))
        return g.code

    def alive(self):
        gc.collect()
        n = sum(1 for pair in self.refs if any(r() is not None for r in pair))
        return n


def held():
    """Allocated blocks, and references held by containers (a list of one object repeated takes no blocks)."""
    gc.collect()
    n = sum(len(x) for x in gc.get_objects() if type(x) in (list, dict, set, collections.deque))
    return max(sys.getallocatedblocks(), 0), n


def growth(a, b, n):
    return max(b[0] - a[0], b[1] - a[1]) / n


def retention(chk, o, rnd, lab):
    def fds():
        return len(os.listdir('/proc/self/fd'))

    def blocks(w, name, k0, n):
        a, f = held(), fds()
        for k in range(k0, k0 + n):
            w.serve(name, k)
        w.refs.clear()
        return growth(a, held(), n), (fds() - f) / n
    N, grown = chk.pick(60, 2000), 0
    chk.extra['requests kept (per kind, at most)'] = 0
    for rig in lab.rigs:
        for name in sorted(rig.kinds) if not rig.default else ('redirect', 'static', 'nofile', 'text', 'nowhere', 'large'):
            w = Watch(rig)
            for k in range(N):
                w.serve(name, k)
            n = w.alive()
            chk.count(N)
            chk.extra['requests kept (per kind, at most)'] = max(chk.extra['requests kept (per kind, at most)'], n)
            if n > 15:
                chk.violation('requests are kept alive', dict(kind=name, served=N, alive=n))
                continue
            # requests whose body errors are raised while others failed before: the same across kinds is covered by the mix
            w.refs.clear()
            per, fd = blocks(w, name, N, N)
            if per > .4 or fd > .2:
                # bounded caches fill up first
                t0 = time.time()
                blocks(w, name, 10000, 3000)
                # (a request that takes longer the more were served)
                per, fd = blocks(w, name, 20000, 6000 if time.time() - t0 < 20 else 500)
                if per > .4 or fd > .2:
                    chk.violation('memory grows with the number of requests', dict(kind=name, blocks_per_request=round(per, 2), files_per_request=round(fd, 2)))
                    grown += 1
                    if grown == 3:
                        return
    # requests of History.tla: every outcome under every hook, raised objects of the application among them
    desk = Desk(o)
    plans = [dict(path='found', body=b, marks=['list', 'cookie', 'attr'], out=out, hook=hook, head=head, json=head)
             for out in ('text', 'gen', 'raise', 'error', 'sharedresp', 'crash', 'late', 'latecrash', 'critical') for hook in ('fine', 'after') for b, head in (('none', 0), ('form', 1))]
    plans += [dict(path='found', body=b, marks=[], out='text', hook=hook, head=0, json=0) for b in ('large', 'chunk', 'json') for hook in ('fine', 'before', 'after')]
    for q in plans + [None]:
        refs = []
        for k in range(chk.pick(30, 500)):
            r = q or random_request(rnd)
            env = desk.env(r, 'r%dq' % k)
            stream = env['wsgi.input'] = wsgi.Stream(env['wsgi.input'].getvalue())
            wsgi.call(desk.app, env)
            refs.append((weakref.ref(env), weakref.ref(stream)))
            del env, stream
            chk.count()
        gc.collect()
        n = sum(1 for pair in refs if any(x() is not None for x in pair))
        if n > 15:
            chk.violation('requests are kept alive', dict(request=q or 'mixed', served=len(refs), alive=n))
    # every request of these has a path (and a form) of its own
    def desks(k0, n, q):
        a = held()
        for k in range(k0, k0 + n):
            env = desk.env(q, 'r%dq' % k)
            wsgi.call(desk.app, env)
            del env
        return growth(a, held(), n)
    for q in [p for p in plans if p['hook'] == 'fine']:
        if desks(10 ** 4, chk.pick(40, 400), q) > .4:
            t0 = time.time()
            desks(10 ** 5, 3000, q)
            per = desks(10 ** 6, 3000 if time.time() - t0 < 20 else 500, q)
            chk.count()
            if per > .4:
                chk.violation('memory grows with the number of requests', dict(request=q, blocks_per_request=round(per, 2)))
                break
    # all kinds mixed, and one thread per request
    for threaded in (False, True):
        rig = lab.rigs[0]
        names = sorted(rig.kinds)
        w = Watch(rig)
        for k in range(chk.pick(600, 8000)):
            if threaded:
                t = threading.Thread(target=w.serve, args=(rnd.choice(names), k))
                t.start()
                t.join(30)
            else:
                w.serve(rnd.choice(names), k)
            chk.count()
        n = w.alive()
        if n > 15:
            chk.violation('requests are kept alive', dict(kind='mixed', thread_per_request=threaded, served=k + 1, alive=n))
        if threaded:
            w.refs.clear()

            def one(k):
                t = threading.Thread(target=w.serve, args=(names[k % len(names)], k))
                t.start()
                t.join(30)

            def grow(k0, n):
                a = held()
                for k in range(k0, k0 + n):
                    one(k)
                w.refs.clear()
                return growth(a, held(), n)
            if grow(10 ** 5, 200) > .5:
                grow(2 * 10 ** 5, 3000)
                per = grow(3 * 10 ** 5, 3000)
                if per > .5:
                    chk.violation('memory grows with the number of threads', dict(blocks_per_thread=round(per, 2)))


def check(chk):
    o = core.use_repo()
    rnd = chk.rnd
    lab = c08.Lab(chk, o)
    try:
        retention(chk, o, rnd, lab)      # (first: the heap is small)
        kinds(chk, o, rnd, lab)
        histories(chk, o, rnd)
    finally:
        lab.pool.close()
        lab.remove()
    chk.assumptions.append('retention is measured after a garbage collection: weak references to environs and streams, allocated blocks and open files')
