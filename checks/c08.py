"""C08: threads.  Programs and interleavings of ThreadStore.tla are replayed with the workers stopped at the synchronisation
points of the specification; requests of all kinds are run line by line under a controlled scheduler (every single preemption,
sampled double and triple ones) and each response is compared with the one of the same request served alone."""
import io
import json
import os
import re
import sys
import tempfile
import threading
import time

from vf import core, wsgi, tlc
from vf.solo import forked, parallel, Failed
from vf.threads import Run, Pool, Stuck, point

HERE = os.path.abspath(__file__)
ENV = dict(THREADS=2, SHARED=0, MAXOPS=1, FULL=0)
_tl = threading.local()


# ------------------------------------------------------------------ programs of the specification
def program_handler(app, o):
    req, resp = app.request, app.response
    read = dict(path=lambda: req.path.rsplit('/', 1)[-1], query=lambda: req.query.get('q'), header=lambda: req.headers.get('X-Tag'),
                cookie=lambda: req.cookies.get('c'), arg=lambda: req.url_args['x'], attr=lambda: getattr(req, 'kept', ''),
                url=lambda: re.search(r'/([^/?]*)\?', req.url).group(1), method=lambda: req.method.lower(), body=lambda: req.body.read().decode())

    def last(v):
        return v[-1] if isinstance(v, list) else v or ''

    def handler(x):
        prog, log = _tl.prog, _tl.log
        t = prog['t']
        tag = 't%d' % t

        def own():
            r = o.HTTPResponse(body=read['path'](), status=200 + t, headers={'X-One': tag + '.r'})
            r.set_cookie('c', tag + '.r')
            return r

        def lines():
            yield ''
            yield req.path.rsplit('/', 1)[-1]

        def late():
            if tag:
                raise own()
            yield 'x'
        for k, op in enumerate(prog['ops'], 1):
            point()
            val, a = '%s.%d' % (tag, k), op['a']
            if op['k'] == 'read':
                log.append([a, read[a]()])
            elif op['k'] == 'set':
                resp.headers[a] = val
            elif op['k'] == 'add':
                resp.headers.append(a, val)
            elif op['k'] == 'del':
                resp.headers.pop(a, None)
            elif op['k'] == 'cookie':
                resp.set_cookie('c', val)
            elif op['k'] == 'status':
                resp.status = 210 + 10 * t + k
            elif op['k'] == 'keep':
                req.kept = val
            elif op['k'] == 'back':
                log.append([a, last(resp.headers.get(a))])
            else:
                log.append(['status', str(resp.status_code)])
        point()
        end = prog['end']
        if end == 'text':
            return read['path']()
        if end == 'bytes':
            return [read['path']().encode()]
        if end == 'gen':
            return lines()
        if end == 'raise':
            raise own()
        if end == 'return':
            return own()
        if end == 'late':
            return late()
        if end == 'abort':
            o.abort(404, 'page')
        if end == 'crash':
            raise KeyError('page')
        return ''
    return handler


def program_job(app, prog, out):
    """One worker of the specification: begin, its operations, end, send, finish."""
    t = prog['t']
    tag = 't%d' % t
    env = wsgi.environ('/vf8p/' + tag, tag.upper(), 'q=' + tag, tag.encode(), headers={'X-Tag': tag, 'Cookie': 'c=' + tag})

    def job():
        _tl.prog, _tl.log = prog, []
        calls = []

        def start_response(status, headers, exc_info=None):
            point()
            calls.append((status, headers))
        it = app(env, start_response)
        point()
        body = b''.join(it)
        close = getattr(it, 'close', None)
        if close:
            close()
        status, headers = calls[-1]
        hdr = {n: [v for k, v in headers if k == n] for n in ('X-One', 'X-Two')}
        jar = [v[2:].split(';')[0] for k, v in headers if k == 'Set-Cookie' and v.startswith('c=')]
        text = body.decode('utf8', 'replace')
        out[t] = dict(t=t, ops=prog['ops'], end=prog['end'], log=_tl.log,
                      res=dict(status=int(status[:3]), hdr=hdr, jar=jar, body='page' if '<title>' in text else text))
    return job


def play_programs(chk, apps, progs, schedule, roots, pool, items, det, budget):
    out = {}
    app = apps[len(items) % len(apps)]
    run = Run([program_job(app, p, out) for p in progs], roots=roots, pool=pool)
    try:
        run.play(schedule)
    except Stuck as e:
        chk.violation('the workers never finish', dict(programs=progs, schedule=schedule, error=str(e)))
        return
    chk.count()
    for w in run.workers:
        if w.error is not None:
            chk.violation('a request failed under this interleaving', dict(programs=progs, schedule=schedule, thread=w.k + 1, error=repr(w.error)))
    for t, o in out.items():
        items.append(o)
        det.append((progs, schedule))


# ------------------------------------------------------------------ kinds of requests
def log(*a):
    getattr(_tl, 'seen', []).append(repr(a))


class Rig:
    """An application with one route per kind; kinds[name](tag) -> environ."""

    def __init__(self, o, app, root, default):
        self.o, self.app, self.root = o, app, root
        self.kinds = {}
        self.default = default
        self.fill()

    def add(self, name, f, env, method='GET', route=True):
        if route:
            self.app.route('/vf8/%s/<x>' % name, method, f, overwrite=True)
        self.kinds[name] = lambda tag: env(tag, '/vf8/%s/%s' % (name, tag))

    def fill(self):
        o, app = self.o, self.app
        req, resp = app.request, app.response
        E = wsgi.environ

        def get(tag, path, **kw):
            kw.setdefault('query', 'q=%s&w=%s1&w=%s2' % (tag, tag, tag))
            return E(path, kw.pop('method', 'GET'), headers=dict({'X-Tag': tag, 'Cookie': 'c=%s; d=%s' % (tag, tag)}, **kw.pop('headers', {})), **kw)

        def look(x):
            log(x, req.path, req.method, req.query.get('q'), req.query.get('w'), req.query.get('nil'), dict(req.query))
            log(dict(req.cookies), req.headers.get('X-Tag'), req.headers.get('Cookie'), req.url, req.fullpath)
            log(resp.status, resp.body, sorted(resp.headers.items()), resp.content_type, resp.charset)
            log(req.environ['PATH_INFO'], req.url_args, req.route.rule if hasattr(req.route, 'rule') else '', req.app is app)

        def text(x):
            look(x)
            resp.set_cookie('c', x)
            resp.headers['X-A'] = x
            resp.headers.append('X-A', x + '2')
            resp.status = 201 if x == 'a' else '202 ' + x
            look(x)
            resp.headers['X-Own-' + x] = x
            log(resp.headers.get('x-oWN-' + x), 'X-OWN-' + x.upper() in resp.headers, sorted(resp.headers.keys()))
            log(resp.headers.get('X-A'), resp.status, resp.status_code)
            return x + (req.query.get('q') or '')
        self.add('text', text, get)

        # every filter: the values must be this request's own
        def wild(**kw):
            look(sorted(kw.items()))
            return repr(sorted(kw.items()))
        app.route('/vf8/wild/<x>/<n:int>-<f:float>/<r:re([a-c]+)>/<g.rex((foo)|(bar)|(baz))>/<p:path>/end', 'GET', wild, overwrite=True)
        self.kinds['wild'] = lambda tag: get(tag, '/vf8/wild/%s/%d-%d.5/%s/%s/%s/end' % ((tag,) + {'a': (1, 11, 'a', 'foo', 'p/a'), 'b': (22, 2, 'bb', 'bar', 'b'), 'c': (333, 33, 'cba', 'baz', 'c/c/c')}[tag]))

        def forms(x):
            look(x)
            log(dict(req.forms), req.content_length, req.content_type)
            resp.headers['X-B'] = str(req.forms.get('f'))
            log(dict(req.POST), dict(req.params), req.body.read())
            return str(req.forms.get('f'))
        self.add('form', forms, lambda tag, p: get(tag, p, method='POST', body=('f=%s&g=%s' % (tag, tag * 3)).encode(), ctype='application/x-www-form-urlencoded'), 'POST')

        def multi(x):
            f = req.files.get('file')
            log(req.forms.get('f'), f and (f.filename, f.file.read(), f.name))
            resp.content_type = 'text/plain; charset=UTF-8'
            return 'no file' if f is None else req.forms.get('f') + f.filename
        mp = ('--B\r\nContent-Disposition: form-data; name="f"\r\n\r\n%s\r\n--B\r\nContent-Disposition: form-data; name="file"; filename="%s.txt"\r\n'
              'Content-Type: text/plain\r\n\r\ndata of %s\r\n--B--\r\n')
        self.add('multi', multi, lambda tag, p: get(tag, p, method='POST', body=(mp % (tag, tag, tag)).encode(), ctype='multipart/form-data; boundary=B'), 'POST')

        # damaged bodies under the boundary of the sound ones: cut in the header section, and a delimiter followed by junk
        cut = '--B\r\nContent-Disposition: form-data; name="f"\r\nX-Cut: %s'
        junk = '--B\r\nContent-Disposition: form-data; name="f"\r\n\r\n%s\r\n--Bjunk\r\n'
        for name, text_ in (('cutmulti', cut), ('junkmulti', junk)):
            self.add(name, multi, lambda tag, p, text_=text_: get(tag, p, method='POST', body=(text_ % tag).encode(), ctype='multipart/form-data; boundary=B'), 'POST')

        def js(x):
            log(req.json)
            resp.content_type = 'application/json'
            return json.dumps(dict(x=x, j=req.json))
        self.add('json', js, lambda tag, p: get(tag, p, method='POST', body=json.dumps([tag, x_long(tag)]).encode(), ctype='application/json'), 'POST')

        def chunk(x):
            b = req.body.read()
            log(b, req.chunked)
            return [b, x.encode()]
        self.add('chunk', chunk, lambda tag, p: get(tag, p, method='POST', body=wsgi.encode_chunked([tag.encode(), b'-' * 20, tag.encode()]), chunked=True), 'POST')
        self.add('badchunk', chunk, lambda tag, p: get(tag, p, method='POST', body=b'5\r\n' + tag.encode(), chunked=True), 'POST')
        self.add('large', chunk, lambda tag, p: get(tag, p, method='POST', body=tag.encode() * 9000), 'POST')
        self.add('badjson', js, lambda tag, p: get(tag, p, method='POST', body=b'{' + tag.encode(), ctype='application/json', headers={'Accept': 'application/json'}), 'POST')
        self.add('nowhere', None, lambda tag, p: get(tag, '/vf8-no/' + tag), route=False)
        self.add('method', chunk, lambda tag, p: get(tag, p, method='PUT'), 'POST')
        self.add('path', None, lambda tag, p: get(tag, p + '\xff'), route=False)
        self.add('jsonpath', None, lambda tag, p: get(tag, p + '\xff', headers={'Accept': 'application/json'}), route=False)

        def crash(x):
            resp.set_cookie('k', x)
            raise KeyError(x)
        self.add('crash', crash, get)

        def abort(x):
            resp.set_cookie('k', x)
            log(req.path)
            o.abort(410 if x == 'a' else 404, 'gone ' + x)
        self.add('abort', abort, get)

        def raised(x):
            r = o.HTTPResponse('body ' + x, 203 if x == 'a' else 299, {'X-R': x})
            r.headers.append('X-R', x + x)
            r.set_cookie('r', x)
            resp.set_cookie('lost', x)
            if x == 'b':
                return r
            raise r
        self.add('raised', raised, get)

        # one object of the application raised for every request; the error handler adds to this response only
        const = o.HTTPError(423, 'locked', X_Const='1')
        const.headers.append('X-Const', '2')
        const.set_cookie('const', '1')

        def constant(x):
            raise const

        def onconst(e):
            x = req.path.rsplit('/', 1)[-1]
            resp.set_cookie('k' + x, x)
            resp.headers['X-K-' + x] = x
            resp.headers.append('X-Const', x)
            resp.headers.append('X-Const', x)
            return 'locked for ' + x
        app.error(423)(onconst)
        self.add('const', constant, get)

        def gen(x):
            resp.headers['X-G'] = x
            yield ''
            yield req.path
            log(req.query.get('q'))
            yield x
        self.add('gen', gen, get)

        def late(x):
            yield ''
            raise o.HTTPResponse('late ' + req.path, 226, {'X-L': x})
        self.add('late', late, get)

        def genfail(x):
            yield ''
            raise ValueError(req.path)
        self.add('genfail', genfail, get)

        def attrs(x):
            req.mine = x
            req['HTTP_X_TAG'] = x + '-new'
            log(req.headers.get('X-Tag'), req.mine)
            req['QUERY_STRING'] = 'q=' + x * 2
            log(req.query.get('q'), req.mine)
            c = req.copy()
            log(c.path, c.query.get('q'), req.path, c.environ is req.environ)
            return req.mine
        self.add('attrs', attrs, get)

        def signed(x):
            resp.set_cookie('s', [x, 1], secret='k' + x)
            log(req.get_cookie('c'), req.auth, req.remote_addr, req.is_xhr)
            return dict and str(req.auth)
        self.add('signed', signed, lambda tag, p: get(tag, p, headers={'Authorization': 'Basic ' + {'a': 'YTphYQ==', 'b': 'YjpiYg==', 'c': 'YzpjYw=='}[tag]}))

        def copied(x):
            resp.headers['X-C'] = x
            resp.set_cookie('y', x)
            r = resp.copy(cls=o.HTTPResponse)
            r.headers.append('X-C', x + '2')
            r.status = 208
            r.body = 'copy of ' + x
            log(resp.headers.get('X-C'), resp.status_code)
            raise r
        self.add('copied', copied, get)
        self.add('head', text, lambda tag, p: get(tag, p, method='HEAD'))
        self.add('hooked', lambda x: log(req.path) or x, get)
        app.on_route('/vf8/hooked', lambda p: (log('hook', p, req.path), resp.headers.append('X-H', req.path)) and None)
        self.add('empty', lambda x: resp.headers.__setitem__('X-E', x), get)

        def file_like(x):
            return io.BytesIO(req.path.encode() * 3)
        self.add('file', file_like, get)
        if not getattr(app, 'vf8', None):
            app.vf8 = True

            def before():
                log('before', req.path)

            def after():
                log('after', req.path, resp.status_code)
            app.add_hook('before_request', before)
            app.add_hook('after_request', after)

            def onerror(e):
                # an error handler sees this request's error and builds this response
                if not req.path.startswith(('/vf8/', '/vf8-no/')):
                    return app.default_error_handler(e)
                log(req.path, e.status_code, sorted(e.headers.keys()), resp.status_code, e.body, e.exception)
                resp.headers['X-Err'] = req.path
                resp.set_cookie('err', req.path.rsplit('/', 1)[-1])
                e.headers['X-Own'] = req.path
                text = 'error at %s: %s' % (req.path, e.body)
                e.body = text
                return text
            # (the other application answers these with the pages of the framework)
            for code in (410, 413) + ((400, 404, 405, 500) if self.default else ()):
                app.error(code)(onerror)

        def back(x, y='', z=''):
            log(x, y, z, req.url_args, req.path)
            return x + y + z
        for rule in ('/vf8/back/alpha/<x>/end', '/vf8/back/<y>/<x>/stop', '/vf8/back/<y>/be<x>', '/vf8/back/al<z.path()>/<x>/last'):
            app.route(rule, 'GET', back, overwrite=True)
        # the longest literal is tried first and given up, several times
        self.add('back', back, lambda tag, p: get(tag, '/vf8/back/alpha/%s/stop' % tag), route=False)
        self.add('backlast', back, lambda tag, p: get(tag, '/vf8/back/alpha/%s/%s/last' % (tag * 2, tag)), route=False)

        def args(x):
            # what a handler does to the arguments of its request stays in that request
            log(sorted(req.url_args.items()))
            req.url_args[x] = x
            req.url_args.pop('x')
            log(sorted(req.url_args.items()))
            return x
        self.add('args', args, get)

        def red(x):
            resp.set_cookie('y', x)
            o.redirect('/to/' + x)
        self.add('redirect', red, get)
        self.add('static', lambda x: o.static_file(x + '.txt', self.root), lambda tag, p: get(tag, p, headers={'Range': 'bytes=%d-9' % (ord(tag) - 96)}))
        self.add('ownroot', lambda x: o.static_file('same.txt', os.path.join(self.root, x)), get)
        self.add('nofile', lambda x: o.static_file('no' + x, self.root), get)

    def job(self, name, tag, out):
        env = self.kinds[name](tag)

        def job():
            _tl.seen = []
            calls = []

            def start_response(status, headers, exc_info=None):
                calls.append((status, headers))
            it = self.app(env, start_response)
            body = b''.join(it)
            close = getattr(it, 'close', None)
            if close:
                close()
            status, headers = calls[-1]
            out[tag] = dict(status=status, headers=sorted(h for h in headers if h[0] != 'Date'), body=body.decode('utf8', 'replace'), calls=len(calls), seen=_tl.seen)
        return job


def x_long(tag):
    return {'a': 'x' * 5, 'b': [1, 2], 'c': {'k': None}}[tag]


def solo(rig, name, tag):
    """The response the request produces when it is served alone: by the main thread of a process that served nothing else."""
    out = {}
    rig.job(name, tag, out)()
    return out[tag]


def mask(r):
    """Tracebacks name the lines of the code and the addresses of objects: not part of the comparison."""
    if 'body' not in r:
        return r
    r = dict(r)
    r['body'] = re.sub(r'0x[0-9a-f]+', '0x', r['body'])
    return r


class Lab:
    def __init__(self, chk, o):
        self.chk, self.o = chk, o
        self.root = tempfile.mkdtemp(prefix='vf-c08-')
        for n in 'abc':
            with open(os.path.join(self.root, n + '.txt'), 'w') as f:
                f.write((n * 10 + '0123456789') * 3)
            os.mkdir(os.path.join(self.root, n))
            with open(os.path.join(self.root, n, 'same.txt'), 'w') as f:
                f.write('the one of ' + n)
        self.roots = (os.path.join(os.path.realpath(core.REPO), 'ombott') + os.sep, os.path.join(core.REPO, 'ombott') + os.sep, HERE)
        self.expected = {}
        self.rigs = [self.rig(False), self.rig(True)]
        self.pool = Pool(3)

    def rig(self, default):
        app = self.o.default_app() if default else self.o.Ombott(dict(max_body_size=1500, max_memfile_size=1000))
        return Rig(self.o, app, self.root, default)

    def remove(self):
        for n in 'abc':
            os.unlink(os.path.join(self.root, n + '.txt'))
            os.unlink(os.path.join(self.root, n, 'same.txt'))
            os.rmdir(os.path.join(self.root, n))
        os.rmdir(self.root)

    def solos(self):
        for rig in self.rigs:
            for name in rig.kinds:
                for tag in 'abc':
                    try:
                        want = mask(forked(solo, rig, name, tag))
                    except Failed as e:
                        want = dict(error=str(e))
                        self.chk.violation('a request served alone failed', dict(kind=name, got=want))
                    self.expected[rig.default, name, tag] = want
        self.chk.extra['answers of the kinds alone'] = {'%s%s' % (n, ' (default app)' if d else ''): str(w.get('status') or w)[:40] for (d, n, t), w in self.expected.items() if t == 'b'}

    def trial(self, rig, names, schedule, pool=False, opcodes=False, trace=True, free=False):
        """names: one kind per worker; True when every response was the solo one."""
        chk, out = self.chk, {}
        run = Run([rig.job(n, t, out) for n, t in zip(names, 'abc')], roots=self.roots if trace else (), pool=self.pool if pool else None, opcodes=opcodes, free=free)
        try:
            points = run.play(schedule)
        except Stuck as e:
            chk.violation('the workers never finish', dict(kinds=names, schedule=schedule, error=str(e)))
            return None
        chk.count()
        for w, name, tag in zip(run.workers, names, 'abc'):
            want = self.expected[rig.default, name, tag]
            got = dict(error=repr(w.error)) if w.error is not None else mask(out[tag])
            if got != want and len(chk.violations) < 60:
                diff = {k: (want.get(k), got.get(k)) for k in set(want) | set(got) if want.get(k) != got.get(k)}
                chk.violation('a concurrent request got another response', dict(kinds=names, schedule=schedule, request=name, tag=tag, differs=diff, reused=pool))
        return points


def check(chk):
    o = core.use_repo()
    rnd = chk.rnd
    lab = Lab(chk, o)
    try:
        explore(chk, o, rnd, lab)
    finally:
        lab.pool.close()
        lab.remove()


def cold(chk, rnd, lab, seconds):
    """First requests of a process: what is built on first use is built while another request waits, or is met half built.
    Every trial runs in a child of this process, which has served nothing."""
    rig = lab.rigs[0]
    names = sorted(rig.kinds)
    where = {}              # line -> [(kind, point)] for lines that run in a first request only

    def lines(name):
        out = []
        for _ in range(2):
            run = Run([rig.job(name, 'a', {})], roots=lab.roots, keep_lines=True)
            run.play([])
            out.append(run.workers[0].lines)
        return out
    points = {}
    for name in names:
        try:
            first, again = forked(lines, name)
        except Failed as e:
            chk.violation('a first request failed', dict(kind=name, error=str(e)))
            continue
        warm = set(again)
        points[name] = len(first)
        for k, ln in enumerate(first):
            if ln not in warm:
                where.setdefault(ln, []).append((name, k + 1))
        # loops that only a first request runs: more rounds of the same lines
        for ln in warm:
            a, b = first.count(ln), again.count(ln)
            if a > b:
                where.setdefault(ln, []).extend((name, k + 1) for k, x in enumerate(first) if x == ln)
    chk.extra['lines of first requests only'] = len(where)
    trials = []
    for ln, at in where.items():
        kinds = sorted({n for n, k in at})
        for n in rnd.sample(kinds, min(len(kinds), 2)):
            ks = [k for m, k in at if m == n]
            for k in set(ks[:2] + ks[-1:] + rnd.sample(ks, min(len(ks), chk.pick(2, 8)))):
                other = n if rnd.random() < .6 else rnd.choice(kinds)
                trials.append(((n, other), k))
                trials.append(((n, other), k + 1))
    rnd.shuffle(trials)
    seen, n, t0 = set(), 0, time.time()

    def trial(kinds, sched):
        before = len(chk.violations)
        lab.trial(rig, kinds, sched)
        return chk.violations[before:]
    while time.time() - t0 < seconds:
        if trials:
            kinds, k = trials.pop()
        else:
            a = rnd.choice(sorted(points))
            kinds, k = (a, rnd.choice([a, rnd.choice(names)])), rnd.randint(1, points[a])
        if (kinds, k) in seen:
            continue
        seen.add((kinds, k))
        n += 1
        chk.count()
        try:
            for v in forked(trial, kinds, [(0, k), (1, None)]):
                chk.violations.append(v)
        except Failed as e:
            chk.violation('a first request failed', dict(kinds=kinds, point=k, error=str(e)))
        if len(chk.violations) > 60:
            break
    chk.extra['first requests interrupted'] = n
    chk.extra['first requests left out'] = len(trials)


def explore(chk, o, rnd, lab):
    lab.solos()
    cold(chk, rnd, lab, chk.pick(6, 90))
    # --- the specification: per-thread content keeps the workers apart, shared content does not
    inv = dict(init='Init', next='Next', invariants=['Isolation', 'SeesOwn'], view='View')
    chk.model('ThreadStore', inv, env=dict(ENV, MAXOPS=chk.pick(1, 2)), workers=8)
    if chk.thorough:
        chk.model('ThreadStore', inv, env=dict(ENV, THREADS=3), workers=8, timeout=600)
    r = chk.model('ThreadStore', dict(init='Init', next='Next', invariants=['Isolation'], view='View'), env=dict(ENV, SHARED=1), workers=4, expect_error=True)
    if 'Invariant Isolation is violated' not in r.out:
        raise tlc.MachineryError('the specification does not see a shared store')
    # --- its interleavings, replayed
    apps = [o.Ombott(), o.default_app()]
    for app in apps:
        app.route('/vf8p/<x>', 'ANY', program_handler(app, o), overwrite=True)
    cases = []
    em = dict(init='Init', next='Next', invariants=['Emit'])
    r = chk.model('ThreadStore', em, env=ENV, workers=8)
    cases += rnd.sample(r.emitted, min(len(r.emitted), chk.pick(1200, 20000)))
    for n, ops, num in ((2, 3, chk.pick(80, 600)), (3, 3, chk.pick(80, 600)), (3, 5, chk.pick(30, 400))):
        r = chk.model('ThreadStore', dict(init='Init', next='Next', invariants=['Isolation', 'Emit']), env=dict(ENV, THREADS=n, MAXOPS=ops, FULL=1), workers=4, simulate='num=%d' % num,
                      depth=90, seed=chk.seed)
        cases += r.emitted
    items, det = [], []
    pool = Pool(3)
    for k, e in enumerate(cases):
        progs = [dict(t=t, ops=tlc.seq(p['ops']), end=p['end']) for t, p in enumerate(e['p'], 1)]
        play_programs(chk, apps, progs, [(t - 1, 1) for t in e['s']], (), pool if k % 2 else None, items, det, 1)
        if k % 8 == 0:
            # the same programs with the switches between lines of the code
            sched = [(rnd.randrange(len(progs)), rnd.choice([1, 2, 5, 20, 80, 200])) for _ in range(rnd.randint(1, 40))]
            play_programs(chk, apps, progs, sched, lab.roots, pool if k % 16 else None, items, det, None)
    pool.close()
    chk.sample(dict(programs=progs, schedule=e['s']))
    for v, (progs, sched), it in zip(chk.judge('ThreadStore', items, env=ENV), det, items):
        if v['why']:
            chk.violation('interleaving of the specification: ' + v['why'], dict(programs=progs, schedule=sched, got=it))
    # --- lines of the framework interrupted, in processes of their own (the schedules stay deterministic within each)
    plan = Plan(chk, rnd, lab)
    lab.pool.close()
    n = chk.pick(6, 7)
    seeds = [rnd.getrandbits(48) for _ in range(n)]
    total = {}
    for r in parallel([lambda j=j: shard(chk, lab, plan, core.Rnd(seeds[j]), j, n) for j in range(n)]):
        if isinstance(r, Failed):
            raise tlc.MachineryError('a process of schedules failed: %s' % r)
        for k, v in r['extra'].items():
            total[k] = total.get(k, 0) + v
        chk.count(r['trials'])
        for what, detail in r['violations']:
            chk.violation(what, detail)
    lab.pool = Pool(3)
    chk.extra.update(total)
    chk.extra['lines of the framework and the handlers'] = len(plan.where)
    # --- free running threads
    stress(chk, lab, rnd, chk.pick(4, 60))
    chk.assumptions.append('threads are CPython threads; switches happen between lines (sampled: between byte codes) of the framework and of the handlers')


class Plan:
    """Which line each kind of request executes at which of its points."""

    def __init__(self, chk, rnd, lab):
        self.where, self.length = {}, {}            # line -> {kind: its points}; kind -> number of points
        for rig in lab.rigs:
            for name in rig.kinds:
                run = Run([rig.job(name, 'a', {})], roots=lab.roots, keep_lines=True)
                run.play([])
                lines = run.workers[0].lines
                self.length[rig.default, name] = len(lines)
                for k, ln in enumerate(lines):
                    self.where.setdefault(ln, {}).setdefault((rig.default, name), []).append(k + 1)
        times = chk.pick(4, 24)
        self.trials = []
        for ln, at in sorted(self.where.items()):
            mine = [(kind, k) for kind, ks in at.items() for k in {ks[0], ks[-1], rnd.choice(ks)}]
            rnd.shuffle(mine)
            mine = (mine * times)[:times]
            for j, ((default, name), k) in enumerate(mine):
                # the other request is of the same kind, or one that comes past the same line as well
                other = name if j % 4 in (0, 1) else rnd.choice([n for d, n in at if d == default])
                sched = [(0, k), (1, None)]
                if j % 4 == 3:
                    # both are under way: the second is stopped at that line or just behind it
                    m = rnd.choice(at[default, other]) + rnd.choice([0, 0, 1, 1, 2, 3])
                    sched = [(0, k), (1, m), (0, None)]
                self.trials.append((j, default, (name, other), sched))
        rnd.shuffle(self.trials)
        self.trials.sort(key=lambda x: x[0])        # every line once, then every line twice, ...
        # every single preemption: a runs k lines, b of the same kind runs to its end, a finishes
        self.single = []
        for (default, name), n in self.length.items():
            self.single += [(default, (name, name), [(0, k), (1, None)]) for k in range(1, n + 1)]
            for _ in range(chk.pick(1, 3)):
                other = rnd.choice([n2 for d, n2 in self.length if d == default])
                self.single += [(default, (name, other), [(0, k), (1, None)]) for k in range(1, n + 1)]
        rnd.shuffle(self.single)


class Notes:
    """What a check records, inside a child."""

    def __init__(self):
        self.violations, self.trials = [], 0

    def violation(self, what, detail):
        self.violations.append((what, detail))

    def count(self, n=1):
        self.trials += n


def shard(chk, lab, plan, rnd, j, n):
    lab.chk = notes = Notes()
    lab.pool = Pool(3)
    rigs = {rig.default: rig for rig in lab.rigs}
    extra = {}
    mine = plan.trials[j::n]
    for what, todo, limit in (('line interruptions', [t[1:] for t in mine], chk.pick(14, 150)),
                              ('single preemptions', plan.single[j::n], chk.pick(16, 360))):
        t0 = time.time()
        extra[what] = 0
        extra[what + ' there are'] = len(todo)
        for default, kinds, sched in todo:
            lab.trial(rigs[default], kinds, sched, pool=rnd.random() < .5, free=True)
            extra[what] += 1
            if time.time() - t0 > limit or len(notes.violations) > 20:
                break
    # two and three preemptions, two and three workers
    names = {rig.default: sorted(rig.kinds) for rig in lab.rigs}
    t0 = time.time()
    limit = chk.pick(10, 200)
    m = 0
    while time.time() - t0 < limit and len(notes.violations) <= 20:
        rig = lab.rigs[rnd.random() < .3]
        k = rnd.choice([2, 2, 3])
        kinds = tuple(rnd.choice(names[rig.default]) for _ in range(k))
        if rnd.random() < .3:
            kinds = (kinds[0],) * k
        sched = [(i % k if rnd.random() < .7 else rnd.randrange(k), rnd.choice([1, 3, 10, 30, 60, 120, 200, 300]) + rnd.randrange(12)) for i in range(rnd.choice([2, 3, 3, 4, 6, 12]))]
        lab.trial(rig, kinds, sched, pool=rnd.random() < .5, opcodes=rnd.random() < .2)
        m += 1
    extra['sampled schedules with 2..12 preemptions'] = m
    return dict(violations=notes.violations, trials=notes.trials, extra=extra)


def stress(chk, lab, rnd, seconds):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    stop = time.time() + seconds
    bad, n = [], [0] * 3
    try:
        def worker(k, tag):
            r = core.Rnd(chk.seed * 10 + k)
            while time.time() < stop and not bad:
                rig = lab.rigs[r.random() < .3]
                name = r.choice(sorted(rig.kinds))
                out = {}
                try:
                    rig.job(name, tag, out)()
                    got = mask(out[tag])
                except Exception as e:
                    got = dict(error=repr(e))
                want = lab.expected[rig.default, name, tag]
                if got != want:
                    bad.append(dict(kind=name, tag=tag, differs={q: (want.get(q), got.get(q)) for q in set(want) | set(got) if want.get(q) != got.get(q)}))
                n[k] += 1
        ts = [threading.Thread(target=worker, args=(k, t), daemon=True) for k, t in enumerate('abc')]
        for t in ts:
            t.start()
        for t in ts:
            t.join(seconds + 30)
            if t.is_alive():
                chk.violation('free running threads never finish', dict(n=n))
    finally:
        sys.setswitchinterval(old)
    chk.count(sum(n))
    chk.extra['free running requests'] = sum(n)
    for b in bad[:3]:
        chk.violation('a free running request got another response', b)
