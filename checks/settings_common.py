"""Replays behaviours of Settings.tla (C10): applications with settings and registrations of their own."""
import threading

from vf import core, wsgi, tlc

ENV = dict(DEPTH=4, SHARE='none', APPS=2)
VALUES = dict(max=[-1, 0, 40, 99, 100, 200, 1 << 30], mem=[102400, 60, 99, 100], debug=[0, 1], catch=[0, 1], emap=[0, 1], xsn=[0, 1], dom=[0, 1])
NIL = dict(zz=0)


class World:
    """Applications built and used as the operations say."""

    def __init__(self, o, rnd):
        self.o, self.rnd = o, rnd
        self.apps, self.funcs, self.log = {}, {}, []
        self.host = o.Ombott(dict(max_body_size=7, debug=True, catchall=False))
        self.host.route('/host', 'GET', self.inner)
        self.todo = None

    def inner(self):
        self.done = self.todo()
        return 'host'

    def config(self, cfg):
        from ombott.request_pkg import errors
        o, c = self.o, {}
        if 'max' in cfg:
            c['max_body_size'] = None if cfg['max'] < 0 else cfg['max']
        if 'mem' in cfg:
            c['max_memfile_size'] = cfg['mem']
        if 'debug' in cfg:
            c['debug'] = bool(cfg['debug'])
        if 'catch' in cfg:
            c['catchall'] = bool(cfg['catch'])
        if cfg.get('emap'):
            c['errors_map'] = {errors.RequestError: o.HTTPError(430, 'own'), errors.BodySizeError: o.HTTPError(431, 'own'), errors.BodyParsingError: o.HTTPError(432, 'own')}
        if 'xsn' in cfg:
            c['allow_x_script_name'] = bool(cfg['xsn'])
        if cfg.get('dom'):
            c['app_name_header'] = 'HTTP_X_VF_APP'
            c['domain_map'] = lambda host: {'one.test': 'one'}.get(host)
        return c

    def new(self, a, cfg):
        c = self.config(cfg)
        app = self.o.Ombott(c) if c or self.rnd.random() < .3 else self.o.Ombott()
        req, resp = app.request, app.response

        def maybe():
            if self.rnd.random() < .3:      # others are built while this one serves
                self.o.Ombott(dict(max_body_size=1, max_memfile_size=1, debug=True, catchall=False, allow_x_script_name=True))
            return req.copy() if self.rnd.random() < .3 else req

        def post():
            return 'all' if maybe().body.read() == b'x' * self.n else 'another body'

        def form():
            return 'all' if dict(maybe().forms) == {'f': 'x' * (self.n - 2)} else 'another form'

        def chunk():
            return maybe().body.read()

        def crash():
            maybe()
            raise KeyError('vf crash')

        def critical():
            maybe()
            resp.headers['X-Bad'] = '\udc00'
            return 'x'

        def url():
            return maybe().fullpath

        def paths():
            rq = maybe()
            return rq.path + ' ' + rq.fullpath
        for name, f in dict(post=post, form=form, chunk=chunk, crash=crash, critical=critical, url=url, mount=paths, other=paths).items():
            for base in ('/s10/', '/one/s10/'):
                app.route(base + name, ['GET', 'POST'], f)
        self.apps[a] = app

    def func(self, a, kind, n):
        def hook():
            self.log.append([a, n])

        def error(e):
            return 'eh %d %d' % (a, n)
        key = (a, kind, n)
        if key not in self.funcs or kind == 'error':
            self.funcs[key] = dict(hook=hook, error=error)[kind]
        return self.funcs[key]

    def act(self, o):
        a, n = o['a'], o['n']
        app = self.apps.get(a)
        if o['op'] == 'new':
            self.new(a, o['cfg'])
        elif o['op'] == 'setup':
            c = self.config(o['cfg'])
            app.setup(c) if c or self.rnd.random() < .5 else app.setup()
        elif o['op'] == 'route':
            app.route('/s10/own/%d' % n, 'GET', lambda: 'all', overwrite=True)
        elif o['op'] == 'unroute':
            app.remove_route('/s10/own/%d' % n)
        elif o['op'] == 'hook':
            app.add_hook('before_request', self.func(a, 'hook', n))
        elif o['op'] == 'unhook':
            app.remove_hook('before_request', self.func(a, 'hook', n))
        elif o['op'] == 'error':
            app.error(404)(self.func(a, 'error', n))
        else:
            return self.ask(a, o['ask'], n)

    def ask(self, a, what, n):
        path, method, kw = '/s10/' + what, 'GET', {}
        if what == 'post':
            method, kw = 'POST', dict(body=b'x' * n)
        elif what == 'form':
            method, kw = 'POST', dict(body=b'f=' + b'x' * (n - 2), ctype='application/x-www-form-urlencoded')
        elif what == 'chunk':
            method, kw = 'POST', dict(body=b'zz\r\n', chunked=True)
        elif what == 'route':
            path = '/s10/own/%d' % n
        headers = dict(Host='one.test' if what == 'mount' else 'other.test')
        if what == 'url':
            headers['X-Script-Name'] = '/mnt'
        self.n = n
        self.log = []
        r = wsgi.call(self.apps[a], wsgi.environ(path, method, headers=headers, **kw))
        text = r.text()
        shows = ''
        if r.exc is not None:
            return dict(code=0, shows='', hooks=self.log)
        if r.code == 200:
            shows = text
        elif r.code == 500 and 'Traceback (most recent call' in text:
            shows = 'trace'
        elif r.code == 404 and text.startswith('eh '):
            shows = text
        return dict(code=r.code, shows=shows, hooks=self.log)

    def do(self, o):
        k = self.rnd.random()
        if k < .15:
            self.todo = lambda: self.act(o)
            self.done = None
            wsgi.call(self.host, wsgi.environ('/host'))
            return self.done
        if k < .3:
            out = []
            t = threading.Thread(target=lambda: out.append(self.act(o)))
            t.start()
            t.join(30)
            return out[0]
        return self.act(o)


def random_ops(rnd, apps):
    ops, live, hooks, routes, n = [], [], {}, {}, 0
    for _ in range(rnd.randint(4, 30)):
        k = rnd.random()
        cfg = {f: rnd.choice(v) for f, v in VALUES.items() if rnd.random() < .3} or NIL
        if not live or (len(live) < apps and k < .25):
            a = len(live) + 1
            live.append(a)
            hooks[a], routes[a] = [], []
            ops.append(dict(op='new', a=a, n=0, cfg=cfg, ask=''))
            continue
        a = rnd.choice(live)
        n += 1
        if k < .4:
            op, m = 'setup', 0
        elif k < .47:
            op, m = 'route', rnd.randint(1, 3)
            routes[a].append(m)
        elif k < .5 and routes[a]:
            op, m = 'unroute', rnd.choice(routes[a])
            routes[a] = [x for x in routes[a] if x != m]
        elif k < .57:
            op, m = 'hook', n
            hooks[a].append(n)
        elif k < .6 and hooks[a]:
            op, m = 'unhook', rnd.choice(hooks[a])
            hooks[a].remove(m)
        elif k < .65:
            op, m = 'error', n
        else:
            what = rnd.choice(['post', 'post', 'form', 'form', 'chunk', 'crash', 'critical', 'url', 'mount', 'other', 'route', 'route'])
            ops.append(dict(op='ask', a=a, n=rnd.choice([10, 50, 99, 100, 101, 150]) if what in ('post', 'form') else rnd.randint(1, 3), cfg=NIL, ask=what))
            continue
        ops.append(dict(op=op, a=a, n=m, cfg=cfg if op == 'setup' else NIL, ask=''))
    return ops


def check(chk):
    o = core.use_repo()
    rnd = chk.rnd
    cfg = dict(init='Init', next='Next', invariants=['Own'], view='View')
    chk.model('Settings', cfg, env=dict(ENV, DEPTH=chk.pick(4, 5), APPS=chk.pick(2, 3)), workers=8, timeout=800)
    for share in ('defaults', 'setup', 'hooks', 'handlers'):
        r = chk.model('Settings', cfg, env=dict(ENV, SHARE=share), workers=4, expect_error=True)
        if 'Invariant Own is violated' not in r.out:
            raise tlc.MachineryError('the specification does not see shared %s' % share)
    g = chk.model('Settings', dict(cfg, invariants=['Own', 'Emit']), env=ENV, workers=8)
    cases = [(tlc.seq(e['ops']), [e['res']]) for e in rnd.sample(g.emitted, min(len(g.emitted), chk.pick(1500, 20000)))]
    rand = [random_ops(rnd, rnd.choice([2, 3, 4])) for _ in range(chk.pick(400, 6000))]
    for ops, v in zip(rand, chk.judge('Settings', [dict(ops=x) for x in rand], env=dict(ENV, APPS=4))):
        cases.append((ops, v['r'] or []))
    for ops, res in cases:
        w = World(o, rnd)
        got = []
        try:
            got = [r for r in map(w.do, ops) if r is not None]
        except Exception as e:
            chk.violation('C10 the applications cannot be used as the operations say', dict(ops=ops, error=repr(e)))
            continue
        finally:
            chk.count()
        asks = [x for x in ops if x['op'] == 'ask']
        want = []
        for x, r in zip(asks, res):
            shows = r['shows'] if r['shows'] != 'handled' else 'eh %d %d' % (x['a'], r['eh'])
            want.append(dict(code=r['code'], shows=shows, hooks=[[x['a'], h] for h in r['hooks'] or []]))
        if got != want and len(chk.violations) < 60:
            chk.violation('C10 an application does not answer by its own settings and registrations', dict(ops=ops, got=got, want=want))
    chk.sample(dict(settings=ops, answers=want))
    chk.extra['behaviours of Settings'] = len(cases)
