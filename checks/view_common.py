"""Replays behaviours of RequestView.tla inside handlers (C10, C15, C18)."""
import io

from vf import core, wsgi

ALL = ('cookies', 'get_cookie', 'query', 'qs', 'forms', 'POST', 'body', 'params', 'headers', 'env', 'attr')
WRITES = ('cookie', 'query', 'in', 'hdr', 'attr')


def val(n):
    return 'v%02d' % n


def back(s):
    return -1 if s is None or s == '' else int(s[1:]) if len(s) == 3 and s[0] == 'v' and s[1:].isdigit() else 'another: %r' % s


class Player:
    """Runs operations on the request an application is serving, on its copies and on requests served inside."""

    def __init__(self, apps):
        self.apps = apps
        for a in apps:
            a.route('/vf-view', ['POST'], self.handler, overwrite=True)

    def environ(self):
        e = wsgi.environ('/vf-view', 'POST', 'q=' + val(0), b'f=' + val(0).encode(), headers={'Cookie': 'c=' + val(0), 'X-Tag': val(0)})
        e['CONTENT_TYPE'] = 'application/x-www-form-urlencoded'
        return e

    def write(self, rq, key, n):
        if key == 'cookie':
            rq['HTTP_COOKIE'] = 'x=y; c=' + val(n)
        elif key == 'query':
            rq['QUERY_STRING'] = 'q=' + val(n)
        elif key == 'in':
            rq['wsgi.input'] = io.BytesIO(b'f=' + val(n).encode())
        elif key == 'hdr':
            rq['HTTP_X_TAG'] = val(n)
        else:
            rq.kept = val(n)

    def read(self, rq, view):
        def one(d, k):
            return back(d.get(k))
        if view == 'cookies':
            return [one(rq.cookies, 'c')]
        if view == 'get_cookie':
            return [back(rq.get_cookie('c'))]
        if view == 'query':
            return [one(rq.query, 'q')]
        if view == 'qs':
            return [back(rq.query_string[2:] or None)]
        if view == 'forms':
            return [one(rq.forms, 'f')]
        if view == 'POST':
            return [one(rq.POST, 'f')]
        if view == 'body':
            return [back(rq.body.read().decode()[2:])]
        if view == 'params':
            return [one(rq.params, 'q'), one(rq.params, 'f')]
        if view == 'headers':
            return [one(rq.headers, 'X-Tag')]
        if view == 'env':
            return [back(rq.environ.get('HTTP_X_TAG'))]
        return [back(getattr(rq, 'kept', None))]

    def play(self, ops, final):
        self.ops, self.final = ops, final
        self.at, self.objs, self.got, self.fin, self.depth = 0, [], [], None, 0
        self.told, self.off = [], []
        try:
            r = wsgi.call(self.apps[0], self.environ())
        finally:
            for f in self.off:
                f()
        if r.exc is not None or r.code != 200:
            return '%s %r %s' % (r.status, r.exc, r.errors[-400:])
        return None

    def handler(self):
        app = self.apps[self.depth]
        self.objs.append(app.request)
        while self.at < len(self.ops):
            o = self.ops[self.at]
            self.at += 1
            rq = self.objs[o['o'] - 1]
            res = []
            self.told = []
            try:
                if o['op'] == 'set':
                    self.write(rq, o['key'], self.at)
                elif o['op'] == 'del':
                    del rq[dict(cookie='HTTP_COOKIE', query='QUERY_STRING', hdr='HTTP_X_TAG')[o['key']]]
                elif o['op'] == 'lock':
                    rq.environ['ombott.request.readonly'] = True
                elif o['op'] == 'on':
                    self.off.append(rq.on('env_changed', lambda r, key, v, rq=rq: self.told.append(r is rq)))
                elif o['op'] == 'copy':
                    self.objs.append(rq.copy())
                elif o['op'] == 'read':
                    res = self.read(rq, o['key'])
            except KeyError as e:
                res = [-9] if 'read-only' in str(e) else [repr(e)]
            if self.told:
                res = res + ([len(self.told)] if all(self.told) else ['listeners of another object told'])
            self.got.append(res)
            if o['op'] == 'nest':
                self.depth += 1
                r = wsgi.call(self.apps[self.depth], self.environ())
                if r.exc is not None or r.code != 200:
                    raise RuntimeError('nested request: %s' % r.status)
                self.depth -= 1
        if self.fin is None:
            self.fin = [{v: self.read(rq, v) for v in views} for rq, views in zip(self.objs, self.final(self.objs))]
        return 'ok'


def want_final(x, views):
    one = dict(cookies='cookie', get_cookie='cookie', query='query', qs='query', forms='in', POST='in', body='in', headers='hdr', env='hdr', attr='attr')
    out = {}
    for v in views:
        if v in ('forms', 'POST', 'body', 'params') and x['in'] == -2:
            continue
        out[v] = [x['query'], x['in']] if v == 'params' else [x[one[v]]]
    return out


def check(chk, pid, views, nest=False, writes=WRITES, quick=(3, 800), thorough=(4, 12000)):
    ombott = core.use_repo()
    rnd = chk.rnd
    depth, nrand = chk.pick(quick, thorough)
    E = dict(DEPTH=depth, MAXOBJ=3 if nest else 2, NEST=int(nest), LISTEN=int(nest))
    g = chk.model('RequestView', dict(init='Init', next='Next', invariants=['Emit'], properties=['Apart']), env=E, workers=8, timeout=1500, heap='6g')
    keep = lambda o: o['op'] not in ('set', 'del', 'read') or o['key'] in (views if o['op'] == 'read' else writes)
    cases = [(c['ops'], c['res'], c['fin']) for c in g.emitted if all(map(keep, c['ops']))]
    if len(cases) > chk.pick(6000, 60000):
        cases = rnd.sample(cases, chk.pick(6000, 60000))
    rand, E4 = [], dict(E, MAXOBJ=4)
    for _ in range(nrand):
        ops, n, nests = [], 1, 0
        for _ in range(rnd.randint(3, 16)):
            o = rnd.randint(1, n)
            k = rnd.random()
            if k < .45:
                ops.append(dict(op='read', o=o, key=rnd.choice(views)))
            elif k < .75:
                ops.append(dict(op='set', o=o, key=rnd.choice(writes)))
            elif k < .82:
                ops.append(dict(op='del', o=o, key=rnd.choice([w for w in writes if w in ('cookie', 'query', 'hdr')])))
            elif k < .84:
                ops.append(dict(op='lock', o=o, key=''))
            elif k < .88 and nest:
                ops.append(dict(op='on', o=o, key=''))
            elif n < 4:
                ops.append(dict(op='nest' if nest and nests < 2 and rnd.random() < .5 else 'copy', o=o, key=''))
                nests += ops[-1]['op'] == 'nest'
                n += 1
        rand.append(ops)
    for ops, v in zip(rand, chk.judge('RequestView', [dict(ops=o) for o in rand], env=E4)):
        r = v['r']
        res = r['res'] or []
        cases.append((ops[:len(res)], res, r['fin']))      # up to the first operation that says nothing
    apps = [ombott.Ombott(), ombott.default_app(), ombott.Ombott()]
    player = Player(apps)
    for n, (ops, res, fin) in enumerate(cases):
        if n % 50 == 0:
            rnd.shuffle(apps)
        order = rnd.sample(views, len(views))
        final = lambda objs: [[v for v in order if v in want_final(x, order)] for x in fin]
        err = player.play(ops, final)
        chk.count()
        want = [list(r or []) for r in res]
        wfin = [want_final(x, order) for x in fin]
        if err:
            chk.violation('%s a request object cannot be used' % pid, dict(ops=ops, error=err))
        elif player.got != want or player.fin != wfin:
            chk.violation('%s a request object does not show its own environ' % pid, dict(ops=ops, got=player.got, want=want, got_at_end=player.fin, want_at_end=wfin))
        if len(chk.violations) > 60:
            break
    chk.sample(dict(request_view=ops, reads=want))
    chk.extra['behaviours of RequestView'] = len(cases)
