"""C02: dispatch by method, HEAD and ANY fallbacks, 405 with the exact Allow list."""
import random

from vf import core, wsgi
from checks import router_common as rc

METHS = ['GET', 'POST', 'HEAD', 'ANY', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'PURGE', 'M-SEARCH', 'TRACE', 'PROPFIND', 'LOCK']
ODD = ['/http://[x', '///http://[::1', '/a:b', '/x\u2100y', '//\u2100', '/%', '/;', '/?', '/#', '/http://h\u2100st/', '/[', '/]', '/\x00']


LOTS = random.Random(7)


def spell(rnd, m):
    return rnd.choice([m, m, m.lower(), m.capitalize(), ''.join(rnd.choice([c.lower(), c]) for c in m)])


def do(app, o, rule, rnd, log):
    """Perform one edit through one of the public entry points; True when accepted."""
    ms = [rc.text(m) for m in o['ms']]
    router = app.router
    arg = ms[0] if len(ms) == 1 and rnd.random() < .7 else rnd.choice([list, list, tuple])(ms)
    try:
        if o['op'] == 'add':
            h = rc.Handler(o['h'], log)
            route = router[{rule}]
            k = rnd.randrange(5)
            if k == 0 and len(ms) == 1 and ms[0].upper() in ('GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'PATCH', 'OPTIONS'):
                kw = {'overwrite': True} if o['ow'] else {}
                getattr(app, ms[0].lower())(rule, callback=h, **kw)
            elif k == 1:
                app.route(rule, arg, overwrite=o['ow'])(h)
            elif k == 2 and route is not None and list(route.params) == o['params']:
                (route.set_method if o['ow'] else route.add_method)(arg, h)
            elif k == 3:
                app.add_route(rule, arg, h, overwrite=o['ow'])
            else:
                router.add(rule, arg, h, overwrite=o['ow'])
        elif o['op'] == 'delmethod':
            route = router[{rule}]
            if route is not None:
                if rnd.random() < .3:
                    for m in ms:
                        if m.upper() in route.methods:
                            route[m].remove()
                else:
                    route.remove_method(arg)
        elif o['op'] == 'remove':
            app.remove_route(rule)
        return True
    except Exception as e:
        from ombott.errors import OmbottException
        from ombott.router.radidict import RadiDictError
        if isinstance(e, (OmbottException, RadiDictError)):
            return False
        raise


def ask(app, log, path, meth):
    del log[:]
    env = wsgi.environ(rc.latin(path), meth)
    rnd = LOTS
    if rnd.random() < .4:                      # what else the request says does not choose the handler
        other = rnd.choice(METHS)
        for h in rnd.sample(['X_HTTP_METHOD_OVERRIDE', 'X_METHOD_OVERRIDE', 'X_HTTP_METHOD', 'ACCESS_CONTROL_REQUEST_METHOD', 'ORIGIN', 'UPGRADE'], 2):
            env['HTTP_' + h] = spell(rnd, other)
        if rnd.random() < .5:
            env['QUERY_STRING'] = '_method=%s&method=%s' % (other, other)
        wsgi.aside(rnd, env, methods=[meth])
    r = wsgi.call(app, env)
    if r.exc is not None:
        return dict(code=599, err=repr(r.exc))
    out = dict(code=r.code)
    if r.code == 200:
        out['h'] = log[0][1] if len(log) == 1 else None
        out['kw'] = log[0][3] if log else None
    if r.code == 405:
        out['allow'] = [x.strip() for x in (r.header('Allow') or '').split(',') if x.strip()]
        out['n_allow'] = len(r.all('Allow'))
    if r.code >= 500:
        out['err'] = (r.errors + r.text())[-500:]
    return out


def good(got, a):
    if got['code'] != a['code']:
        return False
    if a['code'] == 405:
        want = [rc.text(x) for x in a['allow'] or []]
        return sorted(got['allow']) == want and got['n_allow'] == 1
    if a['code'] == 200:
        return got['h'] == a['h'] and rc.kw_equal(got['kw'], rc.expected_kwargs(a))
    return True


def check(chk):
    ombott = core.use_repo()
    rnd = chk.rnd
    E = dict(MAXR=1, PLEN=1, MAXOPS=chk.pick(2, 3), HDEPTH=1, HUNI=1)
    g = chk.model('Router', dict(init='DInit', next='DNext', invariants=['DispatchOK', 'DEmit']), env=E, workers=1 if not chk.thorough else 1, timeout=3000)
    n = 0
    # 1. the model's histories of method assignments, every probe through WSGI
    cases = g.emitted
    lim = chk.pick(600, 6000)
    if len(cases) > lim:
        cases = rnd.sample(cases, lim)
    for c in cases:
        log = []
        app = ombott.Ombott()
        done = []
        bad = False
        for o, ok in zip(c['ops'], c['oks']):
            it = [x if len(x) == 3 else x + [0] for x in o['it']]
            rule = rc.render(it, rnd)
            o = dict(o, params=['x'] if it[0][0] else [])
            got = do(app, o, rule, rnd, log)
            done.append((o['op'], rule, [rc.text(m) for m in o['ms'] or []], o['ow'], got))
            for q in rnd.sample(c['ans'], min(3, len(c['ans']))):      # requests between the edits change nothing
                ask(app, log, rc.text(q['s']), rc.text(q['m']))
            if got != ok:
                chk.violation('C02 registration %s' % ('refused' if ok else 'accepted'), dict(ops=done))
                bad = True
                break
        if bad:
            continue
        for q in c['ans']:
            got = ask(app, log, rc.text(q['s']), rc.text(q['m']))
            n += 1
            if not good(got, q['a']):
                chk.violation('C02 wrong answer', dict(ops=done, path=rc.text(q['s']), method=rc.text(q['m']), got=got, want=q['a']))
                break
    # 2. random rule families and method assignments
    items, meta = [], []
    for k in range(chk.pick(350, 5000)):
        fam = rc.rule_family(rnd, rnd.choice([1, 2, 3, 5]))
        bare = rnd.random() < .6
        app = ombott.Ombott()
        log = []
        ops, hist, oks = [], [], []
        crash = None
        pool = [(rc.rand_path(rnd, fam) if rnd.random() < .9 else rnd.choice(ODD), spell(rnd, rnd.choice(METHS))) for _ in range(12)]
        busy = rnd.random() < .6
        for j in range(rnd.randrange(1, 9)):
            it = rnd.choice(fam)
            kind = rnd.choice(['add'] * 6 + ['delmethod'] * 2 + (['remove'] if rnd.random() < .4 else ['add']))
            if kind == 'remove':               # removing what is registered (ignoring filters is unspecified)
                mine = [o['it'] for o, k2 in zip(ops, oks) if k2 and o['op'] == 'add']
                if not mine:
                    continue
                it = rnd.choice(mine)
                key = rc.key(it)
                if any(o['op'] == 'remove' and rc.key(o['it']) == key for o in ops):
                    continue
            some = rnd.choice([1] * 6 + [2, 2, 2, 3, 3, 3, 6, 9, 10, 11, len(METHS)])
            ms = [spell(rnd, m) for m in rnd.sample(METHS if some < 9 or some == len(METHS) else [m for m in METHS if m != 'ANY'], some)]
            rule = rc.render(it, rnd, bare)
            o = dict(op=kind, it=it, ms=[rc.codes(m) for m in ms], h=j + 1, name='', ow=rnd.random() < .3,
                     params=[rc.NAMES[x[1]] if x[1] else None for x in it if x[0] == 1])
            try:
                ok = do(app, o, rule, rnd, log)
            except Exception as e:
                crash = repr(e)
                break
            ops.append({k2: v2 for k2, v2 in o.items() if k2 != 'params'})
            oks.append(ok)
            hist.append((kind, rule, ms, o['ow'], ok))
            for path, m in rnd.sample(pool, 4 if busy else 0):             # requests between the edits change nothing
                ask(app, log, path, m)
        if crash:
            chk.violation('C02 registration crashed', dict(ops=hist, error=crash))
            continue
        req, got = [], []
        for path, m in pool:
            req.append(dict(s=rc.codes(path), m=rc.codes(m)))
            got.append(ask(app, log, path, m))
        items.append(dict(kind='hist', ops=ops, fs=rc.FS, req=req))
        meta.append(dict(ops=hist, oks=oks, got=got))
    stat = {}
    for o, m, v in zip(items, meta, chk.judge('Router', items, env=E)):
        v = v['r']
        if list(v['oks'] or []) != m['oks']:
            d = next(k for k, (a, b) in enumerate(zip(m['oks'], v['oks'])) if a != b)
            chk.violation('C02 registration %s' % ('accepted' if m['oks'][d] else 'refused'), dict(ops=m['ops'], at=d))
            continue
        for q, g1, a in zip(o['req'], m['got'], v['ans'] or []):
            n += 1
            stat[a['code']] = stat.get(a['code'], 0) + 1
            if not good(g1, a):
                chk.violation('C02 wrong answer', dict(ops=m['ops'], path=rc.text(q['s']), method=rc.text(q['m']), got=g1, want=a))
    chk.count(n)
    chk.extra.update(histories=len(cases) + len(items), answers={str(k): v for k, v in stat.items()})
    for m in meta[:3]:
        chk.sample(m)
