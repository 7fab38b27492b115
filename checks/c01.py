"""C01: route resolution equals the rule-by-rule semantics of Router.tla."""
import itertools
import re

from vf import core, wsgi
from vf.core import tlc
from checks import router_common as rc


def regex_selfcheck(chk, E):
    """The specification's regular expressions are the ones Python matches (guards our own transcription)."""
    rnd = chk.rnd
    items, want = [], []
    alphabet = 'abctoxyTm019/-.\n\r\xe9\u0663\u06f5\u0966\uff19in '
    tails = ['', '/end', 'a', '.']
    for k in range(chk.pick(900, 6000)):
        f = rnd.choice([-1, -2, -3] + list(range(1, len(rc.RES) + 1)) + 2 * list(rc.REX))
        alt = f in rc.REX
        s = ''.join(rnd.choice(alphabet) for _ in range(rnd.randrange(1, 8)))
        if alt and rnd.random() < .8:
            s = rnd.choice(rc.SAMPLES[f]) + s
        tail = rnd.choice(tails) if f == -1 else ''
        if f == -1 and tail and rnd.random() < .7:
            s += tail + rnd.choice(['', 'b', tail])
        px = {-2: r'-?\d+', -3: r'-?\d+(\.\d+)?', -1: '.+(?=%s)' % re.escape(tail) if tail else '.+$'}.get(f) or rc.RES[f - 1][0]
        m = re.match(px, s)
        items.append(dict(kind='re', f=f, tail=rc.codes(tail), s=rc.codes(s), fs=rc.FS))
        if not alt:
            want.append(dict(e=m.end() + 1 if m else 0))
        elif m is None:
            want.append(dict(e=0))
        else:
            k = next((j for j in range(1, m.re.groups + 1) if m.group(j) is not None), 0)
            want.append(dict(e=m.end() + 1, v=[m.start(k) + 1, m.end(k) + 1], g=k))
    for o, w, v in zip(items, want, chk.judge('Router', items, env=E)):
        if any(v['r'][k] != w[k] for k in w):
            raise tlc.MachineryError('regex transcription: %r %r %r' % (o['f'], rc.text(o['s']), (w, v)))


def check(chk):
    ombott = core.use_repo()
    from ombott.router import RadiRouter
    rnd = chk.rnd
    E = dict(MAXR=chk.pick(2, 3), PLEN=chk.pick(5, 5), MAXOPS=1, HDEPTH=1, HUNI=1)
    regex_selfcheck(chk, E)
    u = chk.model('Router', dict(init='UShowInit', next='UShowNext', invariants=['UShow']), env=E).emitted[0]['u']
    u = [it or [] for it in u]
    for it in u:
        for x in it:
            if len(x) == 2:
                x.append(0)
    g = chk.model('Router', dict(init='UInit', next='UNext', invariants=['TreeIsFlat', 'Sound', 'UEmit']), env=E, workers=8, timeout=3000, heap='6g')
    FSU = [[rc.S('ab', 1, 0)], [rc.S('a', 0, 0)], [dict(t='rex')]]
    texts = {1: '[ab]+', 2: 'a*', 3: 'a(1)|(a)|b+'}
    n = 0

    def render_u(it):
        save = rc.RES[:]
        try:
            rc.RES[0] = (texts[1], FSU[0], [])
            rc.RES[1] = (texts[2], FSU[1], [])
            rc.RES[2] = (texts[3], FSU[2], [])
            return rc.render(it, rnd)
        finally:
            rc.RES[:] = save

    # 1. every rule set of the model x every path
    sets = {}
    for c in g.emitted:
        d = sets.setdefault(tuple(c['rs'] or []), {})
        for s, k, v in c['res'] or []:
            d[rc.text(s)] = (k, v or [])
    paths = ['']
    for length in range(1, E['PLEN'] + 1):
        paths += [''.join(x) for x in itertools.product('ab/1', repeat=length) if x[0] != '/' and x[-1] != '/']
    stride = chk.pick(1, 3)
    for which, (rs, table) in enumerate(sorted(sets.items())):
        order = list(rs)
        rnd.shuffle(order)
        router = RadiRouter()
        rules = {}
        try:
            for k in order:
                rules[k] = render_u(u[k - 1])
                router.add(rules[k], 'GET', rc.Handler(k))
        except Exception as e:
            chk.violation('C01 rule refused', dict(rules=rules, error=repr(e)))
            continue
        wild = {k: [(rc.NAMES[x[1]], x[2]) for x in u[k - 1] if x[0] == 1] for k in rs}
        for p in paths[which % stride::stride]:
            k, v = table.get(p, (0, ()))
            n += 1
            try:
                end, err = router.resolve('/' + p if n % 3 else p + '/', ['GET', 'ANY'])
            except Exception as e:
                chk.violation('C01 resolve raised', dict(rules=rules, path=p, error=repr(e)))
                break
            if k == 0:
                want = 404
                good = end is None and err[0] == 404
            else:
                want = {nm: rc.conv(f, rc.text(x)) for (nm, f), x in zip(wild[k], v)}
                good = end is not None and end[0].handler.hid == k and rc.kw_equal(end[1], want)
            if not good:
                chk.violation('C01 wrong route or wildcards', dict(
                    rules=rules, path=p, want=(rules.get(k), want),
                    got=(end and (end[0].route.rule, end[0].handler.hid, end[1]), err and err[:2])))
    # 2. random rule families, several rules on one pattern, all filters and flavours
    items, meta = [], []
    longs = chk.pick(45, 500)
    for k in range(chk.pick(500, 6000) + longs):
        fam = rc.long_family(rnd) if k < longs else rc.rule_family(rnd, rnd.choice([1, 2, 3, 4, 6, 9, 14]))
        bare = rnd.random() < .6
        ops, reg = [], []
        use_app = rnd.random() < .4
        log = []
        app = ombott.Ombott() if use_app else None
        router = app.router if use_app else RadiRouter()
        ms = ['GET', 'POST', 'PUT', 'ANY', 'DELETE']
        for j, it in enumerate(fam):
            m = rnd.choice(ms)
            rule = rc.render(it, rnd, bare)
            ow = rnd.random() < .1
            try:
                router.add(rule, m, rc.Handler(j + 1, log), overwrite=ow)
            except Exception:
                continue                   # not registered (C11 decides whether it should have been)
            ops.append(dict(op='add', it=it, ms=[rc.codes(m)], h=j + 1, name='', ow=ow))
            reg.append((m, rule))
        req, got = [], []
        for _ in range(14):
            near = k < longs and ops and rnd.random() < .7
            path = (rc.long_path if near else rc.rand_path)(rnd, [o['it'] for o in ops])
            m = rnd.choice(ms[:3])
            if use_app:
                del log[:]
                r = wsgi.call(app, wsgi.environ(rc.latin(path), m))
                if r.code == 200 and log and r.exc is None:
                    g1 = (200, log[0][1], log[0][3])
                else:
                    g1 = (r.code if r.exc is None else repr(r.exc), None, None)
            else:
                try:
                    end, err = router.resolve(path, rc.cands(m))
                    g1 = (200, end[0].handler.hid, end[1]) if end else (err[0], None, None)
                except Exception as e:
                    g1 = (repr(e), None, None)
            req.append(dict(s=rc.codes(path), m=rc.codes(m)))
            got.append(g1)
            n += 1
        items.append(dict(kind='hist', ops=ops, fs=rc.FS, req=req))
        meta.append(dict(rules=reg, via='wsgi' if use_app else 'resolve', got=got))
    hits = 0
    loose = []

    def agrees(g1, a):
        if a['code'] == 200:
            return g1[0] == 200 and g1[1] == a['h'] and rc.kw_equal(g1[2], rc.expected_kwargs(a))
        return g1[0] == a['code']
    for o, m, v in zip(items, meta, chk.judge('Router', items, env=E)):
        v = v['r']
        if not all(v['oks'] or []):
            # the code accepted what the specification calls a conflicting rule: C11 decides whether it
            # may; an accepted rule has to be followed, whichever of the two wildcards comes first
            loose.append((dict(o, kind='loose'), m))
            continue
        for q, g1, a in zip(o['req'], m['got'], v['ans'] or []):
            hits += a['code'] == 200
            if not agrees(g1, a):
                chk.violation('C01 wrong route, wildcards or status', dict(
                    rules=m['rules'], via=m['via'], path=rc.text(q['s']), method=rc.text(q['m']), got=g1,
                    want=(a['code'], a.get('h'), rc.expected_kwargs(a) if a['code'] == 200 else None, a.get('pat'))))
    if loose:
        chk.bump('accepted_conflicting_sets', len(loose))
        for (o, m), v in zip(loose, chk.judge('Router', [x[0] for x in loose], env=E)):
            for q, g1, a in zip(o['req'], m['got'], v['r']['ans'] or []):
                if not any(agrees(g1, x) for x in a):
                    chk.violation('C01 an accepted rule is not followed', dict(
                        rules=m['rules'], via=m['via'], path=rc.text(q['s']), method=rc.text(q['m']), got=g1,
                        want=[(x['code'], x.get('h'), x.get('pat')) for x in a]))
    chk.count(n)
    chk.extra.update(rule_sets=len(sets), random_sets=len(items), matched=hits)
    for m in meta[:3]:
        chk.sample(m)
