"""C19: building a URL from matched parameters leads back to the same match (Router.tla: Build, Returns)."""
from vf import core
from checks import router_common as rc


def roundtrip(chk, RadiRouter, it, rule, path, vals, back, collect, whole=True):
    """One matched path: parameters -> Route.url -> resolve again."""
    router = RadiRouter()
    log = []
    route = router.add(rule, 'GET', rc.Handler(1, log))
    fl = [x[2] for x in it if x[0] == 1]
    nm = [x[1] for x in it if x[0] == 1]
    values = [rc.conv(f, v) for f, v in zip(fl, vals)]
    kw = {rc.NAMES[n]: v for n, v in zip(nm, values) if n}
    anon = [v for n, v in zip(nm, values) if not n]
    info = dict(rule=rule, path=path, args=[repr(x) for x in anon], kwargs={k: repr(v) for k, v in kw.items()})
    end, err = router.resolve('/' + path, ['GET'])
    if end is None or not rc.kw_equal(end[1], kw):
        chk.violation('C19 the path is not matched with these parameters', dict(info, got=end and repr(end[1])))
        return
    if any(x in (float('inf'), float('-inf')) for x in values if isinstance(x, float)):
        chk.bump('infinite_values')
    sig = 'group of an alternation' if not whole else None if back else 'number behind a pattern wildcard'
    try:
        url = route.url(*anon, **kw)
    except Exception as e:
        chk.violation('C19 the URL is not built', dict(info, error=repr(e)), sig)
        return
    info['url'] = url
    if not isinstance(url, str):
        chk.violation('C19 the URL is not text', info, sig)
        return
    try:
        end, err = router.resolve(url if url.startswith('/') else '/' + url, ['GET'])
    except Exception as e:
        chk.violation('C19 the URL is not resolved', dict(info, error=repr(e)), sig)
        return
    if end is None or not rc.kw_equal(end[1], kw):
        chk.violation('C19 the URL leads elsewhere', dict(info, got=end and repr(end[1])), sig)
        return
    collect.append((it, url, values, info, sig))


def judge_urls(chk, E, done):
    """The specification's own match of the built URLs: same values (also the anonymous ones), literals in place."""
    items = [dict(kind='url', it=it, url=rc.codes(u[1:] if u.startswith('/') else u), fs=rc.FS) for it, u, _, _, _ in done]
    for (it, u, values, info, sig), v in zip(done, chk.judge('Router', items, env=E)):
        v = v['r']
        fl = [x[2] for x in it if x[0] == 1]
        if not v['m'] or not all(rc.same(rc.conv(f, rc.text(t)), x) for f, t, x in zip(fl, v['vals'] or [], values)):
            chk.violation('C19 the URL does not match with the same values', dict(info, spec=v), sig)


def number(rnd, f):
    """A text of the int (-2) or float (-3) wildcard: from one digit to hundreds, subnormal and overflowing ones too."""
    size = lambda: rnd.choice([1, 1, 2, 3, 7, 16, 17, 18, 19, 25, rnd.randrange(1, 60), rnd.randrange(300, 420)])
    digits = lambda n: ''.join(rnd.choice(rnd.choice(['0', '9', '0123456789', '0123456789'])) for _ in range(n))
    out = rnd.choice(['', '', '-']) + rnd.choice(['', '', '0' * size()]) + digits(size())
    if f == -3 and rnd.random() < .75:
        out += '.' + rnd.choice(['', '', '0' * size()]) + digits(size())
    return out


def check(chk):
    core.use_repo()
    from ombott.router import RadiRouter
    rnd = chk.rnd
    E = dict(MAXR=chk.pick(2, 3), PLEN=chk.pick(3, 4), MAXOPS=1, HDEPTH=1, HUNI=1)
    g = chk.model('Router', dict(init='BInit', next='BNext', invariants=['RoundTrip', 'CanonicalIsExact', 'BEmit']), env=E, workers=8, timeout=3000, heap='6g')
    save = rc.RES[:]
    rc.RES[0] = ('[a0]*', [rc.S('a0', 0, 0)], [])
    rc.RES[1] = ('[1-]{1,2}', [rc.S('1-', 1, 2)], [])
    n = 0
    rnd.shuffle(g.emitted)
    try:
        for c in g.emitted:
            it = [list(x) + [0] * (3 - len(x)) for x in c['it']]
            rule = rc.render(it, rnd, True)
            for s, vals, back in c['res'] or []:
                n += 1
                roundtrip(chk, RadiRouter, it, rule, rc.text(s), [rc.text(v) for v in vals or []], back, [])
    finally:
        rc.RES[:] = save
    # random rules and paths
    items, meta = [], []
    for k in range(chk.pick(6000, 60000)):
        if rnd.random() < .12:                # numbers of every length and size
            f = rnd.choice([-2, -3, -3])
            pre, post = rnd.choice(['', '', 'a', 'to/', 'a-']), rnd.choice(['', '', '/x', '.html', 'x'])
            it = rc.lit(pre) + rc.wild(rnd.choice(rc.IDS + [0, 0]), f) + rc.lit(post)
            items.append(dict(kind='build', it=it, s=rc.codes(pre + number(rnd, f) + post), fs=rc.FS))
            meta.append((it, rc.render(it, rnd, rnd.random() < .6), pre + rc.text(items[-1]['s'])[len(pre):]))
            continue
        if rnd.random() < .02:
            it = rnd.choice(rc.long_family(rnd))
            path = rc.long_path(rnd, [it]).strip('/')
        else:
            it = rc.rule_family(rnd, 2, rnd.choice([.15, .15, .7]))[-1]
            path = rc.rand_path(rnd, [it]).strip('/')
        if rnd.random() < .03:
            path += rnd.choice(['1' * 400, '-' + '2' * 400, '-' + '9' * 310, '0' * 30 + '1', '1' * 30 + '.5', '0.' + '0' * 30 + '12', '9' * 17, '5' * 309])
        items.append(dict(kind='build', it=it, s=rc.codes(path), fs=rc.FS))
        meta.append((it, rc.render(it, rnd, rnd.random() < .6), path))
    hit, done = 0, []
    for (it, rule, path), v in zip(meta, chk.judge('Router', items, env=E)):
        v = v['r']
        if not v['m']:
            continue
        hit += 1
        roundtrip(chk, RadiRouter, it, rule, path, [rc.text(x) for x in v['vals'] or []], v['back'] or not v['swal'], done, v['whole'])
    judge_urls(chk, E, done)
    for d in done[:5]:
        chk.sample(d[3])
    chk.count(n + hit)
    chk.bump('random_round_trips', hit)
