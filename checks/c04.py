from vf import core, wsgi
from checks.body_common import app_for, filler, prefix_of


def observe(cl, data, buf, lim, ks=None, frag=None, script=(), absent=False, rnd=None):
    st = wsgi.Stream(data, ks=ks, frag=frag)
    env = wsgi.environ('/b', 'POST', stream=st, cl=None if absent else cl)
    if rnd is not None:
        wsgi.aside(rnd, env, ctypes=wsgi.PLAIN)
    status, seen, r = app_for(buf, lim).run(env, script, copied=rnd is not None and rnd.random() < .2)
    o = dict(cl=0 if absent else cl, avail=len(data), buf=buf, lim=lim if lim is not None else -1,
             calls=st.calls, status=status, prefix=-1, mem='none', again=False)
    if seen:
        body, o['again'], o['mem'] = seen
        o['prefix'] = prefix_of(body, data)
    return o


def rand_script(rnd):
    out = []
    for _ in range(rnd.randrange(4)):
        out.append(rnd.choice([('body', rnd.randrange(9)), ('input',), ('copy',), ('tell',)]))
    return out


def check(chk):
    core.use_repo()
    m = chk.pick(5, 8)
    a = chk.pick(6, 9)
    g = chk.model('BodyReader', dict(init='GInit', next='GNext', invariants=['Inv', 'Emit']),
                  env=dict(MAXCL=m, MAXAVAIL=a))
    chk.model('BodyReader', dict(init='GInit', next='GNextAny', invariants=['Inv']),
              env=dict(MAXCL=chk.pick(4, 6), MAXAVAIL=chk.pick(4, 6)))
    items, meta = [], []
    for c in g.emitted:
        ks = c['ks'] or []
        data = filler(c['avail'], 1)
        o = observe(c['cl'], data, c['buf'], None if c['lim'] < 0 else c['lim'], ks=ks,
                    script=rand_script(chk.rnd), rnd=chk.rnd)
        items.append(o)
        meta.append(dict(model=c))
        # the behaviour the specification prescribes for this schedule
        if c['phase'] == 'done' and (o['status'] != 200 or o['prefix'] != c['prefix']):
            chk.violation('body differs from the specified behaviour', dict(case=c, seen=o))
    rnd = chk.rnd
    for k in range(chk.pick(1500, 12000)):
        big = k % 15 == 0
        avail = rnd.randrange(0, 250000) if big else rnd.choice([rnd.randrange(0, 40), rnd.randrange(0, 3000)])
        cl = rnd.choice([avail, avail, max(0, avail - rnd.randrange(1, 60)), avail + rnd.randrange(1, 60),
                         rnd.randrange(0, avail + 1)])
        buf = rnd.choice([1024, 4096, 65536, 102400, rnd.randrange(500, 20000)]) if big else \
            rnd.choice([1, 2, 3, 5, 7, 16, 64, 1000, 102400, max(1, cl - 1), max(1, cl), cl + 1])
        mode = rnd.randrange(5)
        frag = [None, lambda w: 1 if w < 2000 else w // 7, lambda w: rnd.randrange(1, w + 1),
                lambda w: max(1, w - 1), lambda w: min(w, 3 if w < 3000 else 1500)][mode]
        data = filler(avail, k)
        o = observe(cl, data, buf, None, frag=frag, script=rand_script(rnd), absent=(k % 40 == 7), rnd=rnd)
        items.append(o)
        meta.append(dict(random=k, mode=mode))
    # bodies of many megabytes, at the sizes where a counter or a cap could turn over
    whole = b''.join(b'%07d,' % k for k in range((1 << 24) // 8 + 4096))
    for k, (n, buf) in enumerate([((1 << 20) - 1, 102400), (1 << 20, 1 << 20), ((1 << 20) + 1, 65536),
                                  ((1 << 22) + 3, 1 << 20), ((1 << 24) + 9, 1 << 20), ((1 << 23) + 5, 1 << 25),
                                  ((1 << 21) + rnd.randrange(1 << 20), rnd.randrange(90000, 1 << 20))]):
        for more, frag in ((0, None), (77, lambda w: max(1, w * 3 // 4)), (-1000, None)):
            data = whole[:n + more]
            o = observe(n, data, buf, None, frag=frag, script=rand_script(rnd), rnd=rnd)
            items.append(o)
            meta.append(dict(huge=n, more=more))
    vs = chk.judge('BodyReader', items)
    chk.count(len(items))
    chk.extra['disk_bodies'] = sum(1 for o in items if o['mem'] == 'disk')
    chk.extra['short_reads'] = sum(1 for o in items for n, k in o['calls'] if 0 < k < n)
    chk.extra['largest_body'] = max(o['cl'] for o in items)
    for o in items[3:len(items):max(1, len(items) // 4)]:
        chk.sample(dict(o, calls=o['calls'][:20]))
    for o, mt, v in zip(items, meta, vs):
        if v['why'] and not (mt.get('model') and o['lim'] >= 0 and 'limit' in v['why'] or v['why'] == 'over-limit-not-413'):
            chk.violation('C04 ' + v['why'], dict(seen=dict(o, calls=o['calls'][:200]), source=mt))
    chk.assumptions += ['the server stream returns between 1 and n bytes for read(n) unless it is exhausted']
