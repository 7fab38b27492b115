from vf import core, wsgi
from checks.body_common import app_for, prefix_of


def observe(raw, buf, ks=None, frag=None, rnd=None):
    st = wsgi.Stream(raw, ks=ks, frag=frag)
    env = wsgi.environ('/b', 'POST', stream=st, chunked=True)
    if rnd is not None:
        wsgi.aside(rnd, env, ctypes=wsgi.PLAIN)
    status, seen, r = app_for(buf).run(env, copied=rnd is not None and rnd.random() < .2)
    return status, (seen[0] if seen else None), r


def check(chk):
    core.use_repo()
    rnd = chk.rnd
    items, meta = [], []

    def add(raw, buf, **kw):
        status, body, r = observe(raw, buf, rnd=rnd, **kw)
        items.append(dict(s=list(raw), buf=buf, status=status, body=list(body) if body is not None else []))
        meta.append(dict(raw=raw, buf=buf, status=status, body=body))
        return status, body

    # 1. every short string over the framing alphabet, behind several prefixes
    for buf in (8, 3):
        g = chk.model('Chunked', dict(init='GInit2', next='GNext2', invariants=['GEmit']),
                      env=dict(MAXLEN=chk.pick(4, 6) if buf == 8 else chk.pick(3, 5), BUF=buf, MAXCHUNKS=0),
                      workers=8)
        for c in g.emitted:
            raw, want, v = bytes(c['s'] or []), bytes(c['out'] or []), c['v']
            frag = None if rnd.random() < .6 else (lambda w: 1)
            status, body, _ = observe(raw, buf, frag=frag, rnd=rnd)
            chk.count()
            chk.bump('strings_' + v)
            client = 400 <= status < 500
            bad = (not client and status != 200) or (v == 'accept' and (client or body != want)) or \
                (v == 'reject' and not client) or (v == 'optional' and not client and body != want)
            if bad:
                chk.violation('C05 verdict %s' % v, dict(raw=raw, buf=buf, status=status, body=body, want=want))
    # 2. legal encodings of the grammar with every cut and every damaged terminator
    g = chk.model('Chunked', dict(init='LInit', next='LNext', invariants=['Oracle', 'LEmit']),
                  env=dict(MAXLEN=0, BUF=100, MAXCHUNKS=chk.pick(1, 2)), workers=8)
    emitted = g.emitted
    if not chk.thorough:
        g2 = chk.model('Chunked', dict(init='LInit', next='LNext', invariants=['LEmit']),
                       env=dict(MAXLEN=0, BUF=100, MAXCHUNKS=2), workers=8)
        emitted = emitted + rnd.sample(g2.emitted, 150)
    elif len(emitted) > 1500:
        emitted = rnd.sample(emitted, 1500)
    for c in emitted:
        raw, want = bytes(c['s']), bytes(c['out'] or [])
        for buf in (rnd.choice([40, 41, 64]), 1000):
            frag = rnd.choice([None, lambda w: 1, lambda w: rnd.randrange(1, w + 1)])
            status, body, _ = observe(raw, buf, frag=frag, rnd=rnd)
            chk.count()
            if status != 200 or body != want:
                chk.violation('C05 legal encoding not decoded exactly',
                              dict(raw=raw, buf=buf, status=status, body=body, want=want))
        for cut in range(c['zero']):
            status, body, _ = observe(raw[:cut], rnd.choice([7, 64, 1000]), rnd=rnd)
            chk.count()
            if not 400 <= status < 500:
                chk.violation('C05 truncation accepted', dict(raw=raw[:cut], status=status, body=body))
        for end in c['ends'] or []:
            for off in (1, 2):
                dam = raw[:end - off] + b'x' + raw[end - off + 1:]
                status, body, _ = observe(dam, 1000, rnd=rnd)
                chk.count()
                if not 400 <= status < 500:
                    chk.violation('C05 damaged chunk terminator accepted',
                                  dict(raw=dam, status=status, body=body))
    # 3. random encodings, mutations and fragmentations, judged by the automaton
    for k in range(chk.pick(3000, 30000)):
        raw, chunks, zero = rand_encoding(rnd)
        buf = rnd.choice([1, 2, 3, 4, 5, 8, 13, 16, 33, 100, 1000, 102400])
        kind = rnd.randrange(4)
        if kind == 1:
            raw = raw[:rnd.randrange(len(raw) + 1)]
        elif kind == 2 and raw:
            p = rnd.randrange(len(raw))
            raw = raw[:p] + bytes([rnd.choice(b'\r\n;01fFgx +-_\x00\xff\x85')]) + raw[p + rnd.randrange(2):]
        elif kind == 3 and raw:
            a = rnd.randrange(len(raw))
            b = min(len(raw), a + rnd.randrange(1, 5))
            raw = raw[:a] + raw[b:]
        add(raw, buf, frag=rnd.choice([None, lambda w: 1, lambda w: rnd.randrange(1, w + 1)]))
    # 4. large chunks: payload as runs
    for k in range(chk.pick(120, 700)):
        toks, raw, payload = [], bytearray(), bytearray()
        for _ in range(rnd.randrange(1, 5)):
            n = rnd.choice([rnd.randrange(1, 300), rnd.randrange(1000, 70000), 1 << rnd.randrange(4, 17)])
            if rnd.random() < .3:
                n = max(1, n - 1)
            line = (rnd.choice([b'%x', b'%X', b'0%x', b'00%X', b'%030x']) % n) + rnd.choice([b'', b';a=b', b' ; q="1"', b';e="' + b'z' * rnd.choice([40, 200, 900]) + b'"']) + b'\r\n'
            p = bytes(rnd.randrange(256) for _ in range(50)) * (n // 50 + 1)
            p = p[:n]
            toks += list(line) + [-n] + [13, 10]
            raw += line + p + b'\r\n'
            payload += p
        last = rnd.choice([b'0\r\n\r\n', b'0000;x\r\nA: b\r\n\r\n'])
        toks += list(last)
        raw += last
        if k % 4 == 3:          # cut inside the last data chunk or its terminator
            cut = rnd.randrange(1, len(last) + 1)
            drop = len(last) + 1 if k % 8 == 3 else len(last) + 2
            raw = raw[:len(raw) - drop]
            toks = toks[:len(toks) - drop]
        buf = rnd.choice([1000, 4096, 16384, 65536, 102400, n, n + 1, max(40, n - 1)])
        buf = max(buf, 1000)
        status, body, _ = observe(bytes(raw), buf, frag=rnd.choice(
            [None, lambda w: rnd.randrange(1, w + 1), lambda w: max(1, w // 3)]), rnd=rnd)
        items.append(dict(s=toks, buf=buf, status=status,
                          n=prefix_of(body, bytes(payload)) if body is not None else -1))
        meta.append(dict(large=k, buf=buf, status=status, sizes=len(payload)))
    # 5. thousands of chunks
    for k in range(chk.pick(8, 40)):
        cnt = [1023, 1024, 1025, 3000, 257, 5000, 2048, 1500][k % 8] + (0 if k < 8 else rnd.randrange(3000))
        same = rnd.choice([None, 1, 2])
        toks, raw, payload = [], bytearray(), bytearray()
        for j in range(cnt):
            n = same or rnd.choice([1, 2, 3, 7, 40])
            line = b'%x\r\n' % n if j % 9 else b'%x;e=%d\r\n' % (n, j)
            p = (b'%05d\r\n0;' % j * 5)[:n]
            toks += list(line) + [-n, 13, 10]
            raw += line + p + b'\r\n'
            payload += p
        if k % 4 != 3:
            toks += list(b'0\r\n\r\n')
            raw += b'0\r\n\r\n'
        buf = rnd.choice([64, 1000, len(payload), 102400])
        status, body, _ = observe(bytes(raw), buf, frag=rnd.choice([None, lambda w: rnd.randrange(1, w + 1)]), rnd=rnd)
        items.append(dict(s=toks, buf=buf, status=status,
                          n=prefix_of(body, bytes(payload)) if body is not None else -1))
        meta.append(dict(many=cnt, buf=buf, status=status, sizes=len(payload)))
    vs = chk.judge('Chunked', items)
    chk.count(len(items))
    for m, v in list(zip(meta, vs))[::max(1, len(meta) // 5)]:
        chk.sample(dict(m, verdict=v['v']))
    for m, v in zip(meta, vs):
        chk.bump('judged_' + v['v'])
        if v['why']:
            chk.violation('C05 ' + v['why'], m)


def rand_encoding(rnd):
    out = b''
    chunks = []
    for _ in range(rnd.randrange(4)):
        n = rnd.choice([1, 2, 3, 5, 10, 15, 16, 17, 31])
        p = bytes(rnd.choice(b'\r\n0;1a\x00\xffxyz') for _ in range(n))
        size = rnd.choice([b'%x', b'%X', b'0%x', b'000%X']) % n
        ext = rnd.choice([b'', b'', b';', b';a=b', b';n="q;r"', b' ;z', b'\t;t=1;u'])
        out += size + ext + b'\r\n' + p + b'\r\n'
        chunks.append(p)
    zero = len(out)
    out += rnd.choice([b'0', b'00', b'0;e=1']) + b'\r\n'
    out += rnd.choice([b'', b'', b'T: v\r\n', b'A:\r\nB: c\r\n']) + b'\r\n'
    if rnd.random() < .1:
        out += rnd.choice([b'x', b'GET / HTTP/1.1\r\n\r\n'])
    return out, chunks, zero
