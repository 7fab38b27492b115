from vf import core, wsgi
from checks import mp_common as mp


def rand_body(rnd):
    """A well-formed body (mostly), or a prefix / damaged one."""
    b = mp.boundary(rnd)
    fields = []
    for k in range(rnd.randrange(4)):
        fl = rnd.random() < .5
        fields.append(dict(name=b'n%d' % k, val=mp.lookalike(rnd, b, rnd.choice([0, 0, 1, 3, 10, 40, 90])), file=fl,
                           fn=b'f.bin', ct=b'a/b' if fl else b'', style=rnd.randrange(3)))
    raw = mp.encode(fields, b, rnd.choice([b'', b'\r\n', b'\r\nepilogue\r\n--' + b + b'\r\n', b' x']))
    if rnd.random() < .25:
        raw = rnd.choice([b'\r\n', b'\r\n', b'-', b'\rpre', b'--' + b[:-1] + b'!', b'x', b'\n']) + raw
    k = rnd.random()
    if k < .3:
        raw = raw[:rnd.randrange(len(raw) + 1)]
    elif k < .45 and raw:
        p = rnd.randrange(len(raw))
        raw = raw[:p] + rnd.choice([b'', b'\r', b'\n', b'-', b'z', b'\r\n']) + raw[p + rnd.randrange(2):]
    return b, raw


def check(chk):
    core.use_repo()
    rnd = chk.rnd
    E = dict(MAXLEN=chk.pick(5, 7), MAXTOK=chk.pick(3, 4), MAXF=1, MUTS=1)
    chk.model('Multipart', dict(spec='MSpec', invariants=['Refines'], properties=['Monotone']), env=E, workers=8,
              timeout=1500)
    g = chk.model('Multipart', dict(init='TInit', next='TNext', invariants=['TEmit']), env=E, workers=8)
    ndiv = 0
    items, meta = [], []

    def compare(bnd, raw, one, pieces):
        nonlocal ndiv
        ndiv += 1
        got = mp.feed(bnd, pieces)
        if got != one:
            chk.violation('C06 result depends on the division into reads',
                          dict(boundary=bnd, body=raw, pieces=pieces, one_piece=one, divided=got))
            return False
        return True

    # 1. every token body of the model: against the model, then every 1-cut, byte-wise, some 2-cuts
    bodies = g.emitted
    limit = chk.pick(4500, 40000)
    if len(bodies) > limit:
        bodies = rnd.sample(bodies, limit)
    for c in bodies:
        raw = bytes(c['s'] or [])
        one = mp.feed(b'b', [raw])
        want = [[x[0], [x[1], x[2]]] for x in (c['secs'] or [])]
        if one[0] != want or bool(one[1]) != bool(c['err']):
            chk.violation('C06 one-piece parse differs from the specification',
                          dict(body=raw, code=one, spec=(want, c['err'])))
            continue
        ok = compare(b'b', raw, one, [raw[k:k + 1] for k in range(len(raw))])
        for p in range(1, len(raw)):
            ok = ok and compare(b'b', raw, one, mp.cuts(raw, [p]))
        for _ in range(chk.pick(4, 10)):
            if ok and len(raw) > 2:
                ok = compare(b'b', raw, one, mp.cuts(raw, rnd.sample(range(1, len(raw)), 2)))
    # 2. larger bodies: prefixes, all single cuts, all regular cuts, random ones
    for k in range(chk.pick(500, 5000)):
        b, raw = rand_body(rnd)
        one = mp.feed(b, [raw])
        items.append(dict(kind='markup', s=list(raw), b=list(b), secs=[[n, s, e] for n, (s, e) in one[0]], err=one[1]))
        meta.append(dict(boundary=b, body=raw, code=one))
        ok = True
        for p in range(1, len(raw)):
            ok = ok and compare(b, raw, one, [raw[:p], raw[p:]])
        tl = len(b) + 4
        for step in sorted({1, 2, 3, 4, 5, 7, max(1, tl - 1), tl, tl + 1, 2 * tl - 1, 2 * tl}):
            for off in {0, 1, rnd.randrange(1, step + 1)}:
                ok = ok and compare(b, raw, one, mp.regular(raw, step, off))
        for _ in range(chk.pick(12, 25)):
            n = rnd.randrange(1, 8)
            ok = ok and compare(b, raw, one, mp.cuts(raw, [rnd.randrange(len(raw) + 1) for _ in range(n)]))
        # an empty read in between changes nothing
        p = rnd.randrange(len(raw) + 1)
        ok = ok and compare(b, raw, one, [raw[:p], b'', raw[p:]])
    # long header blocks, many parts, data around the usual buffer sizes
    for k in range(chk.pick(12, 80)):
        b = mp.boundary(rnd)
        size = rnd.choice([1000, 4096, 8192, 8192, 16384, 65536])
        style = k % 4
        if style == 0:
            head = b'Content-Disposition: form-data; name="n"\r\nX-Pad: ' + b'p' * (size + rnd.randrange(-80, 20))
            raw = b'--' + b + b'\r\n' + head + b'\r\n\r\nvalue\r\n--' + b + b'--\r\n'
        elif style == 1:
            head = b'\r\n'.join(b'X-%d: ' % j + b'q' * 50 for j in range(size // 56 + 1))
            raw = b'--' + b + b'\r\n' + head + b'\r\n\r\n\r\n--' + b + b'--'
        else:
            fields = [dict(name=b'n%d' % j, val=mp.lookalike(rnd, b, rnd.choice([0, 5, 60])) if style == 2 else b'd' * (size + rnd.randrange(-100, 10)), file=True,
                           fn=b'f.bin', ct=b'a/b', style=0) for j in range(rnd.choice([40, 150]) if style == 2 else 2)]
            raw = mp.encode(fields, b)
        one = mp.feed(b, [raw])
        n = dict(enumerate([1, 1, len(fields) if style > 1 else 0])).get(min(style, 2))
        if one[1] or len(one[0]) < n:
            chk.violation('C06 a well-formed body is an error', dict(boundary=b, body=raw[:400], size=len(raw), one_piece=one))
            continue
        if k % 3 == 0:
            raw = raw[:rnd.randrange(len(raw))]
            one = mp.feed(b, [raw])
        ok = compare(b, raw, one, [raw[j:j + 1] for j in range(len(raw))])
        for step in (7, 61, 512, 1000, 4096, 8191, 8192, 8193, 65536):
            ok = ok and compare(b, raw, one, mp.regular(raw, step, rnd.randrange(1, step + 1)))
        for _ in range(chk.pick(150, 400)):
            ok = ok and compare(b, raw, one, mp.cuts(raw, [rnd.randrange(len(raw) + 1) for _ in range(rnd.randrange(1, 4))]))
    # 3. through WSGI: buffer sizes, framings and fragmentations do not matter
    echo = {}
    nw = 0
    for k in range(chk.pick(250, 2500)):
        b = mp.boundary(rnd)
        fields = []
        for j in range(rnd.randrange(1, 4)):
            fl = rnd.random() < .5
            val = mp.lookalike(rnd, b, rnd.choice([0, 3, 20, 60])) if fl else rnd.choice([b'', b'v', b'-\r\n--', b'abc'])
            if not fl and b'\r\n--' + b in b'\r\n' + val + b'\r\n':
                val = b'v'
            fields.append(dict(name=b'n%d' % j, val=val, file=fl, fn=b'f.bin', ct=b'a/b' if fl else b'', style=0))
        raw = mp.encode(fields, b)
        ctype = 'multipart/form-data; boundary="%s"' % b.decode()
        base = None
        need = sum(len(f['val']) if not f['file'] else 0 for f in fields) + 200 * len(fields)
        for mem in (1 << 20, need, need + 1, need + 7):
            if mem not in echo:
                echo[mem] = mp.FormEcho(memfile=mem)
            for ch, frag in ((None, None), (None, lambda w: 1), (None, lambda w: rnd.randrange(1, w + 1)),
                             ([rnd.randrange(len(raw)) for _ in range(3)], None), (range(1, len(raw)), None)):
                status, seen, r = echo[mem].post(raw, ctype, chunked=ch, frag=frag)
                nw += 1
                if base is None:
                    base = (status, seen)
                    if status != 200:
                        chk.violation('C06 well-formed upload refused', dict(body=raw, ctype=ctype, status=status))
                        break
                elif (status, seen) != base:
                    chk.violation('C06 form depends on buffer size or framing',
                                  dict(body=raw, ctype=ctype, memfile=mem, base=base, got=(status, seen)))
                    break
    vs = chk.judge('Multipart', items, env=E)
    for o, m, v in zip(items, meta, vs):
        if v['why']:
            chk.violation('C06 ' + v['why'], m)
    chk.count(ndiv + nw + len(items))
    chk.extra.update(divisions=ndiv, wsgi_posts=nw, bodies=len(bodies) + len(items))
    for m in meta[:4]:
        chk.sample(m)
