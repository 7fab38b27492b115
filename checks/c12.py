"""C12: malformed bodies are client errors.  Bodies come from the damage model of Multipart.tla (token edits of a
well-formed form, exhaustively to a depth) and from random mutations; the specification decides the outcome."""
import json

from vf import core, wsgi
from checks import mp_common as mp
from checks.c07 import rand_fields

READS = [('forms',), ('files',), ('POST',), ('json',), ('params',), ('body',), ('forms', 'files', 'POST', 'body'),
         ('body', 'forms'), ('json', 'forms'), ('files', 'json', 'body', 'params'), ('params', 'POST')]
JSONS = [b'', b'{', b'}', b'[]', b'[1, 2]', b'"s"', b'12', b'null', b'true', b'NaN', b'{"a": 1}', b'{"a": {"b": [1]}}', b'\xff\xfe',
         b'{"a": "\xff"}', b'\xef\xbb\xbf{}', b'{"a":1}{"b":2}', b'[' * 3000, b'[' * 90000, b'{"a":' * 30000, b'[' * 40000 + b']' * 40000, b'{"a":' * 3000, b'1e999', b'\x00', b'{"a"', b"{'a': 1}",
         b'-', b'"\\ud800"', b'{"\\ud800": 1}', b'\xff\xfe{\x00}\x00', b'9' * 5000, b'{"": ""}', b'"\\u12"', b'tru',
         b'{"a": null, "a": 2}', b' ' * 50, b'\r\n', b'{"a": 1', b'[[[]]', b'0x10', b'\xf0\x28\x8c\x28']
URLS = [b'', b'a=b', b'a', b'=', b'&', b'&&==&', b'%', b'a=%', b'%zz=%zz', b'a=%ff', b'%ff=%ff', b'\xff', b'a=\xc3', b'a=%c3%28', b';',
        b'a=b;c=d', b'a=b&a=c&a=d', b'+', b'a=+', b'%00=%00', b'a==b', b'&a=b&', b'%u1234', b'a=%C3%A9', b'\x00', b'a=b\r\nc=d', b'%2']
BASETYPES = ['application/json', 'application/json; charset=utf-8', 'application/x-www-form-urlencoded', 'text/plain', '', None,
             'application/json-patch+json', 'APPLICATION/JSON', 'multipart/form-data', 'multipart/form-data; boundary=',
             'multipart/form-data; boundary=""', 'multipart/form-data; boundary="', 'multipart/mixed; boundary=b',
             'multipart/form-data; boundary=\xff', 'multipart/form-data; boundary="b\r"', 'multipart/; boundary=b', ';', 'application/json;',
             'multipart/form-data; boundary= b', 'multipart/form-data boundary=b', 'multipart/form-data; boundary=b; boundary=c',
             'multipart/form-data; boundary=\u20ac']


def check(chk):
    ombott = core.use_repo()
    rnd = chk.rnd
    E = dict(MAXLEN=1, MAXTOK=1, MAXF=1, MUTS=chk.pick(1, 2))
    g = chk.model('Multipart', dict(init='DInit', next='DNext', invariants=['DEmit']), env=E, workers=8, timeout=1500)
    items, meta = [], []
    apps = {}

    class Echo:
        def __init__(self, mem, lim):
            cfg = dict(max_memfile_size=mem)
            if lim:
                cfg['max_body_size'] = lim
            self.app = ombott.Ombott(cfg)
            self.app.route('/f', 'ANY', self.h)

        def h(self):
            rq = self.app.request
            for what in self.reads:
                got = getattr(rq, what)
                if what in ('forms', 'files', 'POST', 'params'):
                    for k, v in list(got.items()):
                        for x in (v if isinstance(v, list) else [v]):
                            if hasattr(x, 'file'):
                                x.file.seek(0)
                                self.vals.append(x.file.read())
                            elif isinstance(x, str):
                                self.vals.append(x.encode('utf8', 'surrogatepass'))
                elif what == 'body':
                    self.body = got.read()
            return 'ok'

    def post(raw, ctype, reads, bnd=None, mem=1 << 20, lim=None, chunked=None, frag=None, method='POST', kind='multipart'):
        key = (mem, lim)
        if key not in apps:
            apps[key] = Echo(mem, lim)
        e = apps[key]
        e.reads, e.vals, e.body = reads, [], None
        if chunked is not None:
            data = wsgi.encode_chunked(mp.cuts(raw, chunked))
        else:
            data = raw
        env = wsgi.environ('/f', method, stream=wsgi.Stream(data, frag=frag), cl=None if chunked is not None else len(raw),
                           chunked=chunked is not None, ctype=ctype)
        wsgi.aside(rnd, env)
        r = wsgi.call(e.app, env, limit=20)
        status = 599 if r.exc is not None else r.code
        mpart = bnd is not None and not set(reads) & {'json'}
        items.append(dict(kind='junk', s=list(raw) if bnd is not None else [], b=list(bnd or b'b'), status=status,
                          trace=bool(r.errors), mp=bnd is not None, vals=[list(v) for v in e.vals] if bnd is not None else []))
        meta.append(dict(kind=kind, body=raw, ctype=ctype, reads=reads, memfile=mem, chunked=chunked is not None, status=r.status,
                         escaped=repr(r.exc) if r.exc else None, errors=r.errors[-600:], vals=e.vals))
        if status == 200 and e.body is not None and e.body != raw:
            chk.violation('C12 raw body altered', meta[-1])
        return status

    def framing():
        return (None if rnd.random() < .5 else [1, 7]), rnd.choice([None, None, lambda w: 1, lambda w: rnd.randrange(1, w + 1)])

    # 1. the damage model, with every read order in turn
    cases = g.emitted
    lim = chk.pick(3000, 14000)
    if len(cases) > lim:
        cases = rnd.sample(cases, lim)
    ok = bad = 0
    for k, c in enumerate(cases):
        raw = bytes(c['s'] or [])
        for reads in (READS[6], READS[k % len(READS)]):
            ch, frag = framing()
            s = post(raw, 'multipart/form-data; boundary=b', reads, bnd=b'b', chunked=ch, frag=frag)
            ok += s == 200
            bad += s != 200
    # 2. random forms: truncated at every offset, bytes replaced / deleted / inserted / duplicated
    for k in range(chk.pick(60, 900)):
        bnd = mp.boundary(rnd)
        fs = rand_fields(rnd, bnd, rnd.randrange(1, 4), maxval=20)
        raw = mp.encode(fs, bnd)
        ct = 'multipart/form-data; boundary="%s"' % bnd.decode()
        muts = [raw[:p] for p in (range(len(raw)) if k < chk.pick(8, 60) else rnd.sample(range(len(raw)), 8))]
        for _ in range(25):
            p = rnd.randrange(len(raw))
            q = min(len(raw), p + rnd.choice([1, 1, 2, 4, 20]))
            muts.append(raw[:p] + rnd.choice([b'', bytes([rnd.randrange(256)]), b'\r\n', b'\xff', b'--' + bnd, b'\r\n--' + bnd, b':', b';',
                                              b'"', b'\x00', b'q' * 150, b'\r\n' + b'q' * rnd.choice([90, 300, 1200]) + b'\r\n', raw[p:q] * 2, b'\xc3']) + raw[q:])
        for m in muts:
            ch, frag = framing()
            post(m, ct, rnd.choice(READS[:3] + READS[6:8]), bnd=bnd, chunked=ch, frag=frag,
                 mem=rnd.choice([1 << 20, 64, 200, len(m) + 1]), lim=rnd.choice([None, None, None, max(len(m) - 1, 1)]))
    # 3. JSON, urlencoded and raw bodies with any content type, unusual content types
    blobs = JSONS + URLS + [bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 40))) for _ in range(chk.pick(40, 400))]
    blobs += [b'--b\r\nContent-Disposition: form-data; name="a"\r\n\r\nv\r\n--b--\r\n']
    for blob in blobs:
        for ct in BASETYPES:
            for reads in (rnd.choice(READS), rnd.choice(READS)) if not chk.thorough else READS:
                ch, frag = framing()
                post(blob, ct, reads, mem=rnd.choice([1 << 20, 1 << 20, 16, 64]), chunked=ch, frag=frag,
                     method=rnd.choice(['POST', 'PUT']), kind='other')
    for _ in range(chk.pick(300, 5000)):       # JSON mutations
        doc = json.dumps({'a': [1, 2.5, None, 'x\u20ac'], 'b': {'c': True}}, ensure_ascii=rnd.random() < .5).encode()
        p = rnd.randrange(len(doc))
        doc = doc[:p] + rnd.choice([b'', b'\xff', b'}', b'{', b'"', b'\\', bytes([rnd.randrange(256)])]) + doc[p + rnd.randrange(3):]
        ch, frag = framing()
        post(doc, 'application/json', rnd.choice(READS), chunked=ch, frag=frag, kind='other')
    vs = chk.judge('Multipart', items, env=E)
    for o, m, v in zip(items, meta, vs):
        if v['why']:
            chk.violation('C12 ' + v['why'], m)
    chk.count(len(items))
    chk.extra.update(model_bodies_ok=ok, model_bodies_refused=bad)
    for m in meta[:2] + meta[-3:]:
        chk.sample(m)
