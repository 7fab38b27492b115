"""Shared driver for the multipart properties (C06, C07, C12)."""
from vf import core, wsgi

CRLF = b'\r\n'


def feed(boundary, pieces):
    """Feed pieces to the code's markup parser; the observable result."""
    from ombott.request_pkg.multipart import MultipartMarkup
    m = MultipartMarkup(boundary)
    for p in pieces:
        m.parse(p)
    err = m.error
    return [[n, [int(s), int(e)]] for n, (s, e) in m.markups], ('' if err is None else type(err).__name__)


def cuts(body, points):
    pts = sorted(set(p for p in points if 0 < p < len(body)))
    return [body[a:b] for a, b in zip([0] + pts, pts + [len(body)])]


def regular(body, step, off=0):
    return cuts(body, range(off or step, len(body), step))


LOOK = [b'', b'\r', b'\n', b'\r\n', b'-', b'--', b'\r\n-', b'\r\n--', b'\r\n\r\n', b'\r\n\r', b'x', b'abc', b'\x00\xff',
        b'--\r\n', b'\r\r\n', b'\n\r\n', b'\r\n\r\n\r\n']


def lookalike(rnd, boundary, n):
    """Data full of beginnings of the delimiter, never the delimiter itself."""
    delim = CRLF + b'--' + boundary
    out = b''
    while len(out) < n:
        k = rnd.random()
        if k < .35:
            out += delim[:rnd.randrange(len(delim))]
        elif k < .5:
            out += delim[rnd.randrange(1, len(delim)):]
        elif k < .8:
            out += rnd.choice(LOOK)
        else:
            out += bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 9)))
    while delim in CRLF + out + CRLF:
        p = (CRLF + out + CRLF).find(delim)
        q = max(0, p - 2 + len(delim) - 1)
        out = out[:q] + b'#' + out[q + 1:]
    return out


BCHARS = b"0123456789abcXYZ'()+_,-./:=?"


def boundary(rnd):
    k = rnd.randrange(8)
    if k == 0:
        return rnd.choice([b'b', b'-', b'--', b'bb', b'--b--', b'0', b'a-a'])
    if k == 1:
        return b'-' * rnd.randrange(1, 30) + b'%d' % rnd.randrange(10 ** 9)
    return bytes(rnd.choice(BCHARS) for _ in range(rnd.choice([1, 2, 3, 5, 8, 13, 27, 40, 70])))


NOTE = b'X-Note: form-data; name="q"; filename="z"; x=y'
STYLES = 7


def encode(fields, bnd, tail=CRLF):
    """fields: dicts name,val,file,fn,ct,style with bytes (the specification re-encodes and compares)."""
    out = b''
    for f in fields:
        sty = f['style']
        low, sp, caps = sty == 1, b'' if sty == 4 else b' ', sty == 6
        cd = (b'content-disposition' if low else b'Content-Disposition') + b':' + sp + (b'FORM-DATA' if caps else b'form-data')
        ps = [(b'NAME' if caps else b'name') + b'="' + f['name'] + b'"']
        if f['file']:
            ps.append((b'FILENAME' if caps else b'filename') + b'="' + f['fn'] + b'"')
        if sty == 5:
            ps.reverse()
        hs = [cd + b''.join(b';' + sp + p for p in ps)]
        if f['ct']:
            hs.append((b'content-type' if low else b'Content-Type') + b':' + sp + f['ct'])
        if sty == 2:
            hs.reverse()
        if sty == 3:
            hs = [NOTE] + hs
        elif sty == 6:
            hs.append(NOTE)
        out += b'--' + bnd + CRLF + CRLF.join(hs) + b'\r\n\r\n' + f['val'] + CRLF
    return out + b'--' + bnd + b'--' + tail


def jfield(f):
    return dict(name=list(f['name']), val=list(f['val']), file=f['file'], fn=list(f['fn']), ct=list(f['ct']),
                style=f['style'])


class FormEcho:
    """Reads forms / files / POST (or something else) and keeps what the application saw."""

    def __init__(self, memfile=1 << 20, lim=None):
        ombott = core.use_repo()
        cfg = dict(max_memfile_size=memfile)
        if lim is not None:
            cfg['max_body_size'] = lim
        self.app = ombott.Ombott(cfg)
        self.app.route('/f', 'ANY', self.handler)
        self.seen = None
        self.order = ('forms', 'files', 'POST')

    def view(self, dct):
        out = []
        for k, v in dct.items():
            vs = v if isinstance(v, list) else [v]
            row = []
            for x in vs:
                if isinstance(x, str):
                    row.append(dict(file=False, val=x.encode('utf8', 'surrogateescape')))
                elif hasattr(x, 'file'):
                    x.file.seek(0)
                    data = x.file.read()
                    ct = x.content_type
                    row.append(dict(file=True, val=data, fn=x.raw_filename.encode('utf8', 'surrogateescape'),
                                    ct=ct.encode('utf8') if isinstance(ct, str) else repr(ct).encode()))
                else:
                    row.append(dict(file=False, val=b'?' + repr(x).encode()))
            out.append([k.encode('utf8', 'surrogateescape'), row])
        return out

    def handler(self):
        rq = self.app.request
        got = {}
        for what in self.order:
            got[what] = self.view(getattr(rq, what))
        self.seen = got
        return 'ok'

    def post(self, raw, ctype, chunked=None, frag=None, order=None, method='POST', limit=20, rnd=None):
        self.order = order or ('forms', 'files', 'POST')
        self.seen = None
        data = raw if not chunked else wsgi.encode_chunked(cuts(raw, chunked))
        st = wsgi.Stream(data, frag=frag)
        env = wsgi.environ('/f', method, stream=st, cl=None if chunked else len(raw), chunked=bool(chunked),
                           ctype=ctype)
        if rnd is not None:
            wsgi.aside(rnd, env)
        r = wsgi.call(self.app, env, limit=limit)
        return (599 if r.exc is not None else r.code), self.seen, r


def jview(v):
    return [[list(k), [{a: (b if isinstance(b, bool) else list(b)) for a, b in x.items()} for x in row]]
            for k, row in v]
