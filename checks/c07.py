"""C07: multipart forms and uploads round-trip.  The specification encodes a list of fields, says which
sections the encoding has (RoundTrip) and what the application must see; the code is posted the encoding."""
import io
import os
import random
import shutil
import string
import tempfile

from vf import core, wsgi
from checks import mp_common as mp

TEXTY = ['a', 'b', 'name', 'x y', ' lead', 'trail ', 'a;b', 'a; name=c', 'a=b', ';', '=', 'filename', '; filename=x', 'a\\b',
         'C:\\dir\\f.txt', 'żółć', '文件', 'a,b', "it's", '&amp', '%22', '<b>', 'É', '\U0001f600', 'name*', 'a:b', '\t', '\x85', '\u2028',
         'Content-Type', '--', '-', '..', '/', '../x', '#', '\x1c', '\xa0', 'boundary=z', 'ab' * 30]
CTS = ['a/b', 'text/plain', 'text/plain; charset=utf-8', 'application/octet-stream', 'image/png', 'text/x;a="b c"', 'A/B']


def rand_text(rnd, empty=True):
    k = rnd.random()
    if empty and k < .1:
        return ''
    if k < .65:
        return rnd.choice(TEXTY)
    if k < .8:
        return rnd.choice(TEXTY) + rnd.choice(TEXTY)
    out = []
    for _ in range(rnd.randrange(1, 8)):
        c = rnd.choice([rnd.randrange(32, 127), rnd.randrange(128, 0x800), rnd.randrange(0x800, 0xd800),
                        rnd.choice([59, 61, 92, 32, 58, 44, 9])])
        if c not in (34, 10, 13):
            out.append(chr(c))
    return ''.join(out) or 'q'


def edge(rnd):
    """A text value with something a tidy-up could take away at its ends."""
    e = ['\0', ' ', '\t', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', '\ufeff', '\r', '\n', '\r\n', '-', '"', "'", '\x1a', '\x7f', '\0\0', '+', '%20', '&#48;', ';', '\\']
    return rnd.choice([*e, '']) + rnd.choice(['', '', 'v', rand_text(rnd), 'e\u0301', '\u00e9']) + rnd.choice([*e, ''])


#: a part without a filename is text, whatever its type
TEXT_CTS = [b'text/plain', b'text/plain; charset=UTF-8', b'application/octet-stream', b'application/json', b'text/html', b'image/png']


def rand_fields(rnd, bnd, n, maxval=60):
    pool = [rand_text(rnd) for _ in range(max(1, n - 1))]
    out = []
    for _ in range(n):
        fl = rnd.random() < .5
        if fl:
            val = mp.lookalike(rnd, bnd, rnd.choice([0, 1, 3, 9, maxval]))
        else:
            val = rnd.choice([edge(rnd), edge(rnd), '', 'v', rand_text(rnd), 'two\r\nlines', 'a"b', '\r\n', '--', '\r', '-', '\r\n--', 'x\n', '\r\n\r\n',
                              'Content-Disposition: form-data; name="z"']).encode()
            if b'\r\n--' + bnd in b'\r\n' + val + b'\r\n':
                val = b'v'
        out.append(dict(name=rnd.choice(pool).encode(), val=val, file=fl, fn=rand_text(rnd).encode() if fl else b'',
                        ct=rnd.choice(CTS + ['']).encode() if fl else (rnd.choice(TEXT_CTS) if rnd.random() < .25 else b''),
                        style=rnd.randrange(mp.STYLES)))
    return out


def ctype_of(rnd, bnd):
    b = bnd.decode()
    plain = not set(b) & set('()<>@,;:\\"/[]?= ')
    forms = ['multipart/form-data; boundary="%s"' % b, 'Multipart/Form-Data; Boundary="%s"' % b,
             'multipart/form-data; charset=utf-8; boundary="%s"' % b, 'multipart/form-data;boundary="%s"' % b,
             'multipart/form-data; boundary="%s"; charset=utf-8' % b]
    if plain:
        forms += ['multipart/form-data; boundary=' + b] * 4 + ['multipart/form-data;boundary=%s;x=y' % b]
    return rnd.choice(forms)


PIECE, ANY = -1, -2


class Readers:
    """Posts a form with uploads and plays operations of PartFile.tla on them inside the handler."""

    def __init__(self, ombott, root, memfile):
        self.app = ombott.Ombott(dict(max_memfile_size=memfile))
        self.root = root
        self.app.route('/r', 'POST', self.handler)

    def save(self, up, size, n):
        how = n % 4
        if how == 0:
            buf = io.BytesIO()
            up.save(buf, chunk_size=max(size, 1))
            return buf.getvalue()
        dst = os.path.join(self.root, 'out')
        if how == 1:
            up.save(dst)
        elif how == 2:
            with open(dst, 'wb') as f:
                f.write(b'something longer that was here before' * 20)
            try:
                up.save(dst)
                return b'an existing file was overwritten'
            except IOError:
                up.save(dst, overwrite=True, chunk_size=max(size, 1))
        else:
            up.save(self.root)
            dst = os.path.join(self.root, up.filename)
        with open(dst, 'rb') as f:
            data = f.read()
        os.unlink(dst)
        return data

    def step(self, up, o, n, rq):
        f, op = up.file, o['op']
        if op == 'read':
            return f.read() if o['a'] < 0 and n % 2 else f.read(o['a'])
        if op in ('seek', 'wild'):
            f.seek(o['a']) if o['b'] == 0 and n % 2 else f.seek(o['a'], o['b'])
            return [f.tell()]
        if op == 'tell':
            return [f.tell()]
        if op == 'close':
            f.close()
            return []
        if op == 'save':
            return self.save(up, o['a'], n + self.salt)
        if op == 'saveall':
            f.seek(0)
            return self.save(up, o['a'], n + self.salt)
        return [] if rq.body.read(n % 5 if n % 2 else -1)[:9] == self.raw[:n % 5 if n % 2 else 9][:9] else ['another body']

    @staticmethod
    def agree(ops, vals, got, want):
        """Answer by answer: the specified bytes, any piece of the file's own (or an exception), anything."""
        for o, g, w in zip(ops, got, want):
            if w == [ANY]:
                continue
            if w == [PIECE]:
                if not isinstance(g, str) and bytes(g) not in vals[o['f'] - 1]:
                    return False
            elif g != w:
                return False
        return len(got) == len(want)

    def handler(self):
        rq = self.app.request
        ups = [rq.files['f%d' % k] for k in range(len(self.vals))]
        self.out = []
        for n, o in enumerate(self.ops):
            try:
                r = list(self.step(ups[o['f'] - 1], o, n, rq))
            except Exception as e:
                r = repr(e)
            self.out.append(r)
        return 'ok'

    def play(self, vals, ops, bnd, salt):
        fields = []
        for k, v in enumerate(vals):
            fields.append(dict(name=b't', val=b'text %d' % k, file=False, fn=b'', ct=b'', style=0))
            fields.append(dict(name=b'f%d' % k, val=v, file=True, fn=b'up%d.bin' % k, ct=b'a/b', style=k % mp.STYLES))
        self.raw = mp.encode(fields, bnd)
        self.vals, self.ops, self.salt, self.out = vals, ops, salt, []
        r = wsgi.call(self.app, wsgi.environ('/r', 'POST', body=self.raw, ctype='multipart/form-data; boundary="%s"' % bnd.decode()))
        return r


def readers(chk, rnd):
    ombott = core.use_repo()
    E = dict(DEPTH=chk.pick(3, 4), MAXLEN=1, MAXTOK=1, MAXF=1, MUTS=1)
    g = chk.model('PartFile', dict(init='Init', next='Next', invariants=['Own', 'Within', 'Emit']), env=E, workers=8, timeout=1500, heap='6g')
    cases = [([bytes([1, 2]), bytes([3, 4, 5])], c['ops'], c['res']) for c in g.emitted]
    cases = rnd.sample(cases, min(len(cases), chk.pick(5000, 60000)))
    rand = []
    for _ in range(chk.pick(1500, 15000)):
        vals = [mp.lookalike(rnd, b'bb', rnd.choice([0, 1, 5, 30, 200])) for _ in range(rnd.randint(1, 3))]
        ops = []
        for _ in range(rnd.randint(1, 12)):
            f = rnd.randint(1, len(vals))
            op = rnd.choice(['read', 'read', 'read', 'seek', 'seek', 'tell', 'save', 'saveall', 'body', 'wild', 'wild', 'close'])
            a = rnd.choice([-1, -1, 0, 1, 2, 3, 7, 40, 1000])
            b = rnd.choice([0, 0, 1, 2]) if op == 'seek' else 0
            if op == 'seek':
                a = rnd.randint(0, len(vals[f - 1])) * (-1 if b == 2 else 1) if b != 1 else rnd.randint(-3, 3)
            if op == 'wild':
                a, b = rnd.choice([(-1, 0), (-5, 0), (-1000, 0), (10 ** 6, 0), (-1000, 1), (10 ** 6, 1), (-1000, 2), (1, 2), (500, 2)])
            ops.append(dict(op=op, f=f, a=a, b=b))
        rand.append((vals, ops))
    for (vals, ops), v in zip(rand, chk.judge('PartFile', [dict(v=[list(x) for x in vals], ops=ops) for vals, ops in rand], env=E)):
        res = v['r'] or []
        cases.append((vals, ops[:len(res)], res))
    root = tempfile.mkdtemp(prefix='vf-c07-')
    try:
        rigs = [Readers(ombott, root, 1 << 20), Readers(ombott, root, 700)]
        for n, (vals, ops, res) in enumerate(cases):
            rig = rigs[n % 2]
            bnd = b'bb' if n % 3 else mp.boundary(rnd)
            if any(b'\r\n--' + bnd in b'\r\n' + v + b'\r\n' for v in vals):
                bnd = b'bb'
            r = rig.play(vals, ops, bnd, n)
            want = [list(x or []) for x in res]
            if r.code != 200 or not rig.agree(ops, vals, rig.out, want):
                chk.violation('C07 an upload is not a file over exactly its own bytes', dict(values=vals, ops=ops, got=rig.out, want=want, status=r.status, errors=r.errors[-300:]))
                if len(chk.violations) > 60:
                    break
        filenames(chk, ombott, rnd, root)
    finally:
        shutil.rmtree(root)
    chk.count(len(cases))
    chk.extra['sequences of file operations'] = len(cases)


def filenames(chk, ombott, rnd, root):
    """The name to save an upload under: plain characters only, whatever the client sent; always inside the directory."""
    good = set(string.ascii_letters + string.digits + '-_.')
    rig = Readers(ombott, root, 1 << 20)
    names = ['', '.', '..', '...', '-', '/', '../../etc/passwd', 'a/b', 'a\\b', 'C:\\x.txt', '\x00', 'a\x00b', 'x' * 400 + '.txt', '\u017c\xf3\u0142w', '\u6587', 'a  b', ' a ', '.a', 'a.', '-.a.-', 'a--b', '/..', '..\\..\\x', 'a/', '~', '$x', 'a\tb']
    names += [rand_text(rnd) for _ in range(chk.pick(200, 3000))]
    for nm in names:
        got = []

        def handler():
            u = rig.app.request.files['f']
            got.append((u.raw_filename, u.filename))
            return 'ok'
        rig.app.route('/n', 'POST', handler, overwrite=True)
        raw = mp.encode([dict(name=b'f', val=b'x', file=True, fn=nm.encode(), ct=b'a/b', style=0)], b'bb')
        wsgi.call(rig.app, wsgi.environ('/n', 'POST', body=raw, ctype='multipart/form-data; boundary=bb'))
        fn = got[0][1] if got else None
        if not got or got[0][0] != nm or not isinstance(fn, str) or not fn or len(fn) > 255 or set(fn) - good or fn[0] in '.-' or len(fn) < 255 and fn[-1] in '.-':
            chk.violation('C07 the name of an upload', dict(sent=nm, got=got))
    chk.count(len(names))


def check(chk):
    core.use_repo()
    rnd = chk.rnd
    E = dict(MAXLEN=1, MAXTOK=1, MAXF=chk.pick(2, 2), MUTS=1)
    g = chk.model('Multipart', dict(init='EInit', next='ENext', invariants=['RoundTrip', 'EEmit']), env=E, workers=8,
                  timeout=1500)
    items, meta = [], []
    apps = {}

    def post(fields, bnd, tail, raw, mem, ctype, chunked, frag, order, method, judge=True):
        if mem not in apps:
            apps[mem] = mp.FormEcho(memfile=mem)
        status, seen, r = apps[mem].post(raw, ctype, chunked=chunked, frag=frag, order=order, method=method, rnd=rnd)
        view = {k: mp.jview(v) for k, v in (seen or {}).items()}
        o = dict(kind='form', b=list(bnd), tail=list(tail), s=list(raw), status=status,
                 fields=[mp.jfield(f) for f in fields], forms=view.get('forms', []), files=view.get('files', []),
                 post=view.get('POST', []))
        items.append(o)
        meta.append(dict(fields=fields, boundary=bnd, ctype=ctype, memfile=mem, chunked=bool(chunked), method=method,
                         order=order, status=status, seen=seen))
        return status, seen

    orders = [('forms', 'files', 'POST'), ('POST', 'forms', 'files'), ('files', 'forms', 'POST')]
    # 1. every field list of the model
    cases = g.emitted
    lim = chk.pick(700, 3200)
    if len(cases) > lim:
        cases = rnd.sample(cases, lim)
    for c in cases:
        fs = [dict(name=bytes(f['name'] or []), val=bytes(f['val'] or []), file=f['file'], fn=bytes(f['fn'] or []) if f['file'] else b'',
                   ct=bytes(f['ct'] or []), style=f['style']) for f in c['fields']]
        for f, o in zip(fs, c['fields']):
            f['fn'] = bytes(o['fn'] or [])
        raw = bytes(c['s'])
        post(fs, b'b', b'\r\n', raw, 1 << 20, 'multipart/form-data; boundary=b', None, None, orders[0], 'POST')
    # 2. random field lists
    for k in range(chk.pick(1200, 12000)):
        bnd = mp.boundary(rnd)
        fs = rand_fields(rnd, bnd, rnd.choice([0, 1, 1, 2, 3, 5]))
        tail = rnd.choice([b'', b'\r\n', b'\r\n', b'\r\nepilogue --' + bnd])
        raw = mp.encode(fs, bnd, tail)
        heads = len(raw)
        # an in-memory threshold below the body size but above the text the parser may load
        mem = rnd.choice([1 << 20, 1 << 16, max(heads - rnd.randrange(1, 3), 40)])
        need = 0
        for f in fs:
            need += len(mp.encode([f], b'', b'')) - 8 - (len(f['val']) if f['file'] else 0)
        mem = max(mem, need + 8)
        chunked = None if rnd.random() < .5 else [rnd.randrange(len(raw) + 1) for _ in range(rnd.randrange(0, 5))] + [1]
        frag = rnd.choice([None, None, lambda w: 1, lambda w: rnd.randrange(1, w + 1)])
        post(fs, bnd, tail, raw, mem, ctype_of(rnd, bnd), chunked, frag, rnd.choice(orders),
             rnd.choice(['POST', 'POST', 'PUT']))
    # 3. big uploads: content compared here, everything else by the specification with the content abbreviated
    for k in range(chk.pick(12, 60)):
        bnd = mp.boundary(rnd)
        size = rnd.choice([65536 * 2 + 3, 102400 + rnd.randrange(-3, 4), 300000, (1 << 20) + rnd.randrange(-2, 3)]) if k % 12 else (5 << 19) + k
        block = mp.lookalike(rnd, bnd, 700)
        big = (block * (size // len(block) + 1))[:size]
        while b'\r\n--' + bnd in b'\r\n' + big + b'\r\n':
            big = big.replace(b'\r\n--' + bnd, b'\r\n--' + b'#' * len(bnd))
            if big.startswith(b'--' + bnd):
                big = b'##' + big[2:]
            if (big + b'\r\n').endswith(b'\r\n--' + bnd):
                big = big[:-1] + b'#'
        fs = rand_fields(rnd, bnd, 2)
        pos = rnd.randrange(3)
        fb = dict(name=b'big', val=big, file=True, fn=b'big.bin', ct=b'a/b', style=0)
        fs.insert(pos, fb)
        raw = mp.encode(fs, bnd)
        status, seen = post(fs, bnd, b'\r\n', raw, rnd.choice([4096, 8192, 102400, 1 << 20]), ctype_of(rnd, bnd),
                            None if rnd.random() < .5 else range(4000, len(raw), 60000),
                            rnd.choice([None, lambda w: rnd.randrange(1, w + 1)]), orders[0], 'POST')
        o = items[-1]
        meta[-1] = dict(meta[-1], fields='(big)', seen='(big)', size=size)
        del o['s']
        mark = [1, 2, 3]
        o['fields'][pos]['val'] = mark
        for part in ('files', 'post'):
            for name, row in o[part]:
                for x in row:
                    if len(x['val']) > 60000:
                        x['val'] = mark if bytes(x['val']) == big else [0]
    # 3b. hundreds of fields, names of thousands of characters
    for k in range(chk.pick(8, 40)):
        bnd = mp.boundary(rnd)
        if k % 2:
            fs = rand_fields(rnd, bnd, [255, 256, 257, 600][k // 2 % 4], maxval=5)
        else:
            fs = rand_fields(rnd, bnd, 3)
            f = rnd.choice(fs)
            f['name'] = b'n' * rnd.choice([1000, 4000, 4096, 9000]) + f['name']
            f['val'] = b'' if f['file'] else b'v' * rnd.choice([10, 5000])
            fs.append(dict(name=b'w', val=b'x', file=True, fn=('ż%d' % k * rnd.choice([300, 2000])).encode(), ct=b'a/b', style=0))
        raw = mp.encode(fs, bnd)
        post(fs, bnd, b'\r\n', raw, 1 << 20, ctype_of(rnd, bnd), None if rnd.random() < .5 else range(1000, len(raw), 3000),
             rnd.choice([None, lambda w: rnd.randrange(1, w + 1)]), rnd.choice(orders), 'POST')
        del items[-1]['s']
    # several requests through the same application and reading twice give the same (no state between posts)
    vs = chk.judge('Multipart', items, env=E)
    for o, m, v in zip(items, meta, vs):
        if v['why']:
            if v['why'].startswith('machinery'):
                raise core.tlc.MachineryError('%s %r' % (v['why'], m))
            chk.violation('C07 ' + v['why'], m)
    # 4. uploads as files over exactly their own bytes
    readers(chk, rnd)
    chk.count(len(items))
    for m in meta[-3:] + meta[:3]:
        chk.sample(m)
