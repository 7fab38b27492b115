import json
import tracemalloc

from vf import core, wsgi, tlc
from checks.body_common import app_for, filler, prefix_of


def observe(chunks, framed, lim, buf, frag=None, ctype=None, payload=None, peak=False, rnd=None):
    n = sum(c[1] for c in chunks)
    payload = filler(n, 5) if payload is None else payload
    hl = []
    if framed:
        raw, p = bytearray(), 0
        for h, k in chunks:
            line = b'%x' % k
            line = line + b';' + b'e' * (h - len(line) - 3) if h > len(line) + 2 else line
            raw += line + b'\r\n' + payload[p:p + k] + b'\r\n'
            hl.append([len(line) + 2, k])
            p += k
        raw += b'0\r\n\r\n'
        raw = bytes(raw)
    else:
        raw, hl = payload, [[0, n]] if n else []
    st = wsgi.Stream(raw, frag=frag)
    env = wsgi.environ('/b', 'POST', stream=st, cl=None if framed else n, chunked=framed, ctype=ctype)
    if rnd is not None:
        wsgi.aside(rnd, env)
    box = app_for(buf, lim)
    if peak:
        tracemalloc.start()
        tracemalloc.reset_peak()
        base = tracemalloc.get_traced_memory()[0]
        old = box.handler
        pk = [0]
        try:
            rq = box.app.request

            def before():
                try:
                    rq.body
                finally:
                    pk[0] = tracemalloc.get_traced_memory()[1] - base
            box.app.add_hook('before_request', before)
            status, seen, r = box.run(env)
        finally:
            box.app.remove_hook('before_request', before)
            tracemalloc.stop()
    else:
        pk = [0]
        status, seen, r = box.run(env, copied=rnd is not None and rnd.random() < .3)
    body = seen[0] if seen else None
    return dict(kind='body', chunks=hl, framed=framed, lim=-1 if lim is None else lim, buf=buf, calls=st.calls,
                status=status, prefix=prefix_of(body, payload) if body is not None else -1,
                mem=seen[2] if seen else 'none', peak=pk[0])


class Endless:
    """A stream of `head` and then `cycle` over and over; it stops when far more than the specification allows was taken."""

    def __init__(self, head, cycle, cap):
        self.head, self.cycle, self.cap, self.pos = head, cycle, cap, 0

    def read(self, n=-1):
        if self.pos > self.cap:
            return b''
        if n is None or n < 0:
            n = self.cap
        start = self.pos
        need = start + n
        data = self.head + self.cycle * (max(0, need - len(self.head)) // len(self.cycle) + 1) if start < len(self.head) else None
        if data is None:
            k = (start - len(self.head)) % len(self.cycle)
            data = (self.cycle * (n // len(self.cycle) + 2))[k:k + n]
        else:
            data = data[start:need]
        self.pos += len(data)
        return data

    def readline(self, n=-1):
        out = b''
        while not out.endswith(b'\n') and len(out) != n:
            c = self.read(1)
            if not c:
                break
            out += c
        return out


def endless(rnd, head, cycle, framed, lim, buf, ctype):
    cap = 12 * ((lim or 0) + buf) + 70 * buf + 200000
    st = Endless(head, cycle, cap)
    env = wsgi.environ('/b', 'POST', stream=st, cl=None if framed else cap * 2, chunked=framed, ctype=ctype)
    status, seen, r = app_for(buf, lim).run(env)
    return dict(kind='endless', head=head[:40].decode('latin1'), cycle=cycle[:40].decode('latin1'), lim=-1 if lim is None else lim, buf=buf, read=st.pos, status=status)


class FormApp:
    def __init__(self, thr, lim):
        ombott = core.use_repo()
        cfg = dict(max_memfile_size=thr)
        if lim is not None:
            cfg['max_body_size'] = lim
        self.app = ombott.Ombott(cfg)
        self.app.route('/f', 'ANY', self.handler)
        self.app.route('/j', 'ANY', self.json)

    def handler(self):
        f = dict(self.app.request.forms)
        files = {k: v.file.read() for k, v in self.app.request.files.items()}
        self.seen = (f, files)
        return 'ok'

    def json(self):
        self.seen = (self.app.request.json, {})
        return 'ok'


_forms = {}


def form_case(rnd, kind, text_len, thr, lim, chunked, nfields=1, filesize=0):
    key = (thr, lim)
    if key not in _forms:
        _forms[key] = FormApp(thr, lim)
    fa = _forms[key]
    path, extra, text = '/f', 0, 0
    want_files = {}
    if kind == 'url':
        body = (b'k=' + b'v' * (text_len - 2)) if text_len >= 2 else b'k'[:text_len]
        want = {'k': 'v' * (text_len - 2)} if text_len >= 2 else ({'k': ''} if text_len else {})
        ctype = rnd.choice(['application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=utf-8',
                            'text/plain'])
    elif kind == 'json':
        text_len = max(text_len, 2)
        body = b'"' + b'j' * (text_len - 2) + b'"'
        want = 'j' * (text_len - 2)
        ctype = rnd.choice(['application/json', 'application/json; charset=utf-8'])
        path = '/j'
    else:
        parts = []
        want = {}
        share = rnd.choice([0, 0, 2, 1])          # how much of the text is in the names
        lens = [text_len // nfields] * nfields
        lens[-1] += text_len - sum(lens)
        for j, ln in enumerate(lens):
            name = 'n%d' % j
            if share:
                name += 'k' * max(0, ln // share - len(name))
                ln = max(0, ln - len(name))
            h = b'Content-Disposition: form-data; name="%s"' % name.encode()
            parts.append((h, b'm' * ln))
            want[name] = 'm' * ln
            extra += len(h) + 4 - (len(name) if share else 0)
            text += ln + (len(name) if share else 0)
        if filesize:
            h = b'Content-Disposition: form-data; name="up"; filename="x.bin"\r\nContent-Type: application/octet-stream'
            parts.insert(rnd.randrange(len(parts) + 1), (h, filler(filesize, 3)))
            want_files['up'] = filler(filesize, 3)
            extra += len(h) + 4
        text_len = text
        body = b''.join(b'--BnD\r\n' + h + b'\r\n\r\n' + v + b'\r\n' for h, v in parts) + b'--BnD--\r\n'
        ctype = 'multipart/form-data; boundary=BnD'
    raw = body
    if chunked:
        k = rnd.choice([1, 7, 50, 1000, max(1, len(body))])
        raw = wsgi.encode_chunked([body[j:j + k] for j in range(0, len(body), k)])
    st = wsgi.Stream(raw)
    env = wsgi.environ(path, 'POST', stream=st, cl=None if chunked else len(body), chunked=chunked, ctype=ctype)
    wsgi.aside(rnd, env)
    fa.seen = None
    r = wsgi.call(fa.app, env)
    status = 599 if r.exc is not None else r.code
    return dict(kind='form', form=kind, text=text_len, extra=extra, thr=thr, lim=-1 if lim is None else lim,
                total=len(body), status=status, chunked=chunked, files=filesize,
                exact=fa.seen == (want, want_files))


def check(chk):
    core.use_repo()
    rnd = chk.rnd
    items = []
    g = chk.model('Limits', dict(init='Init', next='Next', invariants=['Inv', 'Emit']),
                  env=dict(MAXCHUNK=chk.pick(4, 6), MAXN=chk.pick(2, 3)), workers=8)
    cases = tlc.dedupe(g.emitted)
    for c in cases:
        frag = rnd.choice([None, lambda w: 1, lambda w: rnd.randrange(1, w + 1)])
        o = observe(c['chunks'] or [], c['framed'], None if c['lim'] < 0 else c['lim'], c['buf'], frag=frag, rnd=rnd)
        items.append(o)
        want = 413 if c['phase'] == 'refused' else 200
        if o['status'] != want or (c['disk'] and o['mem'] != 'disk'):
            chk.violation('outcome differs from the specified behaviour', dict(case=c, seen=o))
    # limits around interesting boundaries, both framings, realistic sizes
    for k in range(chk.pick(900, 6000)):
        framed = bool(k % 2)
        n = rnd.choice([rnd.randrange(0, 50), rnd.randrange(50, 4000), rnd.randrange(4000, 60000)])
        buf = rnd.choice([16, 100, 1000, 5000, 102400, max(16, n), max(16, n - 1), n + 16])
        lim = rnd.choice([None, 0, n, n, max(0, n - 1), n + 1, n // 2, n * 2, n // 10, rnd.randrange(0, n + 2)])
        if framed:
            chunks, left = [], n
            step = rnd.choice([1, 3, 50, 1000, n + 1]) if n < 3000 else rnd.choice([500, 5000, n])
            while left:
                s = min(left, rnd.randrange(1, step + 1))
                chunks.append([rnd.choice([0, 0, 9]), s])
                left -= s
        else:
            chunks = [[0, n]] if n else []
        frag = rnd.choice([None, lambda w: rnd.randrange(1, w + 1), lambda w: max(1, w - 1)])
        ctype = rnd.choice([None, 'application/json', 'application/x-www-form-urlencoded',
                            'multipart/form-data; boundary=zz', 'text/plain'])
        items.append(observe(chunks, framed, lim, buf, frag=frag, ctype=ctype, rnd=rnd))
    # memory: a large body must not pass through memory as a whole
    for k in range(chk.pick(6, 20)):
        n = rnd.choice([600000, 1000000, 1500000])
        framed = bool(k % 2)
        buf = rnd.choice([1000, 4096, 20000])
        chunks = [[0, n]] if not framed else [[0, min(70000, n - j)] for j in range(0, n, 70000)]
        items.append(observe(chunks, framed, rnd.choice([None, n, n + 1]), buf, peak=True,
                             ctype=rnd.choice([None, 'multipart/form-data; boundary=zz'])))
    nb = len(items)
    # form text against the threshold
    for k in range(chk.pick(1200, 8000)):
        kind = ('url', 'json', 'mp', 'mp')[k % 4]
        thr = rnd.choice([64, 100, 500, 1000, 5000])
        text = max(0, rnd.choice([thr, thr - 1, thr + 1, thr + 2, thr * 2, thr // 2, thr * 5 + 3, 3,
                                  rnd.randrange(0, 2 * thr)]))
        chunked = rnd.random() < .5
        nf = rnd.choice([1, 1, 2, 5]) if kind == 'mp' else 1
        fs = rnd.choice([0, 0, thr * 3, 10]) if kind == 'mp' else 0
        lim = rnd.choice([None, None, None, thr * 10, text + 2000, max(1, text // 2)])
        items.append(form_case(rnd, kind, text, thr, lim, chunked, nf, fs))
    for k in range(chk.pick(24, 100)):        # text of megabytes
        kind = ('url', 'json', 'mp', 'mp')[k % 4]
        text = rnd.choice([(1 << 20) - 1, 1 << 20, (1 << 20) + 7, (1 << 21) + 3])
        thr = rnd.choice([100, 5000, 102400, text - 1, text, text + 1, text * 2])
        items.append(form_case(rnd, kind, text, thr, rnd.choice([None, None, text + 500, text - 500]), False, rnd.choice([1, 1, 3]) if kind == 'mp' else 1,
                               rnd.choice([0, 0, 3000]) if kind == 'mp' else 0))
    for k in range(chk.pick(80, 600)):
        buf = rnd.choice([16, 100, 1000, 5000, 20000])
        lim = rnd.choice([0, 10, 1000, 50000])
        line = [(b'', b'0'), (b'', b' '), (b'1;', b'x'), (b'5', b';'), (b'', b'0\r'), (b'1\r\na\r\n', b'0'), (b'', b'5' * 7), (b'3\r\nabc\r\n;', b'e=f;'), (b'', b'\n'), (b'1;', b'\r')]
        if k % 2:
            head, cycle = rnd.choice(line)
            lim = rnd.choice([lim, None])
        else:
            head, cycle = rnd.choice([(b'', b'1\r\na\r\n'), (b'', b'10\r\n' + b'q' * 16 + b'\r\n'), (b'7fffffff\r\n', b'z'), (b'', b'1;e\r\n-\r\n'), (b'ffffffffffffffffffff\r\n', b'y')])
        items.append(endless(rnd, head, cycle, True, lim, buf, rnd.choice([None, 'application/json', 'multipart/form-data; boundary=zz'])))
        if k % 8 == 0 and lim is not None:
            items.append(endless(rnd, b'', b'body', False, lim, buf, None))
    vs = chk.judge('Limits', items)
    chk.count(len(items))
    chk.extra['body_cases'] = nb
    chk.extra['form_cases'] = sum(o['kind'] == 'form' for o in items)
    chk.extra['endless_streams'] = sum(o['kind'] == 'endless' for o in items)
    chk.extra['refused_413'] = sum(1 for o in items if o['status'] == 413)
    for o in items[5::max(1, len(items) // 5)]:
        chk.sample({k: (v if k not in ('calls', 'chunks') else v[:6]) for k, v in o.items()})
    for o, v in zip(items, vs):
        if v['why']:
            chk.violation('C13 ' + v['why'], {k: (x if k not in ('calls', 'chunks') else x[:50])
                                              for k, x in o.items()})
