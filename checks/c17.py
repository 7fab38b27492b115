"""C17: slices, conditional requests, HEAD.  Ranges.tla reads every Range header and says which slices may be delivered;
static_file answers for real files behind the WSGI interface."""
import os
import re
import shutil
import tempfile
import time

from vf import core, wsgi, tlc

BUF = 1 << 20
LENGTHS = [0, 1, 2, 10, 91, 1000]
BIG = [64 * 1024 - 1, 64 * 1024, 64 * 1024 + 1, BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 1, 3 * BUF + 7]
ENDINGS = ['bin', 'txt.gz', 'html', 'tar.bz2', 'svgz', 'noending', 'css', 'tgz', 'txt.Z']     # types and encodings
DAYS = 'Monday Tuesday Wednesday Thursday Friday Saturday Sunday'.split()
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
ZONES = ['UTC', 'Europe/Moscow', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Apia', 'Europe/London', 'America/Caracas', 'XYZ-14', 'EST5EDT,M3.2.0,M11.1.0', 'Africa/Casablanca']
CR = re.compile(r'bytes (\d+)-(\d+)/(\d+)\Z')


class Files:
    def __init__(self, rnd):
        self.dir = tempfile.mkdtemp(prefix='vf-', dir='/tmp')
        self.data = {}
        for n in LENGTHS + BIG:
            self.data[n] = rnd.randbytes(n)
            with open(self.path(n), 'wb') as f:
                f.write(self.data[n])
        ombott = core.use_repo()
        self.app = ombott.default_app()
        self.raising = False
        self.kw = {}
        self.app.route('/vf-c17/<n:int>', ['GET', 'HEAD'], self.handler, overwrite=True)
        self.static = ombott.static_file

    def name(self, n):
        return '%d.%s' % (n, ENDINGS[n % len(ENDINGS)])

    def path(self, n):
        return os.path.join(self.dir, self.name(n))

    def handler(self, n):
        r = self.static(self.name(n), self.dir, **self.kw)
        if self.raising:
            raise r
        return r

    def get(self, n, method='GET', rng=None, ims=None, extra=None):
        env = wsgi.environ('/vf-c17/%d' % n, method)
        if rng is not None:
            env['HTTP_RANGE'] = rng
        if ims is not None:
            env['HTTP_IF_MODIFIED_SINCE'] = ims
        env.update(extra or {})
        out = {}

        def start(status, headers, exc_info=None):
            out['status'], out['headers'] = status, headers
        exc = None
        chunks, it = [], None
        try:
            with wsgi.deadline(30):
                it = self.app(env, start)
                chunks = list(it)
        except Exception as e:
            exc = e
        finally:
            if hasattr(it, 'close'):
                it.close()
        return Answer(self, n, out, chunks, exc)


class Answer:
    def __init__(self, files, n, out, chunks, exc):
        self.exc = exc
        self.code = int(out['status'][:3]) if out else 0
        self.headers = out.get('headers', [])
        self.body = b''.join(chunks)
        self.chunk = max(map(len, chunks), default=0)
        data = files.data[n]
        one = [v for k, v in self.headers if k.lower() == 'content-length']
        self.clen = int(one[0]) if len(one) == 1 and one[0].isdigit() else -1
        m = [CR.match(v) for k, v in self.headers if k.lower() == 'content-range']
        self.cr = [min(int(x), 10 ** 9) for x in m[0].groups()] if len(m) == 1 and m[0] else []
        if self.cr and self.body == data[self.cr[0]:self.cr[0] + len(self.body)]:
            self.off = self.cr[0]
        elif self.body == data:
            self.off = 0
        else:
            self.off = data.find(self.body) if self.body else -1

    def item(self, n, method, rng, ims):
        return dict(method=method, len=n, hasrange=rng is not None, h=[ord(c) for c in rng or ''], ims=ims, status=self.code, cr=self.cr, clen=self.clen,
                    off=self.off, n=0 if self.code not in (200, 206) and method == 'GET' and self.code == 416 else len(self.body), chunk=self.chunk, buf=BUF)

    def shown(self):
        return dict(code=self.code, headers=self.headers, n=len(self.body), off=self.off, chunk=self.chunk, exc=repr(self.exc))


def fits(a, allowed, n, method='GET'):
    """Does an answer to a Range request agree with [deny, any, slices]?"""
    deny, anyslice, slices = allowed
    if a.code == 416:
        return deny
    if a.code != 206 or not a.cr:
        return False
    lo, hi = a.cr[0], a.cr[1] + 1
    if a.cr[2] != n or not (lo < hi <= n) or a.clen != hi - lo or a.chunk > BUF:
        return False
    if method == 'GET' and not (a.off == lo and len(a.body) == hi - lo):
        return False
    return anyslice or [lo, hi] in tlc.seq(slices)


def dates(d, w):
    wd, mo = DAYS[w], MONTHS[d['mo'] - 1]
    t = '%02d:%02d:%02d' % (d['h'], d['mi'], d['s'])
    if d['zone']:
        z = '%s%02d%02d' % ('-' if d['zone'] < 0 else '+', abs(d['zone']) // 60, abs(d['zone']) % 60)
        return ['%s, %02d %s %04d %s %s' % (wd[:3], d['d'], mo, d['y'], t, z)]
    return ['%s, %02d %s %04d %s GMT' % (wd[:3], d['d'], mo, d['y'], t), '%s, %02d-%s-%02d %s GMT' % (wd, d['d'], mo, d['y'] % 100, t),
            '%s %s %2d %s %04d' % (wd[:3], mo, d['d'], t, d['y'])]


def conditional(chk, f, rnd):
    r = chk.model('Ranges', dict(init='DInit', next='DNext', invariants=['Order', 'DEmit']), env=dict(MAXLEN=0), workers=8)
    cases = sorted(r.emitted, key=lambda e: repr(e))
    if not chk.thorough:
        cases = rnd.sample(cases, 8000)
    else:
        rnd.shuffle(cases)
    size = max(1, len(cases) // len(ZONES) + 1)
    old = os.environ.get('TZ')
    try:
        for z, zone in enumerate(ZONES):
            os.environ['TZ'] = zone
            time.tzset()
            for e in cases[z * size:(z + 1) * size]:
                n = rnd.choice([0, 1, 10])
                ns = (e['f'][0] * 86400 + e['f'][1]) * 10 ** 9 + rnd.choice([0, 0, 500000000, 900000000])
                os.utime(f.path(n), ns=(ns, ns))
                ims = rnd.choice(dates(e['d'], e['w'])) + rnd.choice(['', '', '; length=%d' % n, ' '])
                method = rnd.choice(['GET', 'GET', 'HEAD'])
                rng = rnd.choice([None, None, 'bytes=0-0'])
                f.raising = rnd.random() < .2
                a = f.get(n, method, rng, ims)
                chk.count()
                want = 304 if e['no'] else 200 if rng is None else 206 if n else 416
                names = {k.lower() for k, v in a.headers}
                if a.code != want or (want == 304 and (a.body or names & {'content-length', 'content-type', 'content-range', 'last-modified'})):
                    chk.violation('conditional request', dict(zone=zone, ims=ims, file_utc=e['f'], method=method, range=rng, expected=want, got=a.shown()))
                if want != 304:
                    lm = [v for k, v in a.headers if k.lower() == 'last-modified']
                    if want != 416 and (not lm or f.get(n, 'GET', None, lm[0]).code != 304):
                        chk.violation('the date of the file itself is not recognised', dict(zone=zone, last_modified=lm, file_utc=e['f']))
            # what is no date does not count
            for junk in ['', 'x', 'Sat', '99', 'Sun, 99 Foo 2040 00:00:00 GMT', ';', 'Sun, 01 Jan 99999999 00:00:00 GMT', 'Sun, 01 Jan 2040', '-1', '\x00', 'Sun, 00 Jan 2040 25:61:61 GMT', '0' * 5000]:
                a = f.get(10, 'GET', None, junk)
                chk.count()
                if a.exc or a.code not in (200, 304) or (a.code == 304 and a.body):
                    chk.violation('an If-Modified-Since without a date breaks the reply', dict(ims=junk[:40], got=a.shown()))
    finally:
        os.environ.pop('TZ', None)
        if old is not None:
            os.environ['TZ'] = old
        time.tzset()
        f.raising = False


def header(rnd, n):
    edge = [0, 1, n - 2, n - 1, n, n + 1, 2 * n, n // 2, BUF, BUF - 1, BUF + 1, 10 ** 12]

    def num():
        v = max(0, rnd.choice(edge) if rnd.random() < .7 else rnd.randrange(2 * n + 2))
        return rnd.choice(['', '', '', '0', '00']) + str(v) if rnd.random() < .95 else rnd.choice(['9' * 30, '0' * 30 + '1', '9' * 5000, ''])

    def spec():
        k = rnd.randrange(4)
        return '%s-%s' % (num(), num()) if k < 2 else num() + '-' if k == 2 else '-' + num()
    ows = lambda: rnd.choice(['', '', ' ', '\t ', '  '])
    out = rnd.choice(['bytes=', 'bytes=', 'bytes=', 'Bytes=', 'BYTES='])
    out += ',' * rnd.choice([0, 0, 0, 0, 1, 2])
    out += spec()
    for _ in range(rnd.choice([0, 0, 1, 2])):
        out += ows() + ',' + ows() + rnd.choice([spec(), spec(), ''])
    if rnd.random() < .15:
        k = rnd.randrange(len(out))
        out = out[:k] + rnd.choice(['x', '+', '_', '-', ' ', '=', ',', '\xb2', '\u0663', '.', '', 'bytes=', '--']) + out[k + rnd.randint(0, 2):]
    if rnd.random() < .03:
        out = rnd.choice(['items=0-5', 'bytes', 'byte=0-1', 'xbytes=0-1', 'bytes =0-1', '0-1', 'bytes=', 'bytes=-', 'none', 'bytes=abc', 'bytes=0-0x1', 'seconds=1-2;bytes=0-1'])
    return out


def check(chk):
    f = Files(chk.rnd)
    try:
        body(chk, f, chk.rnd)
    finally:
        shutil.rmtree(f.dir, ignore_errors=True)


def body(chk, f, rnd):
    r = chk.model('Ranges', dict(init='RInit', next='RNext', invariants=['Slices', 'Spacing', 'Emit']), env=dict(MAXLEN=chk.pick(5, 6)), workers=8)
    for e in r.emitted:
        h = ''.join(map(chr, e['h']))
        short = len(h) <= 10
        for k in range(len(LENGTHS)) if short else rnd.sample(range(len(LENGTHS)), chk.pick(2, 1) if e['c'] != 'junk' else 1):
            n, allowed = LENGTHS[k], e['a'][k]
            a = f.get(n, 'GET', h)
            chk.count()
            if a.exc or not fits(a, allowed, n):
                chk.violation('answer to a Range header (%s)' % e['c'], dict(range=h, length=n, allowed=allowed, got=a.shown()))
            if rnd.random() < .1:
                b = f.get(n, 'HEAD', h)
                if b.code != a.code or b.body or (a.code == 206 and b.headers != a.headers):
                    chk.violation('HEAD differs from GET', dict(range=h, length=n, get=a.shown(), head=b.shown()))
        chk.bump('headers: ' + e['c'])
    chk.sample(dict(range=h, length=n, allowed=allowed))
    conditional(chk, f, rnd)
    for n in LENGTHS + BIG:
        os.utime(f.path(n), (1700000000, 1700000000))
    items, det = [], []
    for _ in range(chk.pick(5000, 40000)):
        n = rnd.choice(LENGTHS + BIG) if rnd.random() < .3 else rnd.choice(LENGTHS)
        rng = header(rnd, n) if rnd.random() < .9 else None
        method = rnd.choice(['GET', 'GET', 'GET', 'HEAD'])
        ims, how = rnd.choice([(None, 'none')] * 6 + [('Tue, 14 Nov 2023 22:13:20 GMT', 'notolder'), ('Tue, 14 Nov 2023 22:13:19 GMT', 'older')])
        f.raising = rnd.random() < .2
        f.kw = rnd.choice([{}, {}, dict(mimetype='text/plain'), dict(mimetype=None), dict(download=True), dict(download='n.x', charset='utf8')])
        extra = {'wsgi.file_wrapper': Wrapper} if rnd.random() < .2 else None
        a = f.get(n, method, rng, ims, extra)
        if a.exc:
            chk.violation('static_file failed', dict(range=(rng or '')[:200], length=n, method=method, got=a.shown()))
            continue
        items.append(a.item(n, method, rng, how))
        det.append(dict(range=rng if rng is None else rng[:200], length=n, method=method, ims=ims, got=a.shown()))
        if method == 'HEAD' and a.code in (200, 206):
            b = f.get(n, 'GET', rng, ims, extra)
            if a.headers != b.headers or a.code != b.code or a.body:
                chk.violation('HEAD differs from GET', dict(range=rng, length=n, head=a.shown(), get=b.shown()))
    for v, d in zip(chk.judge('Ranges', items, env=dict(MAXLEN=0)), det):
        chk.count()
        if v['why']:
            chk.violation('recorded: ' + v['why'], d)
    chk.assumptions.append('a Range header outside the grammar of RFC 7233 may be answered with 416 or with any 206 whose headers and bytes agree; a set whose first range '
                           'cannot be satisfied may be answered with a later one')


class Wrapper:
    def __init__(self, fp, size=8192):
        self.fp = fp
        self.close = fp.close

    def __iter__(self):
        return iter(lambda: self.fp.read(8192), b'')
