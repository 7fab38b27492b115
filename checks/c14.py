"""C14: response headers.  Values and setter histories come from Headers.tla, are offered to every kind of response the
framework has, and what reaches the server is judged by the same specification."""
import calendar
import datetime
import decimal
import enum
import fractions
import os
import time

from vf import core, wsgi, tlc

ENV = dict(MAXLEN=0, MAXOPS=0)
NAMES = ['X-A', 'x-a', 'X-a', 'X-Long-Name', 'ETag', 'Content-Type', 'content-type', 'CONTENT-TYPE', 'Content-Length', 'content-length', 'Allow', 'allow', 'Content-Encoding',
         'content-encoding', 'Content-Language', 'content-language', 'Content-Range', 'content-Range', 'Content-Md5', 'Content-MD5', 'Last-Modified', 'last-modified', 'LAST-MODIFIED',
         'Location', 'Vary', 'Content-Location', 'Cache-Control', 'Date', 'Expires', 'X_U', "!#$%&'*+-.^_`|~09", 'Set-Cookie', 'WWW-Authenticate', 'h']
BAD_NAMES = ['', 'X A', 'X:A', 'X\r\nY', 'X\nY: 1', 'X\0', '\xe9', ' X', 'X ', '\u20ac', 'X\x85Y', 'X\u2028', b'X-A', None, 5, 'X:\r\n\r\nbody']
STATUSES = [200, 204, 304, 404, 206, 201, 503, 302, 416, 299]
FIELDS = {'content-type': 'content_type', 'content-length': 'content_length'}


class Loud(str):
    """Shows another text than it holds."""

    def __str__(self):
        return 'ok\r\nX-Evil: 1'


class Num(enum.IntEnum):
    seven = 7


class Obj:
    def __str__(self):
        return 'obj\r\nX-Evil: 1'


class Text(str):
    pass


def cps(s):
    return [ord(c) for c in s]


def offers(v):
    """(text, class) of an offered value."""
    if type(v) in (str, Text):
        return str(v), 'text'
    if type(v) in (int, float):
        return repr(v), 'text'
    if isinstance(v, (list, tuple, set, dict, bytes, bytearray)):
        return 'x', 'free'
    return str(v), 'free'


TYPED = [0, 1, -1, 10 ** 30, 1.5, -0.0, 1e300, float('inf'), True, False, None, Num.seven, Text('text'), Text('t\r\nu'), Loud('quiet'), Obj(), b'bytes', b'a\r\nb', bytearray(b'a\nb'),
         ['in list'], ['a\r\nX-Evil: 1'], ('t\nu',), {'a\r\nb': 1}, {'x\n'}, decimal.Decimal('1.5'), fractions.Fraction(1, 3), datetime.datetime(2020, 1, 2), object, 1j, b'\xff\r\n',
         memoryview(b'\r\n'), range(3), '', ' ', ' lead', 'trail ', 'a: b, c; d="e"', '\xa0', 'x' * 5000, '\u20ac' * 300]


class Rig:
    def __init__(self):
        import ombott
        self.o = ombott
        self.app = ombott.default_app()
        self.app.route('/vf-c14', ['GET', 'POST', 'HEAD'], lambda: self.act(), overwrite=True)
        self.app.route('/vf-c14/w/<x:int>', ['GET'], lambda x: self.act(), overwrite=True)

    def go(self, act, method='GET', **headers):
        self.act = act
        return wsgi.call(self.app, wsgi.environ('/vf-c14', method, headers=headers))


def apply_op(rnd, r, op, py):
    """One setter call, by one of the entry points that mean it; True when it was refused."""
    n, k = py['n'], op['k']
    attr = FIELDS.get(n.lower()) if isinstance(n, str) else None
    try:
        if k == 'set':
            if attr and rnd.random() < .5:
                py['by'] = attr
                setattr(r, attr, py['v'][0])
            else:
                r.headers[n] = py['v'][0]
        elif k == 'append':
            r.headers.append(n, py['v'][0])
        elif k == 'setdefault':
            r.headers.setdefault(n, list(py['v']) if py['list'] else py['v'][0])
        elif k == 'update':
            v = list(py['v']) if py['list'] else py['v'][0]
            how = py['by'] = rnd.choice(['dict', 'pairs', 'headers'])
            if how == 'headers':                 # the headers of another response
                d = type(r.headers)()
                d.setdefault(n, v)
            else:
                d = {n: v} if how == 'dict' else [(n, v)]
            r.headers.update(d)
        elif k == 'del':
            how = rnd.choice(['clear', 'pop', 'del', 'attr'])
            py['by'] = how
            if how == 'pop':
                r.headers.pop(n, None)
            elif how == 'del' and n in r.headers:
                del r.headers[n]
            elif how == 'attr' and attr and n in r.headers:
                delattr(r, attr)
            else:
                r.headers.clear(n)
        else:
            r.headers.clear()
        return False
    except Exception as e:
        py['refused'] = repr(e)
        return True


def make(cls, **kw):
    if cls.__name__ == 'Response':
        r = cls()                # takes its arguments when it is initialised again
        r.__init__(**kw)
        return r
    return cls(**kw)


def mk(n, vals, k, is_list=False):
    tv = [offers(v) for v in vals]
    op = dict(k=k, n=cps(n) if isinstance(n, str) else [], v=[cps(t) for t, _ in tv], c=[c for _, c in tv], refused=False)
    return op, dict(k=k, n=n, v=list(vals), list=is_list)


BODY = ['direct', 'direct', 'direct-error', 'plain', 'plain', 'returned', 'raised', 'error', 'error-handled', 'copied', 'direct-copied', 'generator', 'finished']


def exchange(rig, rnd, ops, status, carrier, ctor):
    """Offer ops to one response, send it; returns the recorded item and its description."""
    o = rig.o
    state = {}

    def init(cls):
        """Build a response; the ops of `ctor` go through its constructor."""
        head = [p for _, p in ops[:ctor]]
        rest = list(ops[ctor:])
        if head:
            how = rnd.choice(['list', 'dict', 'kwargs', 'tuple'])
            names = [p['n'] for p in head]
            if how in ('dict', 'kwargs') and len(set(map(str, names))) < len(names):
                how = 'list'
            if how == 'kwargs' and not all(isinstance(n, str) and '_' not in n and n not in ('body', 'status', 'headers', 'exception', 'traceback', 'self') for n in names):
                how = 'list'
            state['ctor'] = how
            pairs = [(p['n'], p['v'][0]) for p in head]
            try:
                if how == 'kwargs':
                    und = rnd.random() < .5
                    args = {n.replace('-', '_') if und else n: v for n, v in pairs}
                    r = make(cls, status=status, **args)
                else:
                    r = make(cls, status=status, headers={'list': list, 'dict': dict, 'tuple': tuple}[how](pairs))
            except Exception as e:
                for op, p in ops[:ctor]:
                    op['refused'] = True
                    p['refused'] = repr(e)
                r = make(cls, status=status)
        else:
            r = make(cls, status=status)
        for op, p in rest:
            op['refused'] = apply_op(rnd, r, op, p)
        return r

    def on_app(r):
        r.status = status
        for op, p in ops:
            op['refused'] = apply_op(rnd, r, op, p)

    raw, sent, own, err = None, True, ['content-type'], None
    if carrier.startswith('direct'):
        r = init(o.HTTPError if carrier == 'direct-error' else rnd.choice([o.HTTPResponse, o.Response]))
        try:
            if carrier == 'direct-copied':
                r = r.copy(cls=o.HTTPResponse)
            raw = r.headerlist
        except Exception as e:
            sent, err = False, repr(e)
    else:
        own += ['content-length']

        def act():
            if carrier in ('plain', 'generator', 'copied', 'finished'):
                if carrier == 'generator' and rnd.random() < .5:
                    def gen():
                        on_app(rig.app.response)
                        yield 'x'
                    return gen()
                on_app(rig.app.response)
                if carrier == 'copied':
                    raise rig.app.response.copy(cls=o.HTTPResponse)
                if carrier == 'generator':
                    return iter(['a', 'b'])
                if carrier == 'finished':
                    return b''
                return 'x'
            r = init(o.HTTPError if carrier.startswith('error') else o.HTTPResponse)
            if carrier == 'returned' or carrier == 'error' and rnd.random() < .5:
                return r
            raise r
        if carrier == 'error-handled':
            rig.app.error_handlers[status] = lambda e: 'handled'
        try:
            rep = rig.go(act, rnd.choice(['GET', 'POST', 'HEAD']))
        finally:
            rig.app.error_handlers.pop(status, None)
        raw = rep.headers
        sent = rep.exc is None and rep.code == status
        err = repr(rep.exc) if rep.exc else rep.status
    types = True
    out = []
    for h in raw or []:
        if not (type(h) is tuple and len(h) == 2 and type(h[0]) is str and type(h[1]) is str):
            types = False
        else:
            out.append(dict(n=cps(h[0]), v=cps(h[1])))
    item = dict(ops=[op for op, _ in ops], status=status, out=out, sent=sent, own=[cps(n) for n in own], types=types)
    det = dict(ops=[dict(p, v=[repr(v)[:200] for v in p['v']]) for _, p in ops], status=status, carrier=carrier, ctor=state.get('ctor'), answer=err, headers=repr(raw)[:600])
    return item, det


def settle(chk, pairs):
    items = [p[0] for p in pairs]
    for k, (it, d) in zip(chk.judge('Headers', items, env=ENV), pairs):
        chk.count()
        if k['why']:
            chk.violation('headers: ' + k['why'], d)


def values(chk, rig, rnd):
    m = chk.model('Headers', dict(init='WInit', next='WNext', invariants=['WireSafe', 'WEmit']), env=dict(ENV, MAXLEN=chk.pick(3, 4)), workers=8)
    texts = [''.join(map(chr, tlc.seq(e['v']))) for e in m.emitted]
    rnd.shuffle(texts)
    if len(texts) > 30000:
        short = [t for t in texts if len(t) < 4]
        texts = short + rnd.sample([t for t in texts if len(t) == 4], 30000 - len(short))
    pairs = []
    pool = [t for t in texts]
    # every value through one entry point or another
    for t in texts:
        pad = rnd.choice(['', '', 'x' * rnd.randrange(1, 40), 'text/html; a='])
        v = rnd.choice([t, pad + t, t + pad, pad + t + pad])
        if v == t:
            v = rnd.choice([t, t, Text(t)])
        pairs.append(one(rig, rnd, v))
    # every entry point and every status with the values that split, and with values of every type
    for k in ('set', 'append', 'setdefault', 'setdefault-list', 'append-2nd', 'setdefault-2nd', 'update', 'update-list', 'ctor'):
        for c in sorted(set(BODY)):
            for st in STATUSES[:6]:
                for ctl in '\r', '\n', '\0', '\r\n', '\n ', '\r\n\t':
                    v = rnd.choice(['%s', 'a%s', '%sb', 'a%sb', 'a%sX-Evil: 1', '\u20ac%s\u20ac']) % ctl
                    pairs.append(one(rig, rnd, v, k, c, st))
                v = rnd.choice(TYPED)
                pairs.append(one(rig, rnd, v, k, c, st))
    for v in TYPED:
        for k in ('set', 'append', 'setdefault', 'append-2nd', 'update', 'ctor', 'ctor', 'ctor'):
            for _ in range(3):
                pairs.append(one(rig, rnd, v, k, rnd.choice(BODY), rnd.choice(STATUSES)))
    # list values with one bad element
    for _ in range(chk.pick(300, 3000)):
        n = rnd.randrange(1, 5)
        vals = [rnd.choice(['a', 'b', '\u20ac', '1']) for _ in range(n)]
        if rnd.random() < .7:
            vals[rnd.randrange(n)] = rnd.choice(pool)
        ops = [mk(rnd.choice(NAMES), vals, rnd.choice(['setdefault', 'update']), True)]
        pairs.append(exchange(rig, rnd, ops, rnd.choice(STATUSES), rnd.choice(BODY), 0))
    # names
    for nm in BAD_NAMES + NAMES:
        for k in ('set', 'append', 'setdefault', 'update'):
            for ct in (0, 1):
                for c in ('direct', 'returned', 'plain'):
                    ops = [mk(nm, ['v'], k)]
                    pairs.append(exchange(rig, rnd, ops, rnd.choice(STATUSES), c, ct if k == 'append' and c != 'plain' else 0))
    settle(chk, pairs)
    chk.bump('values', len(texts))
    chk.sample(pairs[5][1])


def one(rig, rnd, v, k=None, carrier=None, status=None):
    k = k or rnd.choice(['set', 'append', 'setdefault', 'setdefault-list', 'append-2nd', 'setdefault-2nd', 'ctor', 'ctor', 'update', 'update-list'])
    carrier = carrier or rnd.choice(BODY)
    status = status or rnd.choice(STATUSES)
    n = rnd.choice(NAMES)
    if k == 'ctor':
        if carrier in ('plain', 'generator', 'copied', 'finished'):
            carrier = 'returned'
        return exchange(rig, rnd, [mk(n, [v], 'append')], status, carrier, 1)
    if k == 'append-2nd':
        ops = [mk(n, ['first'], rnd.choice(['set', 'append'])), mk(n, [v], 'append')]
        if rnd.random() < .3:
            ops.insert(1, mk(n, ['second'], 'append'))
    elif k == 'setdefault-2nd':
        ops = [mk(n, ['first'], 'set'), mk(n, [v], 'setdefault')]
    elif k in ('setdefault-list', 'update-list'):
        ops = [mk(n, [v], k[:-5], True)]
    else:
        ops = [mk(n, [v], k)]
    return exchange(rig, rnd, ops, status, carrier, 0)


def histories(chk, rig, rnd):
    m = chk.model('Headers', dict(init='SInit', next='SNext', invariants=['OneEntryPerName', 'NoEmptyEntry', 'LastSet', 'SentOnce', 'SEmit']),
                  env=dict(ENV, MAXOPS=chk.pick(2, 3)), workers=8, heap='6g')
    cases = m.emitted
    if len(cases) > 24000:
        cases = rnd.sample(cases, 24000)
    words = {'1': ['1', '\u20ac', 7], '2': ['2', 'zwei', '\xe9']}
    pairs = []

    def op_of(e):
        vs = [''.join(map(chr, x)) for x in tlc.seq(e['v'])]
        return mk(''.join(map(chr, tlc.seq(e['n']))), [rnd.choice(words[x]) for x in vs], e['k'], e['k'] in ('setdefault', 'update') and (len(vs) > 1 or rnd.random() < .3))
    for e in cases:
        ops = [op_of(x) for x in e['h']]
        c = rnd.choice(BODY)
        lead = 0
        while lead < len(ops) and ops[lead][0]['k'] == 'append':
            lead += 1
        ct = 0 if c in ('plain', 'generator', 'copied', 'finished') else rnd.randint(0, lead)
        pairs.append(exchange(rig, rnd, ops, rnd.choice(STATUSES[:4]), c, ct))
    # longer histories over all names
    for _ in range(chk.pick(2500, 20000)):
        ops = []
        for _ in range(rnd.randrange(3, 9)):
            k = rnd.choice(['set', 'append', 'append', 'append', 'setdefault', 'update', 'del', 'clear'] if rnd.random() < .6 else ['set', 'append'])
            n = rnd.choice(NAMES[:14])
            vs = [rnd.choice(['1', '2', 'x', '\u20ac', 'a\r\nb', 3, 2.5]) for _ in range(1 if k not in ('setdefault', 'update') else rnd.choice([1, 1, 2, 3]))]
            ops.append(mk('' if k == 'clear' else n, [] if k in ('clear', 'del') else vs, k, len(vs) > 1))
        pairs.append(exchange(rig, rnd, ops, rnd.choice(STATUSES), rnd.choice(BODY), 0))
    # very many headers, and very many values of one
    for k in range(chk.pick(30, 300)):
        some = rnd.choice([['Set-Me'], ['X-N%d' % j for j in range(150)], NAMES[:5]])
        ops = [mk(some[j % len(some)], [rnd.choice(['1', '\u20ac', 'v%d' % j, j])], 'append' if len(some) < 9 else rnd.choice(['set', 'append'])) for j in range(rnd.choice([33, 65, 70, 101, 130, 260]))]
        pairs.append(exchange(rig, rnd, ops, rnd.choice(STATUSES), rnd.choice(BODY), 0))
    settle(chk, pairs)
    chk.sample(pairs[-1][1])


def elsewhere(chk, rig, rnd):
    """Text that the framework itself puts into headers: redirects, downloads, cookies, attributes."""
    o = rig.o
    import tempfile
    evil = ['%s' % c for c in ('\r', '\n', '\0', '\r\n', '\n\n')]
    shapes = ['%sX-Evil: 1', 'a%s', 'a%sX-Evil: 1%s', '/p%s?q=\u20ac', 'http://h/%s', '\u20ac%s', '"%s"', 'a;%s']
    texts = [s.replace('%s', c) for s in shapes for c in evil] + ['plain', '/\u20ac', 'a b', '\xe9"', '\udcff']
    pairs = []
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'f.txt'), 'w') as f:
            f.write('x')
        for t in texts:
            acts = dict(
                redirect=lambda: o.redirect(t), redirect_code=lambda: o.redirect(t, 301), download=lambda: o.static_file('f.txt', d, download=t),
                mimetype=lambda: o.static_file('f.txt', d, mimetype=t), charset=lambda: o.static_file('f.txt', d, charset=t),
                cookie=lambda: rig.app.response.set_cookie('n', t), cookie_path=lambda: rig.app.response.set_cookie('n', 'v', path=t),
                cookie_domain=lambda: rig.app.response.set_cookie('n', 'v', domain=t), cookie_name=lambda: rig.app.response.set_cookie(t, 'v'),
                cookie_expires=lambda: rig.app.response.set_cookie('n', 'v', expires=t), cookie_age=lambda: rig.app.response.set_cookie('n', 'v', max_age=t),
                cookie_same=lambda: rig.app.response.set_cookie('n', 'v', samesite=t), delete=lambda: rig.app.response.delete_cookie('n', path=t),
                abort=lambda: o.abort(404, t), reason=lambda: setattr(rig.app.response, 'status', '200 ' + t), error_option=lambda: o.HTTPError(400, X_Why=t),
                allow=lambda: o.HTTPError(405, Allow=t), expires=lambda: setattr(rig.app.response, 'expires', t), http_error=lambda: o.HTTPError('499 ' + t, 'b'),
                method=None)
            for name, act in acts.items():
                err = []

                def guarded():
                    try:
                        r = act()
                        return r if isinstance(r, o.HTTPResponse) else 'x'
                    except o.HTTPResponse:
                        raise
                    except Exception as e:
                        err.append(repr(e))
                        return 'refused'
                if name == 'method':
                    env = wsgi.environ('/vf-c14', 'PUT' + t if rnd.random() < .5 else t)
                    rep = wsgi.call(rig.app, env)
                else:
                    rep = rig.go(guarded)
                raw = rep.headers or []
                types = all(type(h) is tuple and len(h) == 2 and type(h[0]) is type(h[1]) is str for h in raw)
                out = [dict(n=cps(h[0]), v=cps(h[1])) for h in raw] if types else []
                if rep.status and any(c in rep.status for c in '\r\n\0'):
                    chk.violation('a status line splits the response', dict(where=name, text=t, status=rep.status))
                pairs.append((dict(ops=[], status=rep.code, out=out, sent=True, own=[cps(h[0].lower()) for h in raw] if types else [], types=types),
                              dict(where=name, text=t, refused=err, status=rep.status, headers=repr(raw)[:500])))
    settle(chk, pairs)


def http_text(ts):
    t = time.gmtime(ts)
    return '%s, %02d %s %d %02d:%02d:%02d GMT' % (['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'][t.tm_wday], t.tm_mday,
                                                  'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[t.tm_mon - 1], t.tm_year, t.tm_hour, t.tm_min, t.tm_sec)


def attributes(chk, rig, rnd, zone):
    """The header attributes: what is read back, and the dates they write."""
    o = rig.o
    zones = [datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(datetime.timedelta(hours=-8))]
    for _ in range(chk.pick(300, 3000)):
        ts = rnd.randrange(0, 2 ** 32)
        naive = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=ts)
        form = rnd.choice(['int', 'float', 'naive', 'aware', 'date', 'struct', 'text'])
        v = dict(int=ts, float=ts + .25, naive=naive, aware=naive.replace(tzinfo=datetime.timezone.utc).astimezone(rnd.choice(zones)), date=naive.date(),
                 struct=time.gmtime(ts), text=http_text(ts))[form]
        want = calendar.timegm(naive.date().timetuple()) if form == 'date' else ts
        r = rnd.choice([o.HTTPResponse, o.Response, o.HTTPError])()
        r.expires = v
        chk.count()
        sent = [x for n, x in r.headerlist if n.lower() == 'expires']
        back = r.expires
        if sent != [http_text(want)] or back != datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=want):
            chk.violation('the expires attribute', dict(zone=zone, form=form, value=repr(v), sent=sent, expected=http_text(want), read=repr(back)))
    for cls in (o.HTTPResponse, o.Response, o.HTTPError):
        for n in (0, 1, 10 ** 12, '12'):
            r = cls()
            r.content_length = n
            if r.content_length != int(n) or ('Content-Length', str(n)) not in r.headerlist:
                chk.violation('the content_length attribute', dict(value=n, headers=r.headerlist))
        for t in ('text/plain', 'text/plain; charset=latin1', 'a/b;charset=x ; q=1'):
            r = cls()
            r.content_type = t
            cs = t.split('charset=')[1].split(';')[0].strip() if 'charset' in t else 'UTF-8'
            if r.content_type != t or [v for n, v in r.headerlist if n.lower() == 'content-type'] != [t] or r.charset != cs:
                chk.violation('the content_type attribute', dict(value=t, headers=r.headerlist))
            chk.count()


def check(chk):
    core.use_repo()
    rnd = chk.rnd
    rig = Rig()
    values(chk, rig, rnd)
    histories(chk, rig, rnd)
    elsewhere(chk, rig, rnd)
    was = os.environ.get('TZ')
    try:
        for zone in ('UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'XYZ-14'):   # the dates are UTC whatever the clock of the server shows
            os.environ['TZ'] = zone
            time.tzset()
            attributes(chk, rig, rnd, zone)
    finally:
        os.environ.pop('TZ', None)
        if was is not None:
            os.environ['TZ'] = was
        time.tzset()
    chk.assumptions += ['the server is represented by the arguments of start_response', 'other control characters than CR, LF and NUL may be refused or sent',
                        'what text a bool, None or another object stands for is not part of the statement: refused or clean']
