"""C15: cookies.  Values, jar histories and forgeries come from Cookies.tla; an independent browser carries Set-Cookie headers
back as Cookie headers; everything that reaches an unpickler is recorded."""
import base64
import datetime
import decimal
import fractions
import pickle
import sys

from vf import core, wsgi, tlc
from checks import view_common

MISSING = object()
_calls = []


class Canary:
    """Its payload runs touched() when anything unpickles it."""

    def __reduce__(self):
        return touched, (1,)


def touched(_):
    _calls.append('canary')
    return 'touched'


class Point:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, o):
        return type(o) is Point and (o.x, o.y) == (self.x, self.y)

    def __repr__(self):
        return 'Point(%r, %r)' % (self.x, self.y)


def instrument():
    """Record every way into the unpickler; done before the code under test is imported."""
    def wrap(f):
        def loads(*a, **kw):
            _calls.append('load')
            return f(*a, **kw)
        return loads
    for name in ('loads', 'load', 'Unpickler', '_loads', '_load', '_Unpickler'):
        if hasattr(pickle, name):
            setattr(pickle, name, wrap(getattr(pickle, name)))
    sys.addaudithook(lambda e, a: _calls.append('find_class') if e == 'pickle.find_class' and _armed[0] else None)


_armed = [False]


class Browser:
    """RFC 6265: what is kept of a Set-Cookie header and what is sent back."""

    def __init__(self):
        self.jar = {}

    @staticmethod
    def pair(sc):
        p = sc.split(';', 1)[0]
        k = p.find('=')
        return ('', p.strip(' \t')) if k < 0 else (p[:k].strip(' \t'), p[k + 1:].strip(' \t'))

    @staticmethod
    def attrs(sc):
        out = {}
        for a in sc.split(';')[1:]:
            k, _, v = a.strip(' \t').partition('=')
            out[k.lower()] = v
        return out

    def store(self, sc):
        n, v = self.pair(sc)
        a = self.attrs(sc)
        if 'max-age' in a and int(a['max-age']) <= 0 or 'max-age' not in a and a.get('expires', '').endswith('1970 00:00:00 GMT'):
            self.jar.pop(n, None)
        else:
            self.jar[n] = v

    def header(self):
        return '; '.join('%s=%s' % kv for kv in self.jar.items())


class Rig:
    def __init__(self):
        import ombott
        self.o = ombott
        self.app = ombott.default_app()
        self.app.route('/vf-c15/<what>', ['GET', 'POST'], self.handler, overwrite=True)
        self.act = None

    def handler(self, what):
        return self.act()

    def respond(self, act, cookie=None, method='GET'):
        self.act = act
        env = wsgi.environ('/vf-c15/x', method)
        if cookie is not None:
            env['HTTP_COOKIE'] = cookie
        return wsgi.call(self.app, env)

    def read(self, cookie, name, secret=None):
        """(raised, value or MISSING, touched the unpickler)"""
        out = []

        def act():
            _calls.clear()
            _armed[0] = True
            try:
                out.append((None, self.app.request.get_cookie(name, MISSING, secret) if secret is not None else self.app.request.get_cookie(name, MISSING), None))
                if secret is None and isinstance(out[0][1], str):
                    other = [x for x in self.others(name) if x != out[0][1]]
                    if other:
                        out[0] = ('read otherwise: %r' % other, out[0][1], None)
            except Exception as e:
                out[:] = [(repr(e), MISSING, None)]
            finally:
                _armed[0] = False
            return 'x'
        r = self.respond(act, cookie)
        if not out:
            return 'no handler: %s' % r.status, MISSING, list(_calls)
        return out[0][0], out[0][1], list(_calls)

    def others(self, name):
        """The other readings of a plain cookie."""
        box = self.app.request.cookies
        got = [box.getunicode(name)]
        if name.isidentifier() and not name.startswith('__') and not hasattr(type(box), name):
            got.append(getattr(box, name))
        try:
            got += [box.decode().get(name), box.decode().decode().get(name)]
        except UnicodeError:                     # some other cookie of the header
            pass
        return [x for x in got if x is not None]


def text(v):
    return ''.join(map(chr, tlc.seq(v)))


def quoted(v):
    """A coded value that every reader takes for v, whatever v contains."""
    out = '"'
    for c in v:
        out += '\\' + c if c in '"\\' else '\\%03o' % ord(c) if ord(c) < 33 or c in ';,' or ord(c) > 126 else c
    return out + '"'


NAMES = ['n', 'session', 'a-b', '__Host-x', 'A', 'x.y', '0', "!#$%&'*+-.^_`|~", '$n', '$Version', '$Path', 'pathx', 'self', 'expires2', 'a:b', 'k' * 60]
NEIGHBOURS = ['', 'x=1', 'z=a.b/c:d', '_ga=GA1.2.3', 'path=/q', '$Version=1', 'Expires=never', 'secure=', 'q="quoted"', 'nn=1', 'w=(1)', 'httponly=1', 'u="\\303\\251"']


def plain(chk, rig, rnd, values):
    items, det = [], []
    for v, ctl in values:
        name = rnd.choice(NAMES) if rnd.random() < .5 else 'n'
        carrier = rnd.choice(['plain', 'plain', 'returned', 'raised', 'redirect', 'error', 'finished', 'generator'])
        attrs = rnd.choice([{}, {}, dict(path='/'), dict(max_age=60), dict(httponly=True, secure=True), dict(domain='x.test', path='/a'), dict(expires=4000000000),
                            dict(max_age=datetime.timedelta(days=1)), dict(expires=datetime.datetime(2037, 1, 1)), dict(samesite='Lax')])
        refused = []
        # another cookie of the response, maybe one whose name differs in letter case only
        second = rnd.choice([None, None, None, 'zz', name.swapcase() if name.swapcase() != name else 'zz'])
        behind = rnd.random() < .3

        def setter(r):
            if second and not behind:
                r.set_cookie(second, 'second')
            attempt(refused, lambda: r.set_cookie(name, v, **attrs))
            if second and behind:
                r.set_cookie(second, 'second')
        r = rig.respond(lambda: carry(rig, carrier, setter))
        scs = [x for x in r.all('Set-Cookie') if not second or not x.startswith(second + '=')]
        chk.count()
        if refused:
            # only what no cookie can carry may be refused
            if not ctl:
                chk.violation('a cookie is refused', dict(name=name, value=v, error=refused[0]))
            continue
        if r.exc or len(scs) != 1 or len(r.all('Set-Cookie')) != (2 if second else 1):
            chk.violation('not one Set-Cookie header for one cookie', dict(name=name, value=v, carrier=carrier, headers=r.headers, error=repr(r.exc)))
            continue
        sent = Browser.pair(scs[0])
        parts = ['%s=%s' % sent]
        if second and second != 'zz':
            parts.insert(rnd.choice([0, 1]), second + '=another')
        for nb in rnd.sample(NEIGHBOURS, rnd.choice([0, 0, 1, 2])):
            if nb and nb.split('=')[0] != name:
                parts.insert(rnd.choice([0, len(parts)]), nb)
        if rnd.random() < .04:                   # among very many
            pad = ['p%d=%d' % (j, j) for j in range(rnd.choice([49, 50, 51, 64, 130, 400]))]
            j = rnd.choice([0, len(pad), rnd.randrange(len(pad))])
            parts = pad[:j] + parts + pad[j:]
        header = '; '.join(parts)
        raised, got, calls = rig.read(header, name)
        items.append(dict(name=[ord(c) for c in name], value=[ord(c) for c in v], sc=[ord(c) for c in scs[0]], sent=[[ord(c) for c in x] for x in sent],
                          found=got is not MISSING, raised=bool(raised), got=[ord(c) for c in got] if isinstance(got, str) else [-1] if got is not MISSING else []))
        det.append(dict(name=name, value=v, carrier=carrier, set_cookie=scs[0], cookie=header, got=repr(got), raised=raised))
        if calls:
            chk.violation('a plain cookie reaches the unpickler', det[-1])
    for k, d in zip(chk.judge('Cookies', items, env=dict(MAXLEN=0, MAXOPS=0, MAXRESP=0, MAXEDITS=0)), det):
        chk.count()
        if k['why'].startswith('MACHINERY'):
            raise tlc.MachineryError('%s %r' % (k['why'], d))
        if k['why']:
            chk.violation('plain cookie: ' + k['why'], d)


def attempt(refused, f):
    try:
        f()
    except Exception as e:
        refused.append(repr(e))


def carry(rig, carrier, setter):
    """Send what setter puts on a response through one of the ways a response can be built."""
    app, o = rig.app, rig.o
    if carrier == 'plain':
        setter(app.response)
        return 'x'
    if carrier == 'redirect':
        setter(app.response)
        o.redirect('/there')
    if carrier == 'error':
        setter(app.response)
        o.abort(404, 'gone')
    if carrier == 'finished':
        setter(app.response)
        raise o.HTTPResponse('body', 200)
    if carrier == 'generator':
        def gen():
            setter(app.response)
            yield 'x'
        return gen()
    r = o.HTTPResponse('body', 200)
    setter(r)
    if carrier == 'raised':
        raise r
    return r


def jars(chk, rig, rnd):
    m = chk.model('Cookies', dict(init='JarInit', next='JarNext', invariants=['OnePerName', 'LastWins', 'JarEmit']),
                  env=dict(MAXLEN=0, MAXOPS=2, MAXRESP=2, MAXEDITS=0), workers=8)
    cases = [e for e in m.emitted if len(e['h']) == 2 or rnd.random() < .5]
    if len(cases) > chk.pick(6000, 40000):
        cases = rnd.sample(cases, chk.pick(6000, 40000))
    words = {'v1': 'one; "\u20ac"', 'v2': 'zwei=2'}
    obj = {'k': ['\u20ac', 1, None]}
    for e in cases:
        b = Browser()
        for k, h in enumerate(e['h']):
            def act():
                def setter(r):
                    for op in tlc.seq(h['ops']):
                        if op['k'] == 'set':
                            r.set_cookie(op['n'], words[op['v']], path='/')
                        elif op['k'] == 'sign':
                            r.set_cookie(op['n'], obj, 'sekret', path='/')
                        else:
                            r.delete_cookie(op['n'], path='/')
                return carry(rig, h['c'], setter)
            r = rig.respond(act, b.header() or None)
            for sc in r.all('Set-Cookie'):
                b.store(sc)
            chk.count()
            want = e['j'][k + 1]
            for n in ('a', 'b'):
                sec = 'sekret' if want[n] == 'signed' else None
                raised, got, calls = rig.read(b.header() or None, n, sec)
                exp = MISSING if want[n] == 'absent' else obj if sec else words[want[n]]
                if raised or got != exp:
                    chk.violation('a history of responses leaves other cookies', dict(history=e['h'][:k + 1], name=n, expected=repr(exp), got=repr(got), raised=raised,
                                                                                     cookie=b.header(), set_cookie=r.all('Set-Cookie')))
    chk.sample(dict(jar_history=e))


def sign(rig, name, obj, secret):
    """(decoded cookie value, coded) as emitted, or what went wrong."""
    err = []
    r = rig.respond(lambda: carry(rig, 'plain', lambda x: attempt(err, lambda: x.set_cookie(name, obj, secret))))
    scs = r.all('Set-Cookie')
    if err or len(scs) != 1:
        return None, err or r.status
    coded = Browser.pair(scs[0])[1]
    v = coded
    if len(coded) > 1 and coded[0] == coded[-1] == '"':
        v = coded[1:-1].replace('\\"', '"').replace('\\\\', '\\')
    return v, coded


def forgeries(chk, rig, rnd):
    m = chk.model('Cookies', dict(init='FInit', next='FNext', invariants=['NoForgery', 'FEmit']),
                  env=dict(MAXLEN=0, MAXOPS=0, MAXRESP=0, MAXEDITS=chk.pick(1, 2)), workers=8, heap='6g')
    cases = m.emitted
    if len(cases) > 60000:
        cases = rnd.sample(cases, 60000)
    secrets = {1: 'first secret', 2: 'second secret'}
    objs = {1: ('a', Point(1, [2])), 2: ('b', {'two': 2}), 3: ('a', Canary())}
    base = {}
    for s in (1, 2):
        for p in (1, 2, 3):
            v, _ = sign(rig, objs[p][0], objs[p][1], secrets[s])
            if v is None:
                chk.violation('a value cannot be signed', dict(value=repr(objs[p])))
                return
            if not (v[0] == '!' and v.count('?') == 1):
                raise tlc.MachineryError('unexpected form of signed cookies: %r' % v)
            base[s, p] = v

    def cut3(x):
        k = len(x) // 3
        return [x[:k], x[k:2 * k], x[2 * k:]]

    def block(b):
        if b == ['!'] or b == ['?']:
            return b[0]
        if b == ['junk']:
            return rnd.choice(['A', 'QUJD', '=', '!', '??', 'x' * 8, '\xe9', '"', '%3F', '\u20ac', '\x00'])
        if b[0] == 's':
            return cut3(base[b[1], b[2]].partition('?')[0][1:])[b[3] - 1]
        return cut3(base[1, b[1]].partition('?')[2])[b[2] - 1]
    for e in cases:
        blocks = None
        for op in e['ops']:
            b, p = tlc.seq(op['b']), op['p']
            if op['k'] == 'start':
                blocks = [block(x) for x in b]
                tags = [tuple(x) for x in b]
            elif op['k'] == 'sub':
                blocks[p - 1], tags[p - 1] = block(b[0]), tuple(b[0])
            elif op['k'] == 'del':
                del blocks[p - 1], tags[p - 1]
            elif op['k'] == 'ins':
                blocks.insert(p - 1, block(b[0]))
                tags.insert(p - 1, tuple(b[0]))
            elif op['k'] == 'cut':
                del blocks[p:], tags[p:]
            else:
                new = [block(x) for x in b]
                nt = [tuple(x) for x in b]
                k = tags.index(('?',)) + 1 if op['k'] == 'pay' else 0
                if op['k'] == 'pay':
                    blocks[k:], tags[k:] = new, nt
                else:
                    q = tags.index(('?',))
                    blocks[:q], tags[:q] = ['!'] + new, [('!',)] + nt
        value = ''.join(blocks)
        opens = tlc.seq(e['open'])
        for sec in (1, 2):
            want = sec in opens
            if not want and value == base.get((sec, 1)) or value == base.get((sec, 2)) and not want:
                continue                       # the same string by another route
            for name in ('a', 'b') if want else (rnd.choice('ab'),):
                raised, got, calls = rig.read('%s=%s' % (name, quoted(value)), name, secrets[sec])
                chk.count()
                exp = MISSING
                if want and objs[e['pay']][0] == name:
                    exp = objs[e['pay']][1]
                detail = dict(ops=e['ops'][1:], value=value, secret=sec, name=name, got=repr(got), raised=raised, unpickler=calls)
                if calls and not want:
                    chk.violation('a forged cookie is deserialised', detail)
                elif raised:
                    chk.violation('reading a forged cookie fails', detail)
                elif got != exp:
                    chk.violation('a forged cookie is accepted' if exp is MISSING else 'an honest cookie is not read', detail)


def tampering(chk, rig, rnd):
    """Every byte of real signed cookies."""
    subjects = [('a', 'x', 'k'), ('sess', {'user': 1, 'ok': [True]}, b'\x00\xff'), ('n', Canary(), 'long ' * 30), ('u', '\u20ac' * 9, '\xe9\u20ac'), ('big', list(range(900)), 'k')]
    b64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/='
    for name, obj, secret in subjects:
        v, coded = sign(rig, name, obj, secret)
        if v is None:
            chk.violation('a value cannot be signed', dict(value=repr(obj), error=coded))
            continue
        raised, got, calls = rig.read('%s=%s' % (name, coded), name, secret)
        if raised or got is MISSING or not calls:
            chk.violation('a signed cookie is not read back', dict(value=repr(obj), cookie=coded, got=repr(got), raised=raised))
            continue
        evil = base64.b64encode(pickle.dumps((name, Canary()), -1)).decode()
        sig, _, msg = v[1:].partition('?')
        bad = []
        for p in range(len(v)) if len(v) < 1000 else sorted(rnd.sample(range(len(v)), chk.pick(60, 400)) + list(range(len(v) - 20, len(v)))):
            subs = [chr(c) for c in b64] if chk.thorough else [chr(c) for c in rnd.sample(b64, 3)]
            subs += [chr(ord(v[p]) ^ 1), v[p].swapcase(), '\xe9', ' ', '\x00']
            bad += [v[:p] + s + v[p + 1:] for s in subs]
            bad.append(v[:p] + v[p + 1:])
            bad.append(v[:p])
            bad.append(v[:p] + rnd.choice('A?=!') + v[p:])
        bad += [v + x for x in ('=', 'A', 'AAAA', '?', ' ', '\n', '\x00')]
        bad += ['!%s?%s' % (sig, evil), '!?' + msg, '!' + sig + '?', '!' + sig + msg, sig + '?' + msg, '!?' + evil, '?' + evil, '!' + evil, '! ?' + evil, evil,
                '!%s?%s' % (sig[::-1], msg), '!%s?%s' % (sig[:-1], msg), '!%s?%s' % (sig + sig, msg), '!%s?%s?%s' % (sig, evil, msg), '!%s?%s?%s' % (sig, msg, evil),
                '!%s?%s%s' % (sig, evil, msg), '!%s?%s' % (sig.rstrip('='), msg), '!%s?%s' % (sig + '=', msg), '!!%s?%s' % (sig, msg), '!%s??%s' % (sig, msg),
                '!%s?%s' % (sig.lower(), msg), '!%s?%s' % (sig, msg.rstrip('=')), '!%s?%s' % (base64.b64encode(b'').decode(), evil), '!%s?%s' % ('A' * len(sig), evil)]
        for x in bad:
            if x == v:
                continue
            raised, got, calls = rig.read('%s=%s' % (name, quoted(x)), name, secret)
            chk.count()
            if calls or raised or got is not MISSING:
                chk.violation('a tampered cookie is deserialised' if calls else 'a tampered cookie is not absent', dict(name=name, original=v, tampered=x, got=repr(got), raised=raised))
        chk.bump('tampered cookies', len(bad))
        # other secrets; a cookie under another name; no secret at all
        for other in ['', 'x', 'K', b'k' * 3, '\x00', 'long ' * 29, 'another', b'\xff\x00', 'k ', ' k']:
            if not other or other == secret:
                continue
            raised, got, calls = rig.read('%s=%s' % (name, coded), name, other)
            chk.count()
            if calls or raised or got is not MISSING:
                chk.violation('a cookie is accepted under another secret', dict(secret=secret, other=other, got=repr(got), raised=raised))
        for other in ['other', name.upper(), name.title(), name + 'x', 'x' + name, '_' + name, name + '.']:
            if other == name:
                continue
            raised, got, calls = rig.read('%s=%s' % (other, coded), other, secret)
            chk.count()
            if raised or got is not MISSING:
                chk.violation('a signed cookie is read under another name', dict(name=name, other=other, got=repr(got), raised=raised))
        raised, got, calls = rig.read('%s=%s' % (name, coded), name)
        if calls or got != v:
            chk.violation('reading without the secret', dict(got=repr(got), calls=calls))
    # HMAC pads a short key with zero bytes and hashes a long one: such secrets cannot be told apart
    import hashlib
    for a, b in (('key', 'key\x00'), (b'q' * 65, hashlib.md5(b'q' * 65).digest())):
        v, coded = sign(rig, 'n', 'value', a)
        raised, got, calls = rig.read('n=%s' % coded, 'n', b)
        if calls or got is not MISSING:
            chk.violation('a cookie is accepted under another secret', dict(secret=a, other=b), signature='secrets that HMAC pads to one key')


def objects(chk, rig, rnd):
    vals = [None, 0, 1, -1.5, True, False, '', 'x', '\u20ac', b'', b'\x00\xff', [], (), {}, set(), frozenset({1}), [1, [2, [3, {'a': (None,)}]]], {'\u20ac': {'x': [b'1']}},
            datetime.datetime(2020, 1, 2, 3, 4, 5, 6), datetime.timedelta(1, 2, 3), decimal.Decimal('1.10'), fractions.Fraction(1, 3), Point(1, Point('\u20ac', None)), 10 ** 50,
            complex(1, 2), range(3), 'a' * 1500, list(range(300)), '\u20ac' * 900, {str(k): k for k in range(250)}, '!a?b', '"', ';', 'x; y="z"', '\x00\r\n', float('inf'), Ellipsis, int, slice(1, 2), bytearray(b'ab')]
    for obj in vals:
        for secret in ['s', b'\x00', '\u20ac secret', 'x' * 200, b'\xff' * 64]:
            name = rnd.choice(NAMES)
            v, coded = sign(rig, name, obj, secret)
            chk.count()
            if v is None:
                chk.violation('a value cannot be signed', dict(value=repr(obj), name=name, error=coded))
                continue
            raised, got, calls = rig.read('%s=%s; zz=1' % (name, coded), name, secret)
            if raised or got != obj or type(got) is not type(obj):
                chk.violation('a signed value is not read back', dict(name=name, value=repr(obj), secret=secret, cookie=coded, got=repr(got), raised=raised))


def check(chk):
    instrument()
    core.use_repo()
    rnd = chk.rnd
    rig = Rig()
    env = dict(MAXLEN=chk.pick(3, 4), MAXOPS=0, MAXRESP=0, MAXEDITS=0)
    m = chk.model('Cookies', dict(init='WInit', next='WNext', invariants=['RoundTrip', 'WEmit']), env=env, workers=8)
    values = [(text(e['v']), e['ctl']) for e in m.emitted]
    if len(values) > 25000:
        values = rnd.sample(values, 25000)
    for _ in range(chk.pick(1500, 15000)):
        s = ''.join(chr(rnd.choice([rnd.randrange(32, 127), rnd.randrange(128, 256), rnd.randrange(256, 0xd800), rnd.randrange(0xe000, 0x110000)])) if rnd.random() < .7 else
                    rnd.choice(['\\', '"', ';', '\\073', '\\"', ',', ' ', '=', '!', '?']) for _ in range(rnd.randint(0, 30)))
        values.append((s, any(ord(c) < 32 or ord(c) == 127 for c in s)))
    plain(chk, rig, rnd, values)
    chk.sample(dict(values=[v for v, c in values[-3:]]))
    jars(chk, rig, rnd)
    forgeries(chk, rig, rnd)
    tampering(chk, rig, rnd)
    objects(chk, rig, rnd)
    view_common.check(chk, 'C15', ('cookies', 'get_cookie', 'headers'), writes=('cookie', 'hdr'))
    chk.assumptions.append('signatures are taken to be one-to-one (HMAC); values with control characters may be refused when they are set; the reserved names of the cookie '
                           'attributes are refused by the standard library')
