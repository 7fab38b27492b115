"""C18: query strings and urlencoded bodies.  UrlEnc.tla writes pairs down in every style and enumerates raw strings;
the code parses them as query string, as body and as both."""
import time
from urllib.parse import urlencode, quote, quote_plus

from vf import core, wsgi, tlc
from checks import view_common

CTYPES = ['application/x-www-form-urlencoded', None, 'application/x-www-form-urlencoded; charset=UTF-8', 'APPLICATION/X-WWW-FORM-URLENCODED',
          '', 'text/plain']


def cps(s):
    return [ord(c) for c in s]


def text(v):
    return ''.join(map(chr, tlc.seq(v)))


class Rig:
    def __init__(self):
        ombott = core.use_repo()
        from ombott.request_pkg import Request
        self.Request = Request
        self.app = ombott.Ombott(dict(max_memfile_size=1 << 20))
        self.app.route('/q', 'ANY', self.handler)
        self.want = ()
        self.rnd = core.Rnd(1)
        self.seen = None

    def handler(self):
        rq = self.app.request
        self.seen = {}
        for name in self.want:
            box = getattr(rq, name)
            self.seen[name] = got = dict(box)
            if dict(box.copy()) != got:
                self.odd = 'a copy of %s: %r' % (name, box.copy())
            for k in list(got)[:20] + ['no_such_key']:          # the values as attributes
                if k.isidentifier() and not k.startswith('__') and not hasattr(dict, k) and getattr(box, k) != got.get(k):
                    self.odd = 'attribute %s of %s: %r' % (k, name, getattr(box, k))
        return 'ok'

    def serve(self, env, want):
        """The named containers as the handler sees them, or what went wrong."""
        self.want, self.seen, self.odd = want, None, ''
        wsgi.aside(self.rnd, env, query=False)
        r = wsgi.call(self.app, env)
        if r.exc is not None:
            return repr(r.exc), {}
        if r.code != 200:
            return r.status + ': ' + r.errors[-300:], {}
        return self.odd, self.seen


def shape(d):
    """A container as the specification reads it; a value that is neither text nor a list of texts is a fault of its own."""
    out = []
    for k, v in d.items():
        vs = v if isinstance(v, list) else [v]
        if type(k) is not str or not all(type(x) is str for x in vs):
            return None
        out.append([cps(k), [cps(x) for x in vs], isinstance(v, list)])
    return out


def expected(pairs):
    d = {}
    for k, v in pairs:
        d.setdefault(k, []).append(v)
    return {k: v if len(v) > 1 else v[0] for k, v in d.items()}


def ways(rig, rnd, raw, every):
    """(how, raised, containers) for a raw string: as query, as body under several content types, as both."""
    kinds = ['query', 'body', 'both', 'chunked', 'split']
    for how in kinds if every else [rnd.choice(kinds)]:
        data = raw.encode('latin1')
        if how == 'query':
            err, seen = rig.serve(wsgi.environ('/q', 'GET', query=raw), ('query', 'GET', 'params'))
        elif how == 'body':
            err, seen = rig.serve(wsgi.environ('/q', rnd.choice(['POST', 'PUT']), body=data, ctype=rnd.choice(CTYPES)), ('forms', 'POST', 'params'))
        elif how == 'chunked':
            k = rnd.randrange(len(data) + 1)
            st = wsgi.Stream(wsgi.encode_chunked([data[:k], data[k:]]))
            err, seen = rig.serve(wsgi.environ('/q', 'POST', stream=st, chunked=True, ctype=CTYPES[0]), ('forms', 'params'))
        elif how == 'split':
            st = wsgi.Stream(data, frag=lambda n: rnd.randint(1, n))
            err, seen = rig.serve(wsgi.environ('/q', 'POST', stream=st, cl=len(data), ctype=CTYPES[0]), ('POST', 'forms'))
        else:
            order = ['query', 'forms', 'params']
            rnd.shuffle(order)
            err, seen = rig.serve(wsgi.environ('/q', 'POST', query=raw, body=data, ctype=CTYPES[0]), order)
        yield how, err, seen


def compare(chk, what, rig, rnd, raw, exp, every=False):
    for how, err, seen in ways(rig, rnd, raw, every):
        chk.count()
        detail = dict(raw=raw, how=how, expected=exp)
        if err:
            chk.violation('parsing a raw string failed' if exp is None else 'parsing an encoding failed', dict(detail, error=err))
            continue
        for name, got in seen.items():
            if shape(got) is None:
                chk.violation('a value that is no text', dict(detail, container=name, got=got))
            elif exp is not None and got != exp:
                chk.violation(what, dict(detail, container=name, got=got))


def pieces(rnd):
    return rnd.choice([
        lambda: ''.join(rnd.choice('ab=&+% ;/?#"\'<>\\,.~*') for _ in range(rnd.randint(1, 5))),
        lambda: ''.join(chr(rnd.choice([rnd.randrange(128), rnd.randrange(0x80, 0x800), rnd.randrange(0x800, 0xd800), rnd.randrange(0xe000, 0x10000),
                                        rnd.randrange(0x10000, 0x110000)])) for _ in range(rnd.randint(1, 4))),
        lambda: rnd.choice(['a', 'b', 'self', 'k', '__class__', 'copy', 'items', '%41', '%', '%%', '+', '&', '=', '&amp;', ' ', '\x00', '\r\n', '\ufeff', 'a' * 40]),
        lambda: rnd.choice([' ', ' a', 'ab ', '&', '=', '+', '%', '\xe9', ';x']) * rnd.choice([9, 10, 17, 33, 70, 300]),
    ])()


def encode(rnd, pairs):
    how = rnd.randrange(5)
    if how == 0:
        return urlencode(pairs)
    if how == 1:
        return urlencode(pairs, quote_via=quote)
    if how == 2:
        return '&'.join('%s=%s' % (quote(k, safe="~!*'()/:;,@$?"), quote_plus(v, safe="/:=?;,")) for k, v in pairs)

    def esc(t):
        out = ''
        for c in t:
            if c.isalnum() and ord(c) < 128 and rnd.random() < .6:
                out += c
            elif c == ' ' and rnd.random() < .5:
                out += '+'
            else:
                out += ''.join(('%%%02x' if rnd.random() < .5 else '%%%02X') % b for b in c.encode('utf8'))
        return out
    return '&'.join(esc(k) + ('' if v == '' and how == 4 else '=' + esc(v)) for k, v in pairs)


def mutate(rnd, raw):
    s = list(raw)
    for _ in range(rnd.randint(1, 4)):
        k = rnd.randrange(len(s) + 1)
        w = rnd.randrange(3)
        if w == 0 or not s:
            s.insert(k, rnd.choice(['%', '&', '=', '+', '%f', '%zz', '&&', '==', '%C3', '\xe9', '%00', '%u20ac', ';', '\x00', '%25', '%ED%A0%80']))
        elif w == 1:
            del s[min(k, len(s) - 1)]
        else:
            s = s[:k]
    return ''.join(s)


def changed(chk, rnd, n):
    """The parsed containers follow the environ: reads and replacements of the query string in any order."""
    rig = Rig()
    ombott_env = lambda q, b: wsgi.environ('/q', 'POST', query=q, body=b, ctype=CTYPES[0])
    for _ in range(n):
        ps = [[(pieces(rnd), pieces(rnd)) for _ in range(rnd.randint(0, 3))] for _ in range(6)]
        q, b = ps[0], ps[1]
        trace = []

        def handler():
            nonlocal q
            rq = rig.app.request
            for _ in range(rnd.randint(2, 7)):
                op = rnd.choice(['query', 'forms', 'params', 'setq', 'query', 'params'])
                trace.append(op)
                if op == 'setq':
                    q = rnd.choice(ps)
                    rq['QUERY_STRING'] = urlencode(q)
                elif op == 'query':
                    got, exp = dict(rq.query), expected(q)
                elif op == 'forms':
                    got, exp = dict(rq.forms), expected(b)
                else:
                    got, exp = dict(rq.params), dict(expected(q), **expected(b))
                    if set(expected(q)) & set(expected(b)):
                        continue
                if op in ('query', 'forms', 'params') and got != exp:
                    bad.append((op, exp, got))
            return 'ok'
        bad = []
        rig.app.route('/c', 'POST', handler, overwrite=True)
        env = ombott_env(urlencode(q), urlencode(b).encode())
        env['PATH_INFO'] = '/c'
        r = wsgi.call(rig.app, env)
        chk.count()
        if r.exc or r.code != 200:
            chk.violation('reading the containers failed', dict(trace=trace, status=r.status, errors=r.errors[-500:]))
        for op, exp, got in bad:
            chk.violation('a container does not follow the environ', dict(trace=trace, container=op, expected=exp, got=got))


def check(chk):
    core.use_repo()
    rnd = chk.rnd
    rig = Rig()
    jobs = [('one', 1), ('two', 2), ('few', 3)]
    if chk.thorough:
        jobs = [('wide', 1), ('two', 2), ('few', 4)]
    k = 0
    for mode, n in jobs:
        r = chk.model('UrlEnc', dict(init='PInit', next='PNext', invariants=['RoundTrip', 'Plain', 'PEmit']),
                      env=dict(MODE=mode, MAXPAIRS=n, MAXLEN=0), workers=8)
        for e in r.emitted:
            exp = expected([(text(p[0]), text(p[1])) for p in e['p']])
            k += 1
            compare(chk, 'an encoding is parsed to other pairs', rig, rnd, text(e['s']), exp, every=k % 29 == 0)
        chk.sample(dict(mode=mode, raw=text(e['s']), parsed=exp))
    r = chk.model('UrlEnc', dict(init='RInit', next='RNext', invariants=['REmit', 'Sound']),
                  env=dict(MODE='raw', MAXPAIRS=0, MAXLEN=chk.pick(5, 6)), workers=8)
    for e in r.emitted:
        exp = expected([(text(p[0]), text(p[1])) for p in tlc.seq(e['p'])]) if e['e'] else None
        k += 1
        compare(chk, 'an encoding is parsed to other pairs', rig, rnd, text(e['s']), exp, every=k % 97 == 0)
        chk.bump('raw strings that are encodings' if e['e'] else 'raw strings for totality')
    # recordings of the code, judged by the specification
    items, det = [], []
    for _ in range(chk.pick(2500, 20000)):
        pairs = [(pieces(rnd), rnd.choice([pieces, pieces, lambda r: ''])(rnd)) for _ in range(rnd.randint(0, 6))]
        if len(pairs) > 1 and rnd.random() < .5:
            pairs[-1] = (pairs[0][0], pairs[-1][1])
            if len(pairs) > 3:
                pairs[2] = (pairs[0][0], pairs[2][1])
        raw, enc = encode(rnd, pairs), True
        if rnd.random() < .3:
            raw, enc = mutate(rnd, raw), False
        for how, err, seen in ways(rig, rnd, raw, rnd.random() < .1):
            for name, got in (seen or {'-': {}}).items():
                sh = shape(got)
                if sh is None:
                    chk.violation('a value that is no text', dict(raw=raw, how=how, got=got))
                    continue
                items.append(dict(raw=cps(raw), pairs=[[cps(a), cps(b)] for a, b in pairs], enc=enc, raised=err, got=sh))
                det.append((raw, how, name, pairs, got, err))
    for v, d in zip(chk.judge('UrlEnc', items, env=dict(MODE='judge', MAXPAIRS=0, MAXLEN=0)), det):
        chk.count()
        if v['why'].startswith('MACHINERY'):
            raise tlc.MachineryError('%s: %r' % (v['why'], d))
        if v['why']:
            chk.violation('recorded parse: ' + v['why'], dict(zip(('raw', 'how', 'container', 'pairs', 'got', 'error'), d)))
    # many pairs, many values of one key, long texts
    for pairs in ([('k%d' % j, 'v%d' % j) for j in range(5000)], [('k', str(j)) for j in range(3000)], [(rnd.choice('abc') * (j % 7 + 1), str(j)) for j in range(3000)],
                  [('a', '\u20ac ' * 20000), ('b', 'x' * 70000), ('a', '')], [('k' * 5000 + str(j % 2), 'v' * j) for j in range(40)]):
        compare(chk, 'an encoding is parsed to other pairs', rig, rnd, encode(rnd, pairs), expected(pairs), every=True)
    # long strings: totality and a time bound far above any reasonable parser
    for raw in ['&' * 60000, '=' * 60000, '%' * 60000, 'a&' * 20000, 'a=1&' * 10000, '%E9' * 20000, '+' * 60000, 'a' * 60000, '=&' * 20000]:
        t0 = time.time()
        compare(chk, '', rig, rnd, raw, None)
        chk.extra['longest parse of 60 kB (s)'] = round(max(chk.extra.get('longest parse of 60 kB (s)', 0), time.time() - t0), 2)
    changed(chk, rnd, chk.pick(400, 4000))
    view_common.check(chk, 'C18', ('query', 'qs', 'forms', 'POST', 'body', 'params'), writes=('query', 'in'))
    chk.assumptions.append('a raw string that is no encoding of pairs with non-empty keys only has to be parsed without raising')
