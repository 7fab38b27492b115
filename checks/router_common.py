"""Shared driver for the router properties (C01, C02, C11, C19)."""
from vf import core, wsgi

NAMES = {1: 'x', 2: 'y', 3: 'name', 4: 'id_2', 5: 'self', 6: 'z', 7: 'int', 8: 'path', 9: 're', 10: 'X', 11: '_', 12: 'class', 13: 'rex', 14: 'float',
         15: 'anonymous', 16: 'anon', 17: 'anon_0', 18: 'arg_0', 19: 'args', 20: 'kwargs', 21: '__x', 22: 'param1', 23: 'method', 24: 'ANY',
         25: 'route', 26: 'handler', 27: 'na\xefve', 28: 'None'}
IDS = list(NAMES)
# the filter table: (regular expression text, its atoms in Router.tla, sample texts)
SET = dict


def S(cs, lo=1, hi=1, neg=False):
    return dict(t='set', neg=neg, cs=[ord(c) for c in cs], lo=lo, hi=hi)


def D(lo=1, hi=1):
    return dict(t='set', neg=False, cs=[-1], lo=lo, hi=hi)


RES = [
    (r'[a-c]+', [S('abc', 1, 0)], ['a', 'abc', 'cc']),
    (r'to.', [S('t'), S('o'), S('\n', neg=True)], ['tom', 'to/', 'to1']),
    (r'\d+', [D(1, 0)], ['1', '42', '007', '\u0663']),
    (r'[^/]+', [S('/', 1, 0, True)], ['ab', 'x-1', '\r', '\xe9']),
    (r'a*', [S('a', 0, 0)], ['', 'a', 'aa']),
    (r'x?y', [S('x', 0, 1), S('y')], ['y', 'xy']),
    (r'b+(?=c)', [S('b', 1, 0), dict(t='ahead', cs=[ord('c')])], ['b', 'bb']),
    (r'[0-9]{2}', [S('0123456789', 2, 2)], ['12', '00']),
    (r'.+', [S('\n', 1, 0, True)], ['a/b', 'abc', '/']),
    (r'(?:ab)?c', [dict(t='opt', sub=[S('a'), S('b')]), S('c')], ['c', 'abc']),
    # near twins of the ones above: letter case, a quantifier, a blank, a class
    (r'[A-C]+', [S('ABC', 1, 0)], ['A', 'ABC', 'CC']),
    (r'[a-c]', [S('abc')], ['a', 'c']),
    (r'\D+', [dict(t='set', neg=True, cs=[-1], lo=1, hi=0)], ['ab', '/', '-.']),
    (r'a* ', [S('a', 0, 0), S(' ')], [' ', 'aa ']),
    (r' a*', [S(' '), S('a', 0, 0)], [' ', ' a']),
    (r'[^/]+?', [S('/', 1, 1, True)], ['a', '1']),
    # names of filters, and texts that run into one
    (r'int', [S('i'), S('n'), S('t')], ['int']),
    (r'x[0-9]{2}', [S('x'), S('0123456789', 2, 2)], ['x12', 'x00']),
]


def alts(*parts):
    """An alternation: (captured?, text before the group, its atoms, text behind it)."""
    return [dict(t='rex', alts=[dict(cap=c, pre=[ord(x) for x in a], grp=g, post=[ord(x) for x in b]) for c, a, g, b in parts])]


def word(t):
    return [S(c) for c in t]


RES += [
    (r'(foo)|(bar)|(baz)', alts((True, '', word('foo'), ''), (True, '', word('bar'), ''), (True, '', word('baz'), '')), ['foo', 'bar', 'baz']),
    (r'(foo)|(baz)|(bar)', alts((True, '', word('foo'), ''), (True, '', word('baz'), ''), (True, '', word('bar'), '')), ['foo', 'bar', 'baz']),
    (r'(a+)|b|(c)|(1)', alts((True, '', [S('a', 1, 0)], ''), (False, '', word('b'), ''), (True, '', word('c'), ''), (True, '', word('1'), '')), ['a', 'aa', 'b', 'c', '1']),
    (r'v([0-9])-|([^/]*)x|(/)', alts((True, 'v', [S('0123456789')], '-'), (True, '', [S('/', 0, 0, True)], 'x'), (True, '', word('/'), '')), ['v1-', 'v2-x', 'x', 'abx', '/']),
    (r'[0-9]{2}', alts((False, '', [S('0123456789', 2, 2)], '')), ['12', '00']),
]
REX = set(range(len(RES) - 4, len(RES) + 1))
FS = [r[1] for r in RES]
# wildcard filters used: 0 plain, -1 path, -2 int, -3 float, k = RES[k-1]
SAMPLES = {0: ['a', 'ab', 'x-1', '12', '\xe9', 'a b', '', 'q\rz', '\r', 'to'], -1: ['a', 'a/b', 'x/y/z', 'a//b', '\xe9/1'],
           -2: ['1', '-5', '007', '12', '\u0663', '-0', '123456789012345678901234567890', '+5', '1_0', '--5', ' 5', '5 ', '\u0665\u06f1', '\uff11', '\u0966'],
           -3: ['1', '1.5', '-0.25', '10.0', '1.', '3.1400', '1e5', '100000000000000000000', '0.00000001', '+1.5', '.5', '1_0.5', '1.5.2', 'inf', 'nan', '-.5']}
for _k, _r in enumerate(RES):
    SAMPLES[_k + 1] = _r[2]
LITS = list('abc') + ['/', '/', '/', '1', '-', '.', 'to', 'x', '\xe9', 'ab', '%', ' ', 'end', 'END', 'A', '+', '~', '\u20ac', '(', '$', '\\']


def lit(text):
    return [[0, ord(c), 0] for c in text]


def wild(name, f):
    return [[1, name, f]]


def render(items, rnd, bare=True, flavour=None):
    """A rule text for the items, in a random syntax flavour."""
    out = '/'
    n = len(items)
    for k, (w, a, f) in enumerate(items):
        if not w:
            out += chr(a)
            continue
        if w == 2:
            continue
        name = NAMES[a] if a else ''
        nxt = items[k + 1] if k + 1 < n else None
        op, cl = rnd.choice(['<>', '{}'])
        if f == 0:
            opts = []
            if name:
                opts += [op + name + cl] * 2
                if nxt is None or (nxt[0] == 0 and nxt[1] == 47):
                    opts += [':' + name] * 2
            elif nxt is None:
                opts.append(':')
            else:
                opts.append('<x>')   # no anonymous spelling here
            out += rnd.choice(opts)
            continue
        rex = f > 0 and RES[f - 1][1][0]['t'] == 'rex'
        kind = {-1: 'path', -2: 'int', -3: 'float'}.get(f, 'rex' if rex else 're')
        sel = '[%d]' % nxt[1] if rex and nxt and nxt[0] == 2 else ''
        arg = RES[f - 1][0] if f > 0 else None
        opts = []
        if arg is None:
            if f == -1 or bare:
                opts += ['%s:%s' % (name, kind)]
            if f == -1 or not bare:
                opts += ['%s:%s()' % (name, kind)]
                if name:
                    opts += ['%s.%s()' % (name, kind)]
                else:
                    opts += ['%s()' % kind]
            if (f == -1 or bare) and name:
                opts += ['%s.%s' % (name, kind)]
        else:
            opts += ['%s:%s(%s)' % (name, kind, arg) + sel]
            if cl not in arg and not sel:
                opts += ['%s:%s:%s' % (name, kind, arg)]
            if name:
                opts += ['%s.%s(%s)' % (name, kind, arg) + sel]
            else:
                opts += ['%s(%s)' % (kind, arg) + sel]
        out += op + rnd.choice(opts) + cl
    return out


def rand_items(rnd, maxseg=5, anon=.15, filters=(0, 0, 0, 0, 0, -1, -1, -2, -2, -3, -3, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 12, 13, 14, 15, 16, 17, 18, 18, 19, 19, 20, 21, 21, 22, 23, 23), used=None):
    out = []
    free = IDS[:]
    rnd.shuffle(free)
    for _ in range(rnd.randrange(0, maxseg + 1)):
        if rnd.random() < .58 or len(free) < 2:
            out += lit(rnd.choice(LITS))
        else:
            f = rnd.choice(filters)
            anonymous = rnd.random() < anon and f != 0
            out += wild(0 if anonymous else free.pop(), f)
            if f in REX and rnd.random() < .6:
                out += [[2, rnd.choice([1, 2, 2, 3]), 0]]
            if f in (-2, -3, 3) and rnd.random() < .3:      # text that could be taken for more of the number
                out += lit(rnd.choice(['.', '-', '.html', '.5', '1', '-1', 'e5', '.']))
    while out and out[0][:2] == [0, 47]:
        out.pop(0)
    while out and out[-1][:2] == [0, 47]:
        out.pop()
    return out


def rule_family(rnd, n, anon=.15):
    """Rules sharing prefixes with one another."""
    base = []
    for _ in range(n):
        k = rnd.random()
        if base and k < .65:
            b = rnd.choice(base)
            cut = rnd.randrange(len(b) + 1)
            it = b[:cut] + rand_items(rnd, 3, anon)
            if rnd.random() < .25 and cut < len(b):   # a sibling of one position
                it = b[:cut] + (lit(rnd.choice('abc1/')) if rnd.random() < .6 else wild(6, rnd.choice([0, -2, 1, 3]))) + b[cut + 1:]
        elif base and k < .75:
            it = [x[:] for x in rnd.choice(base)]     # same pattern, other names
            free = IDS[:]
            rnd.shuffle(free)
            it = [[w, free.pop() if a and free else a, f] if w == 1 else [w, a, f] for w, a, f in it]
        else:
            it = rand_items(rnd, 5, anon)
        seen = set()
        fixed = []
        for w, a, f in it:                            # names are distinct within a rule
            if w == 2 and not (fixed and fixed[-1][0] == 1 and fixed[-1][2] in REX):
                continue
            if w == 1 and a:
                if a in seen:
                    a = next((x for x in IDS if x not in seen), 0)
                    if a == 0 and f == 0:
                        continue
                if a:
                    seen.add(a)
            fixed.append([w, a, f])
        it = fixed
        while it and it[0][:2] == [0, 47]:
            it = it[1:]
        while it and it[-1][:2] == [0, 47]:
            it = it[:-1]
        # an anonymous plain wildcard can only be written at the end
        it = [x if not (x[0] == 1 and x[1] == 0 and x[2] == 0 and k < len(it) - 1) else [0, 97, 0] for k, x in enumerate(it)]
        base.append(it)
    return base


def long_family(rnd):
    """Rules of many wildcards, rules that make the search step back many times, many rules under one prefix."""
    kind = rnd.randrange(3)
    if kind == 0:
        out = []
        for _ in range(rnd.choice([1, 2, 3])):
            free = IDS[:]
            rnd.shuffle(free)
            it = []
            for _ in range(rnd.choice([9, 10, 13, 17, 24])):
                it += wild(free.pop(), rnd.choice([0, 0, 0, -2, 1])) + lit('/' if rnd.random() < .9 else '/-/')
            out.append(it[:-1])
        return out
    if kind == 1:
        depth = rnd.randrange(7, 15)
        out = [lit('a/' * depth + 'b')]
        for j in sorted({0, 1, *rnd.sample(range(depth), rnd.choice([4, 6, depth]))}):
            out.append(lit('a/' * j) + wild(1, rnd.choice([0, 0, 1])) + lit('/a' * rnd.choice([depth - j, depth - j - 1, 1]) + '/' + rnd.choice('cd')))
        if rnd.random() < .4:
            out.append(wild(2, -1) + lit('/x'))
        return out
    pre = rnd.choice(['p', 'p/', 'ab/c'])
    ends = ['%s%s' % (a, b) for a in 'abcdefgh' for b in ['', 'a', '/x', '1', '/y/z']]
    return [lit(pre + e) if k % 4 else lit(pre + e + '/') + wild(1, 0) for k, e in enumerate(rnd.sample(ends, rnd.randrange(22, 36)))]


def long_path(rnd, rules):
    """An instance of a rule with the text that other rules have at its wildcards."""
    return '/' + ''.join((rnd.choice('aaab') if f in (0, 1) else '1' if f == -2 else 'a/a') if w else chr(a) for w, a, f in rnd.choice(rules))


LONG = {0: ['a'], -1: ['a', '/a', 'a/b'], -2: ['1', '0'], -3: ['0', '3'], 1: ['a', 'bc'], 3: ['1'], 4: ['-', 'ab'], 5: ['a'], 9: ['x/']}


def rand_path(rnd, rules):
    """A path near the rules: an instance of one, possibly damaged, or anything."""
    k = rnd.random()
    if rules and k < .85:
        it = rnd.choice(rules)
        out = ''
        for w, a, f in it:
            if not w:
                out += chr(a)
            elif w == 1 and f in LONG and rnd.random() < .02:
                out += rnd.choice(LONG[f]) * rnd.choice([40, 130, 260, 300])
            elif w == 1:
                out += rnd.choice(SAMPLES[f]) if rnd.random() < .85 else rnd.choice(SAMPLES[rnd.choice(list(SAMPLES))])
        if rnd.random() < .3 and out:
            p = rnd.randrange(len(out))
            out = out[:p] + rnd.choice(['', '/', 'a', '1', '\r', '\n', '\xe9', '//', '-', 'c']) + out[p + rnd.randrange(2):]
        if rnd.random() < .12:
            out += rnd.choice(['/', '//', 'a', '\n', '/a'])
    else:
        out = ''.join(rnd.choice(['a', 'b', '/', '1', '\r', '\xe9', 'to', '-', '.', 'c']) for _ in range(rnd.randrange(7)))
    return '/' + out


def conv(f, text):
    if f == -2:
        return int(text)
    if f == -3:
        return float(text)
    return text


def same(a, b):
    return type(a) is type(b) and (a == b or (a != a and b != b))


def text(codes):
    return ''.join(map(chr, codes or []))


def wild_filters(pat):
    return [x[1] for x in (pat or []) if x[0] == 1]


def expected_kwargs(a):
    fl = wild_filters(a['pat'])
    out = {}
    for n, f, v in zip(a['names'] or [], fl, a['vals'] or []):
        if n:
            out[NAMES[n]] = conv(f, text(v))
    return out


def kw_equal(got, want):
    return set(got) == set(want) and all(same(got[k], want[k]) for k in want)


CANDS = {'HEAD': ['HEAD', 'GET', 'ANY']}


def cands(verb):
    return CANDS.get(verb, [verb, 'ANY'])


def codes(s):
    return [ord(c) for c in s]


def upper_codes(ms):
    return [codes(m) for m in ms]


class Handler:
    """A handler that records the keyword arguments it was called with."""

    def __init__(self, hid, log=None):
        self.hid = hid
        self.log = log
        self.__qualname__ = 'h%d' % hid
        self.__name__ = 'h%d' % hid

    def __call__(*a, **kw):            # a wildcard may be called 'self'
        self, *a = a
        if self.log is not None:
            self.log.append(('call', self.hid, a, kw))
        return 'h%d' % self.hid


def latin(path):
    return path.encode('utf8').decode('latin1')


def key(items):
    """A rule without its wildcard names."""
    return tuple((w, 0 if w == 1 else a, f) for w, a, f in items)


def canon(obj):
    """A structural fingerprint of any object graph (used only to merge equal code states)."""
    memo = {}
    keep = []

    def walk(x):
        if x is None or isinstance(x, (str, int, float, bool, bytes)):
            return x
        if id(x) in memo:
            return ('ref', memo[id(x)])
        memo[id(x)] = len(memo)
        keep.append(x)
        if isinstance(x, Handler):
            return ('h', x.hid)
        if isinstance(x, (list, tuple)):
            return (type(x).__name__,) + tuple(walk(y) for y in x)
        if isinstance(x, dict):
            return ('d',) + tuple((walk(k), walk(v)) for k, v in x.items())
        if isinstance(x, (set, frozenset)):
            return ('s',) + tuple(sorted(map(repr, x)))
        if callable(x) and hasattr(x, '__code__'):
            return ('f', id(x))
        names = set(getattr(x, '__dict__', ()))
        for c in type(x).__mro__:
            sl = getattr(c, '__slots__', ())
            names.update([sl] if isinstance(sl, str) else sl)
        if not names:
            return ('o', id(x))
        return (type(x).__name__,) + tuple((n, walk(getattr(x, n, None))) for n in sorted(names) if n != '__weakref__')
    return walk(obj)
