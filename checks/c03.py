"""C03: one well-formed WSGI response per request.  Programs of user code (handler, hooks, error handlers) come from
Wsgi.tla with their outcome; each is run on the real application behind an independent PEP 3333 gateway."""
import io
import json
import re

from vf import core, wsgi

TOK = {'s': 'ab', 'u': '\xe9\u20ac', 'b': b'\x00\xffz', 'es': '', 'eb': b'', 'no': None}
RAW = {'s': b'ab', 'u': '\xe9\u20ac'.encode('utf8'), 'b': b'\x00\xffz', 'es': b'', 'eb': b''}
STATUS = re.compile(r'[1-9][0-9][0-9] [^\x00-\x1f\x7f]*[^\x00-\x20\x7f][^\x00-\x1f\x7f]*\Z')
TOKEN = re.compile(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+\Z")
BADSTATUS = ['404', ' 404 Gone ', '200 OK ', '  201 Created', '200 OK\x85', 99, 1000, '+200 OK', '2_00 x', '200 OK\r\nX-Evil: y', '200 a\nb', 'abc def', '99 x', ' 404', '404 ', 200.0,
             '0200 OK', '\u0662\u0660\u0660 OK', '200 O\x00K', '1000 x', '-200 x', '', ' ', None, b'200 OK', '200 \u20ac', '200 \udc80', '200\tOK',
             '20 OK', '200 OK\x7f', '200\u00a0OK', '404\u2003x y', '200 a\x85b']


class Boom(Exception):
    pass


class Weird(Exception):
    def __repr__(self):
        raise RuntimeError('no repr')

    def __str__(self):
        raise RuntimeError('no str')


def some_error(rnd):
    return rnd.choice([lambda: Boom('x'), lambda: ValueError('<b>&'), lambda: KeyError('k'), lambda: Weird('w'), lambda: ZeroDivisionError(),
                       lambda: UnicodeEncodeError('utf8', '\udc80', 0, 1, 'bad'), lambda: Boom('\udc80 \u20ac \x00'), lambda: OSError(2, 'nope'),
                       lambda: AttributeError('a'), lambda: TypeError('t'), lambda: RecursionError('deep'), lambda: AssertionError()])()


class Track:
    def __init__(self):
        self.iters = {}      # id -> [produced, closes, has close]
        self.ev = []


def shut(rec):
    rec[1] += 1
    if rec[3:]:
        raise Boom('close')


class It:
    """An iterator over items; remembers whether it gave output."""

    def __init__(self, w, v, rec):
        self.w, self.v, self.rec, self.k = w, v, rec, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.k >= len(self.v['items']):
            raise StopIteration
        x = self.v['items'][self.k]
        self.k += 1
        return self.w.item(x, self.rec)


class ItC(It):
    def close(self):
        shut(self.rec)


class Box:
    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self.it


class BoxC(Box):
    def close(self):
        shut(self.it.rec)


def short(n, cap):
    """A read may give less than it was asked for."""
    return n if not cap or (n is not None and 0 <= n < cap) else cap


class Reader:
    def __init__(self, data, rec, cap=0):
        self.data, self.rec, self.cap = io.BytesIO(data), rec, cap

    def read(self, n=-1):
        out = self.data.read(short(n, self.cap))
        if out:
            self.rec[0] = True
        return out


class ReaderC(Reader):
    def close(self):
        shut(self.rec)


class BytesFile(io.BytesIO):
    def __init__(self, data, rec, cap=0):
        super().__init__(data)
        self.rec, self.cap = rec, cap

    def read(self, n=-1):
        out = super().read(short(n, self.cap))
        if out:
            self.rec[0] = True
        return out

    def close(self):
        super().close()
        shut(self.rec)


class FileWrapper:
    """The server's own wsgi.file_wrapper."""

    def __init__(self, f, size=3):
        self.f, self.size = f, size
        if hasattr(f, 'close'):
            self.close = f.close

    def __iter__(self):
        while True:
            d = self.f.read(self.size)
            if not d:
                return
            yield d


class World:
    def __init__(self, ombott, p, rnd):
        self.o, self.p, self.rnd = ombott, p, rnd
        self.t = Track()

    def item(self, x, rec):
        c = x['c']
        if c == 'r':
            raise some_error(self.rnd)
        if c == 'x':
            return self.rnd.choice([5, 2.5, object(), [1], {'a': 1}, ('b',), bytearray(b'x'), type])
        if c == 'Y':
            v = self.value(x['v'])
            if self.rnd.random() < .4:
                raise v
            return v
        if c in 'sub':
            rec[0] = True
        return TOK[c]

    def value(self, v):
        rnd, k = self.rnd, v['k']
        if k == 'none':
            return rnd.choice([None, False, '', b'', [], ()])
        if k == 'str':
            return TOK[v['t']]
        if k == 'bytes':
            return TOK[v['t']]
        if k == 'obj':
            return rnd.choice([5, True, 2.5, object(), len])
        if k == 'file':
            rec = self.t.iters.setdefault(v['id'], [False, 0, v['cl'], *self.angry])
            data = b''.join(RAW[x] for x in v['d'] or [])
            if not v['cl']:
                return Reader(data, rec, rnd.choice([0, 0, 1, 2, 5]))
            return rnd.choice([ReaderC, BytesFile])(data, rec, rnd.choice([0, 0, 1, 2, 5]))
        if k == 'resp':
            st = v['st']
            hd = {'Content-Length': '7'} if v['cl'] else {}
            if rnd.random() < .3:
                hd['X-One'] = rnd.choice(['a', '\u20ac'])
            if rnd.random() < .3:
                st = '%d Any Thing' % st
            if v['err']:
                b = rnd.choice(['text', '', None, '<i>\u20ac'])
                return self.o.HTTPError(st, b, headers=hd or None, exception=rnd.choice([None, Boom('e'), Weird('w')]), traceback=rnd.choice([None, 'tb']))
            return self.o.HTTPResponse(self.value(v['body']), st, headers=hd or None)
        if k == 'iter':
            items = v['items'] = v['items'] or []
            rec = self.t.iters.setdefault(v['id'], [False, 0, v['cl'], *self.angry])
            it = (ItC if v['cl'] else It)(self, v, rec)
            if v['cl']:
                return rnd.choice([it, BoxC(it)])
            plain = all(x['c'] not in ('r', 'Y') for x in items)
            if plain and items and rnd.random() < .6:
                return rnd.choice([list, tuple, iter])([TOK[x['c']] if x['c'] != 'x' else 5 for x in items])
            if rnd.random() < .5:
                return (x for x in it)
            return rnd.choice([it, Box(It(self, v, rec))])
        raise AssertionError(k)

    def act(self, a, given=None):
        if a['k'] == 'exc':
            raise some_error(self.rnd)
        if a['k'] == 'raise':
            raise self.value(a['v'])
        if a['k'] == 'self':
            return given
        if a['k'] == 'ret':
            return self.value(a['v'])

    def build(self):
        p, rnd, ev = self.p, self.rnd, self.t.ev
        cfg = dict(debug=True) if rnd.random() < .4 else None
        app = self.app = self.o.Ombott(cfg) if cfg else self.o.Ombott()

        def mk(kind, k, a):
            def hook():
                ev.append([kind, k])
                self.act(a)
            return hook
        for k, a in enumerate(p['before'] or []):
            app.add_hook('before_request', mk('before', k + 1, a)) if rnd.random() < .7 else app.on('before_request', mk('before', k + 1, a))
        for k, a in enumerate(p['after'] or []):
            app.add_hook('after_request', mk('after', k + 1, a)) if rnd.random() < .7 else app.on('after_request')(mk('after', k + 1, a))

        def mke(code, a):
            def handler(err):
                return self.act(a, err)
            return handler
        for code, a in p['eh'] or []:
            app.error(code)(mke(code, a))

        def handler():
            ev.append(['handler', 0])
            if p['st'] == -1:
                app.response.status = self.badstatus = rnd.choice(BADSTATUS)
            elif p['st']:
                app.response.status = p['st'] if rnd.random() < .6 else '%d Some Reason' % p['st']
            if p['ucl']:
                app.response.headers['Content-Length'] = '7'
            if p['badcs']:
                app.response.content_type = rnd.choice(['text/plain; charset=latin1', 'text/plain; charset=ascii'])
            for f in self.extra:
                f(app)
            return self.act(p['h'])
        app.route('/hit', 'ANY')(handler)
        app.route('/only', ['LINK', 'UNLINK'])(handler)
        self.path = {'hit': '/hit', '404': rnd.choice(['/', '/none', '/hit/x', '/\xc3\xa9']), '405': '/only'}[p['target']]

    extra = angry = ()


def gateway(w, chk):
    """Serve once, as a strict server.  -> (problem, code, headers, body, finished)"""
    rnd = w.rnd
    env = wsgi.environ(w.path, w.p['meth'])
    if rnd.random() < .3:
        env['wsgi.file_wrapper'] = FileWrapper
    if rnd.random() < .2:
        env['HTTP_ACCEPT'] = 'application/json'
    calls = []

    def start_response(status, headers, exc_info=None):
        calls.append((status, headers, exc_info))
        return lambda data: None
    it, body, broke = None, [], None
    try:
        with wsgi.deadline(20):
            it = w.app(env, start_response)
    except Exception as e:
        return 'escaped: %r' % e, 0, [], b'', None
    seen_call = None
    try:
        with wsgi.deadline(20):
            for chunk in it:
                if seen_call is None and chunk:
                    seen_call = len(calls)
                if type(chunk) is not bytes:
                    return 'body chunk %r' % (chunk,), 0, [], b'', None
                body.append(chunk)
    except Exception as e:
        broke = e
    finally:
        if hasattr(it, 'close'):
            try:
                it.close()
            except Boom:
                if not w.angry:
                    return 'close failed', 0, [], b'', None
    if len(calls) != 1:
        return 'start_response called %d times' % len(calls), 0, [], b'', None
    if seen_call == 0:
        return 'body before start_response', 0, [], b'', None
    status, headers, exc_info = calls[0]
    if type(status) is not str or not STATUS.match(status) or status != status.strip():
        return 'status line %r' % (status,), 0, [], b'', None
    try:
        status.encode('latin1')
    except UnicodeError:
        return 'status line %r' % (status,), 0, [], b'', None
    if type(headers) is not list:
        return 'header list is a %s' % type(headers), 0, [], b'', None
    for h in headers:
        if type(h) is not tuple or len(h) != 2 or type(h[0]) is not str or type(h[1]) is not str:
            return 'header %r' % (h,), 0, [], b'', None
        if not TOKEN.match(h[0]) or re.search('[\x00-\x08\x0a-\x1f\x7f]', h[1]):
            return 'header %r' % (h,), 0, [], b'', None
        try:
            h[1].encode('latin1')
        except UnicodeError:
            return 'header %r' % (h,), 0, [], b'', None
    return '', int(status[:3]), headers, b''.join(body), broke


def compare(p, r, w, out):
    """The first way the exchange differs from the specification's outcome, or ''."""
    problem, code, headers, body, broke = out
    if problem:
        return problem
    nobody = p['meth'].upper() == 'HEAD' or 100 <= code < 200 or code in (204, 304)
    if nobody and body:
        return 'a body with %s %d' % (p['meth'], code)
    lens = [v for k, v in headers if k.lower() == 'content-length']
    loose = r['fuzzy']
    if not loose and code != r['st']:
        return 'status %d instead of %d' % (code, r['st'])
    if broke is not None and not (r['mid'] and body) and not (loose and body):
        return 'the body raised %r' % broke
    if not nobody and broke is None:
        if lens and not r['ucl'] and not loose and lens != [str(len(body))]:
            return 'Content-Length %r for %d bytes' % (lens, len(body))
        toks = r['body'] or []
        if not loose:
            if toks == ['page']:
                if not body:
                    return 'empty error page'
            elif body != b''.join(RAW[t] for t in toks):
                return 'body %r instead of %r' % (body, toks)
    ev = [list(e) for e in r['ev'] or [] if e[0] != 'error']
    got = w.t.ev
    if not loose or not any(True for f in w.extra):
        tail = got[len(ev):]
        last_failed = bool(ev) and ev[-1][0] == 'after' and p['after'][ev[-1][1] - 1]['k'] != 'ok'
        if got[:len(ev)] != ev or (tail and not (last_failed and all(e[0] == 'after' for e in tail))):
            return 'hooks and handler ran as %r instead of %r' % (got, ev)
    for k, (produced, closes, cl, *_) in w.t.iters.items():
        if cl and closes > 1:
            return 'iterable %d closed %d times' % (k, closes)
        if cl and not closes and (produced if loose else k in (r['prod'] or [])):
            return 'iterable %d never closed' % k
    return ''


def run(chk, ombott, p, r, extra=(), angry=()):
    w = World(ombott, p, chk.rnd)
    w.extra, w.angry = extra, angry
    w.build()
    out = gateway(w, chk)
    if p['st'] == -1 and p['target'] == 'hit' and ['handler', 0] in w.t.ev:
        r = dict(r, fuzzy=True)
    if extra or angry:
        r = dict(r, fuzzy=True)
    bad = compare(p, r, w, out)
    if bad:
        chk.violation('C03 ' + bad[:100], dict(program=p, expected=r, problem=bad, code=out[1], headers=out[2], body=out[3][:200],
                                               bad_status=getattr(w, 'badstatus', '-'), debug=w.app.config.debug))


NAMES = ['bad\r\nname', 'bad name', 'x:y', '', 'n\x00', '\u20ac', 'caf\xe9']


def poison(rnd):
    """Something user code does to the response that must not make it malformed."""
    def cookie_attr(app):
        app.response.set_cookie('a', 'b', path=rnd.choice(['/\r\nX: y', '/;\n', '/\x00']))

    def cookie_val(app):
        app.response.set_cookie('a', rnd.choice(['x\r\ny', '\u20ac;\n', '\x00', '\udc80']))

    def header_val(app):
        app.response.headers['X-A'] = rnd.choice(['\udc80', 'a\r\nb', '\x00'])

    def header_name(app):
        app.response.headers[rnd.choice(NAMES)] = 'v'

    def ctype(app):
        app.response.content_type = rnd.choice(['text/html; charset=nope', 'text/html; charset=', 'charset=\udc80', 'text/html; charset=utf-16'])

    def clen(app):
        app.response.content_length = rnd.choice(['7', 'x', -1])
    return rnd.choice([cookie_attr, cookie_val, header_val, header_name, ctype])


def rand_value(rnd, depth, ids):
    k = rnd.random()
    if k < .3 or depth == 0:
        return rnd.choice([dict(k='none'), dict(k='str', t=rnd.choice(['s', 'u', 'es'])), dict(k='bytes', t=rnd.choice(['b', 'eb'])), dict(k='obj')])
    ids.append(len(ids) + 1)
    if k < .42:
        return dict(k='file', id=ids[-1], cl=rnd.random() < .7, d=[rnd.choice(['b', 's']) for _ in range(rnd.randrange(4))])
    if k < .7:
        return dict(k='resp', err=rnd.random() < .5, st=rnd.choice([200, 200, 404, 500, 405, 204, 304, 102, 418, 451, 999, 302]), cl=rnd.random() < .15,
                    body=rand_value(rnd, depth - 1, ids))
    me = ids[-1]
    items = [dict(c=rnd.choice(['es', 'eb', 'no'])) for _ in range(rnd.choice([0, 0, 1, 2, 5]))]
    f = rnd.choice(['s', 'u', 'b', 's', 'b', 'x', 'r', 'Y', ''])
    if f == 'Y':
        v = rand_value(rnd, depth - 1, ids)
        if v['k'] != 'resp':
            v = dict(k='resp', err=False, st=203, cl=False, body=v)
        items.append(dict(c='Y', v=v))
        items += [dict(c='s')] * rnd.randrange(2)
    elif f:
        items.append(dict(c=f))
        if f in 'sub':
            more = ['s', 'u', 'es'] if f in 'su' else ['b', 'eb']
            items += [dict(c=rnd.choice(more)) for _ in range(rnd.randrange(5))]
            if rnd.random() < .15:
                items.append(dict(c='r'))
    return dict(k='iter', id=me, cl=rnd.random() < .6, items=items)


def rand_act(rnd, ids, okay=.5, ret=True):
    k = rnd.random()
    if k < okay:
        return dict(k='ok') if not ret else dict(k='ret', v=rand_value(rnd, 3, ids))
    if k < okay + (1 - okay) / 2:
        return dict(k='exc')
    v = rand_value(rnd, 2, ids)
    if v['k'] != 'resp':
        v = dict(k='resp', err=rnd.random() < .5, st=rnd.choice([200, 201, 404, 500]), cl=False, body=v)
    return dict(k='raise', v=v)


def rand_program(rnd):
    ids = []
    eh = []
    for _ in range(rnd.choice([0, 0, 1, 2, 3])):
        c = rnd.choice([404, 405, 500, 418])
        if rnd.random() < .1:
            a = dict(k='self')
        else:
            a = rand_act(rnd, ids, .8)
            a = strip_errors(a)
        eh.append([c, a])
    return dict(meth=rnd.choice(['GET', 'get', 'HEAD', 'head', 'hEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'BREW', 'TRACE']),
                target=rnd.choice(['hit'] * 6 + ['404', '405']), before=[rand_act(rnd, ids, .85, False) for _ in range(rnd.choice([0, 0, 1, 3, 5]))],
                after=[rand_act(rnd, ids, .85, False) for _ in range(rnd.choice([0, 0, 1, 3, 5]))], h=rand_act(rnd, ids, .75), eh=eh,
                st=rnd.choice([0, 0, 0, 0, -1, 200, 201, 204, 304, 100, 150, 404]), ucl=rnd.random() < .12, badcs=rnd.random() < .12)


def strip_errors(x):
    """Error handlers that lead to further errors could loop: keep them to plain responses."""
    if isinstance(x, dict):
        y = {k: strip_errors(v) for k, v in x.items()}
        if 'items' in y:
            y['items'] = [i for i in y['items'] if i['c'] not in 'rx']
        if y.get('k') == 'resp' and y['err']:
            y['err'] = False
        if y.get('k') == 'obj':
            return dict(k='none')
        return y
    if isinstance(x, list):
        return [strip_errors(v) for v in x]
    return x


class Registry:
    """An application whose hooks come and go between (and during) its requests."""

    def __init__(self, ombott):
        self.app = app = ombott.Ombott()
        self.log, self.hooks = [], {}
        app.route('/hit', 'ANY')(lambda: self.log.append(0) or 'ok')

    def do(self, o, alt):
        app, op, name = self.app, o['op'], o['op'] + '_request'
        if op in ('before', 'after'):
            def hook():
                self.log.append(o['id'])
                if o['mode'] == 'once':
                    app.remove_hook(name, hook)
                if o['mode'] == 'fail':
                    raise Boom('hook')
            self.hooks[o['id']] = (name, hook)
            if alt % 3 == 0:
                app.add_hook(name, hook)
            elif alt % 3 == 1:
                app.on(name, hook)
            else:
                app.on(name)(hook)
        elif op == 'remove':
            app.remove_hook(*self.hooks[o['id']])
        else:
            del self.log[:]
            r = wsgi.call(app, wsgi.environ('/hit' if o['mode'] == 'hit' else '/miss', 'GET' if alt % 2 else 'POST'))
            return dict(code=r.code if r.exc is None else repr(r.exc), log=list(self.log))


def registry(chk, ombott):
    """Hooks over the life of an application (HookRegistry.tla)."""
    rnd = chk.rnd
    E = dict(DEPTH=chk.pick(4, 6))
    g = chk.model('HookRegistry', dict(init='Init', next='Next', invariants=['Ordered', 'Emit']), env=E, workers=8, timeout=3000, heap='6g')
    cases = [(c['ops'], c['res'] or []) for c in g.emitted]
    rand = []
    for _ in range(chk.pick(600, 8000)):
        ops, live = [], []
        for _ in range(rnd.choice([5, 10, 25])):
            k = rnd.random()
            if k < .45 and len(live) < 8:
                live.append(len(ops) + 1)
                ops.append(dict(op=rnd.choice(['before', 'after']), id=live[-1], mode=rnd.choice(['keep', 'keep', 'once', 'once', 'fail'])))
            elif k < .6 and live:
                ops.append(dict(op='remove', id=live.pop(rnd.randrange(len(live))), mode=''))
            else:
                ops.append(dict(op='serve', id=0, mode=rnd.choice(['hit', 'hit', 'miss'])))
        rand.append(ops)
    for ops, v in zip(rand, chk.judge('HookRegistry', [dict(ops=o) for o in rand], env=E)):
        cases.append((ops, v['r'] or []))
    for ops, res in cases:
        w, k = Registry(ombott), 0
        for j, o in enumerate(ops):
            got = w.do(o, rnd.randrange(6))
            if got is None:
                continue
            want, k = res[k], k + 1
            hooks = [x for x in want['log'] or [] if x]
            # what follows a failing after-hook is not specified
            cut = len(want['log'] or [])
            after_failed = hooks and want['code'] == 500 and want['log'][-1] == hooks[-1] and w.hooks[hooks[-1]][0] == 'after_request'
            seen = got['log'][:cut] if after_failed else got['log']
            if seen != list(want['log'] or []) or got['code'] != want['code']:
                chk.violation('C03 hooks run differently in request %d of an application' % k, dict(ops=ops[:j + 1], got=got, want=want))
                break
            if after_failed:
                break                 # whether later once-hooks ran is open
    return len(cases)


def check(chk):
    ombott = core.use_repo()
    rnd = chk.rnd
    n = registry(chk, ombott)
    for part in (1, 2, 3):
        E = dict(ILEN=chk.pick(2, 3), PART=part)
        g = chk.model('Wsgi', dict(init='Init', next='Next', invariants=['OnceStarted', 'Suppressed', 'Lengths', 'ClosedOnce', 'Hooks', 'Emit']),
                      env=E, workers=8, timeout=3000, heap='6g')
        for c in g.emitted:
            for _ in range(chk.pick(1, 3)):
                run(chk, ombott, c['p'], c['r'])
                n += 1
    E = dict(ILEN=1, PART=1)
    progs = [rand_program(rnd) for _ in range(chk.pick(5000, 60000))]
    for k in range(chk.pick(12, 100)):           # bodies of thousands of pieces
        p = rand_program(rnd)
        f = 'sub'[k % 3]
        more = ['s', 'u', 'es'] if f in 'su' else ['b', 'b', 'eb']
        items = [dict(c='es')] * rnd.choice([0, 1, 70, 300]) + [dict(c=f)] + [dict(c=rnd.choice(more)) for _ in range(rnd.choice([254, 999, 1000, 1023, 1500, 2600]))]
        if rnd.random() < .2:
            items.append(dict(c='r'))
        v = dict(k='iter', id=50, cl=rnd.random() < .6, items=items)
        if rnd.random() < .3:
            v = dict(k='resp', err=False, st=rnd.choice([200, 404]), cl=False, body=v)
        progs.append(dict(p, h=dict(k='ret', v=v), target='hit', before=[], after=[], badcs=False, st=rnd.choice([0, 200, 404]), meth=rnd.choice(['GET', 'POST', 'GET', 'HEAD'])))
    for p, v in zip(progs, chk.judge('Wsgi', progs, env=E)):
        run(chk, ombott, p, v['r'], (poison(rnd),) if rnd.random() < .15 else (), ('angry',) if rnd.random() < .1 else ())
        n += 1
    for p in progs[:3]:
        chk.sample(json.dumps(p)[:400])
    chk.count(n)
