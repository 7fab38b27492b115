"""C20: error pages.  Texts come from ErrorPage.tla, ride in the path, the query string and the Host of requests that fail in
every way the framework reports itself, and the pages are read by the specification's browser and JSON machines."""
import json
import re

from vf import core, wsgi, tlc

ENV = dict(MAXLEN=0)
MARKS = 'pqhs'
WORD = 'neutral'
NASTY = ['<script>alert(1)</script>', '"><img src=x onerror=alert(1)>', "'><svg/onload=1>", '</title><script>', '</tt></p><b>', '<!--', '-->', ']]>', '<![CDATA[', '{e}', '{e.status}', '{0}', '{', '}', '{{', '}}',
         '{url}', '{e.__class__.__init__.__globals__}', '{url!r:>99999}', '%s', '%(x)s', '%', '%3Cscript%3E', '%3cb%3e', '&lt;script&gt;', '&amp;lt;', '&#60;b&#62;', '&#x3c;', '&', '&&', 'a=1&b=2', '&copy', '\\', '\\u003cb\\u003e',
         '\\x3cb', '"', "'", '"\'', '\'"', '`', '\t', '\x00', '\x0b<', '\x7f', '\x85', '\xa0', '\xad', '\xff', '\u2028', '\u20ac<', '\ufeff<b>', '\uff1cscript\uff1e', '\U0001f600<', '$x', '${x}', '#{x}', '<%= 1 %>',
         '<?php', '</style><b>', '<style>', '<style', '</style', '<plaintext>', 'javascript:alert(1)', '\r\n<b>', '\n<style>\n', ' <style type="text/css">', '<' * 50, '<' * 130, '<b>' * 400, '"<' * 1100, '&' * 50, '<a href="x\'y">', '+<+', ';<', '//<', '?<', '#<b>']


class Broken:
    def __repr__(self):
        raise ValueError('no repr')


class BadRepr(Exception):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<BadRepr %s>' % self.t

    __str__ = __repr__


class Rig:
    """Applications whose handlers fail; `kinds` maps a name to (path prefix, method, environ extras)."""

    def __init__(self):
        import ombott
        self.o = o = ombott
        self.kinds = {}
        self.apps = dict(plain=o.Ombott(), default=o.default_app(), limits=o.Ombott(dict(max_body_size=64, max_memfile_size=32)), hooks=o.Ombott(), bare=o.Ombott(dict(errors_map={})),
                         after=o.Ombott(), custom=o.Ombott(), script=o.Ombott(dict(allow_x_script_name=True)), bounce=o.Ombott(), nocatch=o.Ombott(dict(catchall=True, debug=False)))
        for name, app in self.apps.items():
            self.fill(name, app)

    def text(self, app):
        r = app.request
        return '%s ? %s @ %s' % (r.path, r.query_string, r.get('HTTP_HOST'))

    def fill(self, name, app):
        o, T = self.o, self.text

        def add(kind, f, method='GET', route=True, path=None, **extra):
            key = '%s/%s' % (name, kind)
            p = path or '/vf-c20-%s-%s/' % (name, kind)
            if route:
                app.route(p + '<x:path>', 'POST' if kind == 'm405' else method, lambda x: f(), overwrite=True)
            self.kinds[key] = (app, p, method, extra)

        def boom(exc):
            raise exc

        def gen(exc):
            if exc:
                raise exc
            yield 'x'

        def noisy():
            app.response.headers['X-A'] = '\udc00'
            return 'x'

        def bad_status():
            app.response.headers.dict['X'] = None
            return 'x'
        add('m404', None, route=False)
        add('m405', None)
        add('path', lambda: 'x', route=False)
        add('raise', lambda: boom(ValueError(T(app))))
        add('repr', lambda: boom(BadRepr(T(app))))
        if name in ('limits', 'bare', 'plain'):
            add('forms', lambda: str(app.request.forms), 'POST', body=b'--x\r\nContent-Disposition: form-data; name="<b>"\r\n\r\n<b>', ctype='multipart/form-data; boundary=x')
            add('chunk', lambda: app.request.body.read(), 'POST', body=b'5\r\n<b>', chunked=True)
            add('json', lambda: str(app.request.json), 'POST', body=b'{"<b>": <b>', ctype='application/json')
            add('large', lambda: app.request.body.read() and 'ok' * 0 or boom(KeyError(T(app))), 'POST', body=b'<b>' * 50)
        if name in ('limits', 'bare', 'after', 'hooks', 'bounce', 'custom', 'script'):
            if name == 'hooks':
                def before():
                    raise RuntimeError(T(app))
                app.add_hook('before_request', before)
            if name == 'after':
                def after():
                    raise RuntimeError(T(app))
                app.add_hook('after_request', after)
            if name == 'custom':
                app.error(404)(lambda e: boom(KeyError(T(app))))
                app.error(500)(lambda e: boom(KeyError(T(app))))
                app.error(405)(lambda e: 5)
                app.error(400)(lambda e: gen(ValueError(T(app))))
            if name == 'bounce':
                app.error(404)(lambda e: e)
                app.error(405)(lambda e: o.HTTPError(404, T(app)))
            return
        add('gen', lambda: gen(ValueError(T(app))))
        add('type', lambda: 5)
        add('types', lambda: [5])
        add('obj', lambda: [type(T(app), (), {})()])
        add('key', lambda: {}[T(app)])
        add('abort', lambda: o.abort(404, 'nothing at ' + T(app)))
        add('abort500', lambda: o.abort(500, T(app)))
        add('error', lambda: boom(o.HTTPError(403, T(app), ValueError(T(app)), T(app))))
        add('returned', lambda: o.HTTPError(410, 'gone: ' + T(app)))
        add('exception', lambda: o.HTTPError(500, 'x', Broken(), None))
        add('static', lambda: o.static_file(app.request.path, '/nonexistent'))
        add('static2', lambda: o.static_file('../../' + app.request.path, '/nonexistent'))
        add('surrogate', noisy)
        add('broken', bad_status)
        add('bytesbody', lambda: o.HTTPError(400, T(app).encode()))
        add('objbody', lambda: o.HTTPError(400, Broken()))
        add('nobody', lambda: o.HTTPError(400))
        add('listbody', lambda: o.HTTPError(400, [T(app)]))
        add('tb', lambda: o.HTTPError(400, 'x', traceback=BadRepr(T(app))))
        add('late', lambda: iter([o.HTTPError(409, T(app))]))
        add('enc', self.enc(app))

    def enc(self, app):
        def f():
            app.response.content_type = 'text/plain; charset=nonsense'
            return '\u20ac'
        return f

    def ask(self, key, texts, accept=None, method=None, proto=None):
        app, path, meth, extra = self.kinds[key]
        extra = dict(extra)
        mark = {k: 'Q%sA%sQ%sZ' % (k, t, k) for k, t in texts.items()}
        p = path + mark.get('p', 'x')
        wire = p.encode('utf8', 'surrogatepass').decode('latin1') + ('\xff' if key.endswith('/path') else '')
        env = wsgi.environ(wire, method or meth, mark.get('q', ''), **extra)
        if 'h' in mark:
            env['HTTP_HOST'] = mark['h']
            if proto == 'forwarded':
                env['HTTP_X_FORWARDED_HOST'] = mark['h']
        if 's' in mark:
            env['SCRIPT_NAME' if proto != 'header' else 'HTTP_X_SCRIPT_NAME'] = '/' + mark['s']
        if accept:
            env['HTTP_ACCEPT'] = accept
        return wsgi.call(app, env)


SEG = re.compile('Q([%s])A(.*?)Q\\1Z' % MARKS, re.S)
JSONISH = ['application/json', 'application/json, text/plain, */*', 'application/json;q=0.9', 'application/json; charset=utf-8']
HTMLISH = [None, None, 'text/html', '*/*', 'text/html,application/xhtml+xml,application/json;q=0.9,*/*;q=0.8', '']


def ctype(rep):
    v = rep.header('Content-Type')
    return v.split(';')[0].strip().lower() if v else ''


def cps(s):
    return [ord(c) for c in s]


def judge(chk, cases):
    items = [c[0] for c in cases]
    for k, (it, d) in zip(chk.judge('ErrorPage', items, env=ENV), cases):
        if k['why']:
            chk.violation('error page: ' + k['why'], d)


def check(chk):
    core.use_repo()
    rnd = chk.rnd
    rig = Rig()
    m = chk.model('ErrorPage', dict(init='Init', next='Next', invariants=['Inert', 'Faithful', 'Needed', 'JsonInert', 'Emit']), env=dict(MAXLEN=chk.pick(3, 4)), workers=8)
    texts = [''.join(map(chr, tlc.seq(e['t']))) for e in m.emitted if e['lt']]
    jm = chk.model('ErrorPage', dict(init='JModelInit', next='JModelNext', invariants=['JModelEmit'], properties=['Refused']), env=dict(MAXLEN=chk.pick(4, 5)), workers=8)
    for e in jm.emitted:
        t = ''.join(map(chr, tlc.seq(e['t'])))
        try:
            json.loads(t, parse_constant=lambda c: 1 / 0)
            ok = True
        except (ValueError, ZeroDivisionError):
            ok = False
        if ok != e['ok']:
            raise tlc.MachineryError('the JSON machine and the parser disagree on %r' % t)
    fates = {}
    neutral = {}

    def base(key, method, where, jsn, proto):
        k = (key, method, where, jsn, proto)
        if k not in neutral:
            neutral[k] = rig.ask(key, {w: WORD for w in where}, JSONISH[0] if jsn else None, method, proto)
        return neutral[k]
    cases = []
    keys = sorted(rig.kinds)
    plan = [(key, t, jsn) for key in keys for t in rnd.sample(NASTY, chk.pick(12, len(NASTY))) for jsn in (False, True)]
    plan += [(rnd.choice(keys), t, rnd.random() < .25) for t in (texts if len(texts) < chk.pick(2500, 20000) else rnd.sample(texts, chk.pick(2500, 20000)))]
    plan += [(rnd.choice(keys), ''.join(rnd.choice(NASTY) for _ in range(rnd.randrange(2, 5))), rnd.random() < .3) for _ in range(chk.pick(500, 5000))]
    rnd.shuffle(plan)
    for key, t, jsn in plan:
        where = tuple(sorted(rnd.sample(MARKS, rnd.choice([1, 1, 2, 3, 4]))))
        if rnd.random() < .8 and 'p' not in where:
            where = tuple(sorted(where + ('p',)))
        proto = rnd.choice([None, None, 'forwarded', 'header'])
        method = None
        if rnd.random() < .1 and rig.kinds[key][2] == 'GET':
            method = rnd.choice(['POST', 'DELETE', 'get', 'FOO'])
        if rnd.random() < .08:              # far into a long text
            t = rnd.choice('ab/') * rnd.choice([60, 130, 260, 600, 2100, 5000]) + t
        tx = {w: t if rnd.random() < .8 else rnd.choice(NASTY) for w in where}
        rep = rig.ask(key, tx, rnd.choice(JSONISH if jsn else HTMLISH), method, proto)
        ref = base(key, method, where, jsn, proto)
        chk.count()
        det = dict(kind=key, texts=tx, json=jsn, method=method, status=rep.status, body=repr(rep.body)[:1500], ctype=rep.header('Content-Type'))
        if rep.exc or ref.exc:
            chk.violation('no error page', dict(det, error=repr(rep.exc or ref.exc)))
            continue
        if rep.code != ref.code:
            # text in a place where it changes the fate of the request
            if rep.code < 400 or ref.code < 400:
                raise tlc.MachineryError('a request that was to fail: %r' % det)
            if rep.code != 404:
                chk.violation('another status for a request with another text', dict(det, neutral=ref.status))
                continue
            # a wildcard need not accept every text; what the application then shows is its page for unknown paths
            ref = base(key.split('/')[0] + '/m404', method, where, jsn, proto)
        fates[ref.code] = fates.get(ref.code, 0) + 1
        page = rep.body.decode('utf8', 'surrogateescape')
        if rep.code < 400:
            raise tlc.MachineryError('a request that was to fail: %r' % det)
        segs = [dict(text=cps(tx[k]), seen=cps(s)) for k, s in SEG.findall(page) if k in tx]
        cases.append((dict(json=jsn, page=cps(page), neutral=cps(ref.body.decode('utf8', 'surrogateescape')), segs=segs, ctype=ctype(rep), nctype=ctype(ref)), det))
        chk.bump('reflections', len(segs))
        if jsn:
            try:
                json.loads(page, parse_constant=lambda c: 1 / 0)
            except (ValueError, ZeroDivisionError):
                chk.violation('error page: not-json', det)
    judge(chk, cases)
    chk.extra['statuses'] = {str(k): v for k, v in fates.items()}
    chk.extra['kinds'] = len(keys)
    chk.sample(cases[0][1])
    if not chk.extra.get('reflections'):
        chk.assumptions.append('no page of this tree shows any request text')
    chk.assumptions += ['any "<" counts as markup, which is stricter than a browser', 'JSON is requested by an Accept header that starts with application/json']
