"""C16: static_file never leaves its root.  Names and roots come from StaticPath.tla; the code runs over a real tree in a
scratch directory with decoys around the root, and every path handed to open() is recorded."""
import mimetypes
import os
import shutil
import sys
import tempfile

from vf import core, wsgi, tlc

FILES = ['f', 'rf', 'R/f', 'RA/f', 'a/f', 'ra/f', 'ra/a/f', 'r/f', 'r/a/f', 'r/a/r', 'r/r\\f']
ROOTS = ['r', 'r/a', 'a', 'x', 'w']
# names inside the root 'w' that lead out of it when somebody decodes, expands, folds or trims them
TWINS = ['\uff0e\uff0e\uff0frf', '\uff0e\uff0e/rf', '..%2frf', '%2e%2e%2frf', '%2e%2e/rf', '..%5crf', '..\\rf', '$VF16UP/rf', '${VF16UP}/rf', '%VF16UP%/rf', '.. /rf', ' ../rf',
         '..;/rf', '..\u2215rf', '\u2025/rf', '..\n/rf', '..\t/rf', '\ufeff../rf', '..\u200b/rf', '~/rf', '&#46;&#46;/rf', '..&#47;rf', '..+/rf', '.\u0307.\u0307/rf', '"../rf"', '..#/rf', '..?/rf',
         '\xe0\x80\xae\xe0\x80\xae/rf', '..%00/rf', '.../rf', '..../rf', '..:/rf', '\u2024\u2024/rf', '..=2Frf']
# names of every sort: outside the root they are denied, inside it they are served
SORTS = ['.hidden', '.git/config', '.htaccess', 'f.css', 'f.js', 'f.html', 'f.txt', 'f.py', 'favicon.ico', 'robots.txt', 'index.html', 'static/f.css', 'public/f', '.well-known/f', 'f.tar.gz', 'F', 'f~', 'f.', 'a b', 'a+b', 'a%20b',
         'f;v=1', 'f,1', 'f@2x.png', "it's", 'f&g', 'f=1', 'f?v=1', 'f#x', 'f:x', '-f', '0', 'caf\xe9', '\u20ac.png', '\U0001f600', 'x' * 200, '/'.join(['d' * 120] * 12) + '/f', 'd/' * 150 + 'f', '....x', '.f.', 'w', 'f.json', 'f.svg', 'f.jpg', 'f.gz', 'assets/js/f.min.js']

_rec = dict(on=False, seen=[], installed=False)


def hook(event, args):
    if _rec['on'] and event in ('open', 'os.open') and args and isinstance(args[0], (str, bytes, os.PathLike)):
        p = os.fspath(args[0])
        _rec['seen'].append(os.fsdecode(p) if isinstance(p, bytes) else p)


class Tree:
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix='vf-', dir='/tmp')
        for f in FILES + ['w/' + f for f in TWINS + SORTS] + ['s/' + f for f in SORTS] + ['w-s/' + f for f in SORTS[:20]]:
            p = os.path.join(self.base, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as h:
                h.write('content of ' + f)
        self.v = os.path.basename(self.base)
        ombott = core.use_repo()
        self.app = ombott.default_app()
        self.static = ombott.static_file
        self.app.route('/vf-c16', ['GET', 'HEAD'], self.handler, overwrite=True)
        self.app.route('/vf-c16/<name:path>', ['GET', 'HEAD'], lambda name: self.handler(name), overwrite=True)
        if not _rec['installed']:
            mimetypes.init()
            sys.addaudithook(hook)
            _rec['installed'] = True
        self.allowed = tuple(os.path.realpath(p) + os.sep for p in (sys.prefix, sys.base_prefix, core.REPO, os.path.dirname(os.__file__))) + \
            tuple(mimetypes.knownfiles)

    def remove(self):
        os.chdir('/')
        shutil.rmtree(self.base, ignore_errors=True)

    def handler(self, name=None):
        _rec['on'] = True
        try:
            return self.static(self.name if name is None else name, self.root, **self.kw)
        finally:
            _rec['on'] = False

    def render(self, chars):
        return ''.join({'t': 'tmp', 'v': self.v}.get(c, c) for c in chars)

    def chars(self, path):
        """Segments of an absolute path in the specification's letters."""
        out = []
        for k, seg in enumerate(p for p in path.split('/') if p):
            out.append(['t'] if seg == 'tmp' and k == 0 else ['v'] if seg == self.v and k == 1 else list(seg))
        return out

    def forms(self, k):
        rel = ROOTS[k]
        b = os.path.join(self.base, rel)
        return [b, b + '/', b + '//', './' + rel, rel, rel + '/', '../' + self.v + '/' + rel, self.base + '/ra/../' + rel, b + '/.', '/' + b, b + '/q/..',
                self.base + '//' + rel]

    def run(self, name, root, method='GET', kw=None, url=False, headers=None):
        self.name, self.root, self.kw = name, root, kw or {}
        _rec['seen'] = []
        path = '/vf-c16' + ('/' + name.encode('utf8', 'surrogatepass').decode('latin1') if url else '')
        env = wsgi.environ(path, method, headers=headers)
        r = wsgi.call(self.app, env)
        opened = []
        for p in _rec['seen']:
            p = '/' + os.path.abspath(os.path.join(self.base, p)).lstrip('/')
            if not p.startswith(self.allowed):
                opened.append(p)
        served = None
        text = r.body.decode('utf8', 'replace')
        if r.code in (200, 206) and method == 'GET':
            served = text[11:] if text.startswith('content of ') else '?'
        return r, opened, served


def verdict(chk, t, where, r, opened, served, expect, straight, k, method, headers):
    """expect: file (relative to the base) that may be served, or None."""
    inside = os.path.join(t.base, ROOTS[k]) + os.sep
    bad = None
    if any(not p.startswith(inside) for p in opened):
        bad = 'a file outside the root was opened'
    elif r.exc is not None:
        bad = 'static_file failed'
    elif expect is None and r.code not in (403, 404):
        bad = 'a name outside the root is not denied'
    elif served is not None and served != expect:
        bad = 'another file was served'
    elif expect is not None and straight and not t.root.startswith('//') and not headers and r.code != 200:
        bad = 'a file inside the root is not served'
    elif expect is not None and r.code not in (200, 206, 304, 416, 403, 404):
        bad = 'unexpected status'
    elif r.code in (403, 404) and 'content of' in r.text():
        bad = 'a denied file is delivered'
    chk.count()
    if bad:
        chk.violation(bad, dict(where, root=t.root, method=method, headers=headers, status=r.status, opened=opened, served=served, expected=expect,
                                error=repr(r.exc), body=r.text()[:200]))


def relative(t, segs):
    return '/'.join(''.join(s) for s in segs[2:]) if segs else None


def check(chk):
    t = Tree()
    try:
        os.chdir(t.base)
        body(chk, t, chk.rnd)
    finally:
        t.remove()


def body(chk, t, rnd):
    r = chk.model('StaticPath', dict(invariants=['Counts', 'Sibling', 'Emit']), env=dict(MAXTOK=chk.pick(3, 4)), workers=8, heap='6g')
    seen = set()
    for e in r.emitted:
        name = t.render(tlc.seq(e['s']))
        if name in seen:
            continue
        seen.add(name)
        for k in range(4):
            expect = relative(t, tlc.seq(e['v'][k]))
            if expect is None and k == 3 and rnd.random() < .7:
                continue
            forms = t.forms(k)
            root = rnd.choice(forms)
            method = 'HEAD' if rnd.random() < .1 else 'GET'
            headers = rnd.choice([{'Range': 'bytes=0-'}, {'If-Modified-Since': 'Sun, 01 Jan 2040 00:00:00 GMT'}, {'Range': 'bytes=500-'}]) if rnd.random() < .1 else None
            kw = rnd.choice([{}, {}, dict(mimetype='text/plain'), dict(download=True), dict(download='x.bin', mimetype=None), dict(charset='latin1')])
            r2, opened, served = t.run(name, root, method, kw, headers=headers)
            verdict(chk, t, dict(name=name), r2, opened, served, expect, e['w'], k, method, headers)
            chk.bump('served' if r2.code == 200 else 'denied')
    chk.sample(dict(names=sorted(seen, key=len)[-3:]))
    # longer and odder names, judged by the specification
    items, det = [], []
    toks = ['f', 'a', 'r', 'ra', '..', '.', '/', '\\', '../', '//', '/tmp/' + t.v + '/', t.v, 'rf', 'x', '/./', '..\\', '/..', 'tmp']
    for _ in range(chk.pick(8000, 80000)):
        name = ''.join(rnd.choice(toks) for _ in range(rnd.randint(1, 14)))
        if rnd.random() < .2:
            name = '../' * rnd.randint(1, 8) + name
        if rnd.random() < .03:                # thousands of characters that lead nowhere
            name = rnd.choice(['f/../', 'x/../', './', 'x/./../', 'r/f/../../']) * rnd.choice([60, 210, 420, 900]) + name
        k = rnd.randrange(4)
        url = rnd.random() < .15 and '\r' not in name and not name.startswith('/') and name.strip('/') == name and name
        r2, opened, served = t.run(name, rnd.choice(t.forms(k)), 'GET', {}, url=bool(url))
        if r2.exc is not None:
            chk.violation('static_file failed', dict(name=name, root=t.root, error=repr(r2.exc)))
            continue
        letters = []
        for j, seg in enumerate(name.split('/')):
            letters += ['/'] if j else []
            letters += ['t'] if seg == 'tmp' else ['v'] if seg == t.v else list(seg)
        # a glued segment such as "tmpf" or "fvf-x" is no letter of the specification; its characters are spelled out, which names no file
        items.append(dict(root=k + 1, lax=t.root.startswith('//'), s=letters, status=r2.code, file=t.chars(os.path.join(t.base, served)) if served else [], opened=[t.chars(p) for p in opened]))
        det.append(dict(name=name, root=t.root, status=r2.status, served=served, opened=opened, url=bool(url)))
    for v, d in zip(chk.judge('StaticPath', items, env=dict(MAXTOK=0)), det):
        chk.count()
        if v['why']:
            chk.violation('recorded: ' + v['why'], d)
    # names no tree can be built from: still denied
    os.environ.update(VF16UP='..', VF16ABS=t.base + '/rf')
    for name in ['../R/f', '../../R/f', '../RA/f', 'q/../../R/f', '$VF16UP/f', '${VF16UP}/rf', 'q/$VF16UP/$VF16UP/f', '%VF16UP%/f', '$VF16ABS', '${VF16ABS}', '%VF16ABS%', 'f\x00', '\x00', '../f\x00.txt', 'a' * 5000, '../' * 2000 + 'f', '/'.join('a' * 300 for _ in range(30)), '\udc80', '../\udcff/f', '~', '~root/f', '$HOME/f',
                 '..%2ff', '%2e%2e/f', '\uff0e\uff0e/f', '..\u2215f', '. ./f', '.../f', '.. /f', '..;/f', 'C:\\f', 'C:/f', '\\\\srv\\f', 'file:///tmp/' + t.v + '/f',
                 ' ../f', '\t../f', '\n../f', '..\n/f', '\u202e../f', 'con', 'f:stream', '*', '[f]', '?', '-', '/proc/self/../../tmp/' + t.v + '/f', '/dev/null', '/etc/passwd',
                 '../../../../../../../../etc/passwd', 'r/../../r/../f', '../r', '../r/', '..', '.', '', '/', '../r/../f', '../rf', '../ra/f']:
        for k in range(4):
            for root in rnd.sample(t.forms(k), 2):
                r2, opened, served = t.run(name, root)
                verdict(chk, t, dict(name=name), r2, opened, served, None, False, k, 'GET', None)
    for f in TWINS:
        for name in (f, '/' + f, f + '/'):
            for method in ('GET', 'HEAD'):
                r2, opened, served = t.run(name, rnd.choice(t.forms(4)), method, rnd.choice([{}, {}, dict(download=True), dict(mimetype='a/b')]))
                verdict(chk, t, dict(name=name), r2, opened, served, 'w/' + os.path.normpath(f), False, 4, method, None)
    for f in SORTS:
        for method in ('GET', 'HEAD', 'GET'):
            kw = rnd.choice([{}, {}, dict(download=True), dict(mimetype='a/b')])
            headers = rnd.choice([None, None, {'Range': 'bytes=0-'}, {'If-Modified-Since': 'Sun, 01 Jan 2040 00:00:00 GMT'}])
            r2, opened, served = t.run(f, rnd.choice(t.forms(4)), method, kw, headers=headers)
            verdict(chk, t, dict(name=f), r2, opened, served, 'w/' + f, True, 4, method, headers)
            for name in ('../s/' + f, '/../s/' + f, 'q/../../s/' + f, t.base + '/s/' + f, '../w/../s/' + f, '../w-s/' + f, f + '/../' * (f.count('/') + 2) + 's/' + f, 'q/' * 3 + '../' * 4 + 's/' + f):
                r2, opened, served = t.run(name, rnd.choice(t.forms(4)), method, kw, headers=headers)
                if r2.code in (200, 206, 304, 416) or rnd.random() < .5:
                    verdict(chk, t, dict(name=name), r2, opened, served, None, False, 4, method, headers)
    chk.assumptions.append('a root that is written with two leading slashes, which POSIX leaves to the system, may be served or denied')
    chk.assumptions.append('POSIX paths; no symbolic links inside the root (the property is about the normalised location)')
