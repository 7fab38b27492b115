"""Driving the implementation: environs, recording streams, one WSGI exchange."""
import io
import signal
import threading
from contextlib import contextmanager


class Hang(Exception):
    pass


@contextmanager
def deadline(seconds):
    """Raise Hang in the main thread when the block runs for too long."""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def onalarm(*_):
        raise Hang('no answer within %ss' % seconds)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Stream:
    """wsgi.input: hands out `data`, at most the next scheduled fragment per read, and records calls."""

    def __init__(self, data, ks=None, frag=None):
        self.data = data
        self.pos = 0
        self.ks = list(ks) if ks is not None else None
        self.frag = frag            # callable n -> max bytes, or None
        self.calls = []
        self.ncall = 0

    def _take(self, n):
        left = len(self.data) - self.pos
        want = left if n is None or n < 0 else min(n, left)
        if self.ks is not None:
            k = self.ks[self.ncall] if self.ncall < len(self.ks) else want
            k = min(k, want)
            if k == 0 and want:
                k = want
        elif self.frag is not None:
            k = min(want, max(1, self.frag(want))) if want else 0
        else:
            k = want
        self.ncall += 1
        out = self.data[self.pos:self.pos + k]
        self.pos += k
        self.calls.append([-1 if n is None or n < 0 else n, k])
        return out

    def read(self, n=-1):
        return self._take(n)

    def readline(self, n=-1):
        left = self.data[self.pos:]
        j = left.find(b'\n') + 1 or len(left)
        if n is not None and n >= 0:
            j = min(j, n)
        out = left[:j]
        self.pos += j
        self.ncall += 1
        self.calls.append([-1 if n is None or n < 0 else n, j])
        return out

    def readlines(self, hint=-1):
        return list(iter(self.readline, b''))

    def __iter__(self):
        return iter(self.readline, b'')


def environ(path='/', method='GET', query='', body=b'', stream=None, cl=None, ctype=None, chunked=False,
            headers=None, **extra):
    env = {
        'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': path, 'QUERY_STRING': query,
        'SERVER_NAME': 'srv.test', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
        'HTTP_HOST': 'srv.test', 'REMOTE_ADDR': '127.0.0.1',
        'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.errors': io.StringIO(),
        'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False,
        'wsgi.input': stream if stream is not None else io.BytesIO(body),
    }
    if chunked:
        env['HTTP_TRANSFER_ENCODING'] = 'chunked' if chunked is True else chunked
    if cl is not None:
        env['CONTENT_LENGTH'] = str(cl)
    elif body and not chunked:
        env['CONTENT_LENGTH'] = str(len(body))
    if ctype is not None:
        env['CONTENT_TYPE'] = ctype
    for k, v in (headers or {}).items():
        env['HTTP_' + k.upper().replace('-', '_')] = v
    env.update(extra)
    return env


METHODS = ['POST', 'POST', 'PUT', 'PATCH', 'DELETE', 'GET', 'OPTIONS', 'post', 'QUERY']
TES = ['chunked', 'chunked', 'Chunked', 'CHUNKED', 'gzip, chunked', 'identity,chunked']
PLAIN = ['', 'text/plain', 'application/octet-stream', 'application/x-www-form-urlencoded', 'application/json', 'text/html; charset=latin1',
         'multipart/form-data; boundary=b', 'multipart/form-data', 'multipart/mixed; boundary="x y"', 'chunked', '\xe9']
ASIDE = [('HTTP_EXPECT', '100-continue'), ('HTTP_CONNECTION', 'close'), ('HTTP_ACCEPT_ENCODING', 'gzip'), ('HTTP_CONTENT_ENCODING', 'identity'),
         ('HTTP_X_HTTP_METHOD_OVERRIDE', 'GET'), ('HTTP_CONTENT_LENGTH', '1'), ('HTTP_RANGE', 'bytes=0-1'), ('HTTP_TE', 'trailers'),
         ('HTTP_TRAILER', 'X-T'), ('SERVER_PROTOCOL', 'HTTP/1.0'), ('wsgi.input_terminated', True), ('wsgi.run_once', True),
         ('HTTP_ACCEPT', 'application/json'), ('HTTP_COOKIE', 'a=b'), ('HTTP_X_FORWARDED_FOR', '1.2.3.4'), ('wsgi.multithread', False)]


def aside(rnd, env, methods=METHODS, ctypes=None, query=True):
    """Change what a request says besides its body and framing: none of it may change what is read."""
    if rnd.random() < .5:
        env['REQUEST_METHOD'] = rnd.choice(methods)
    if 'HTTP_TRANSFER_ENCODING' in env:
        if rnd.random() < .4:
            env['HTTP_TRANSFER_ENCODING'] = rnd.choice(TES)
        if rnd.random() < .15:           # the transfer coding overrides a declared length
            env['CONTENT_LENGTH'] = rnd.choice(['', '0', '1', '5', '99999999'])
    elif 'CONTENT_LENGTH' in env and rnd.random() < .1:
        env['CONTENT_LENGTH'] = '00' + env['CONTENT_LENGTH']
    if ctypes and rnd.random() < .5:
        env['CONTENT_TYPE'] = rnd.choice(ctypes)
    while rnd.random() < .4:
        k, v = rnd.choice(ASIDE)
        env[k] = v
    if query and not env['QUERY_STRING'] and rnd.random() < .2:
        env['QUERY_STRING'] = 'a=1&a=2'
    return env


class Reply:
    __slots__ = ('status', 'code', 'headers', 'body', 'calls', 'exc', 'errors', 'closed')

    def header(self, name, default=None):
        for k, v in self.headers or ():
            if k.lower() == name.lower():
                return v
        return default

    def all(self, name):
        return [v for k, v in self.headers or () if k.lower() == name.lower()]

    def text(self):
        return self.body.decode('utf8', 'replace')


def call(app, env, limit=20.0):
    """One exchange.  exc is the exception that escaped the application (a fault), else None."""
    r = Reply()
    r.status = r.headers = r.exc = None
    r.code = 0
    r.calls = []
    r.body = b''

    def start_response(status, headers, exc_info=None):
        r.calls.append((status, headers, exc_info))
        return lambda data: None
    it = None
    try:
        with deadline(limit):
            it = app(env, start_response)
            r.body = b''.join(it)
    except Exception as e:
        r.exc = e
    finally:
        close = getattr(it, 'close', None)
        if close:
            close()
    if r.calls:
        r.status, r.headers = r.calls[-1][0], r.calls[-1][1]
        try:
            r.code = int(r.status.split(' ', 1)[0])
        except ValueError:
            r.code = 0
    err = env.get('wsgi.errors')
    r.errors = err.getvalue() if hasattr(err, 'getvalue') else ''
    return r


def encode_chunked(parts, upper=False):
    return b''.join(b'%x\r\n%s\r\n' % (len(p), p) for p in parts if p) + b'0\r\n\r\n'


def held(body):
    """Where a body object keeps its content: 'mem' or 'disk'."""
    import tempfile
    if isinstance(body, tempfile.SpooledTemporaryFile):
        return 'disk' if body._rolled else 'mem'
    if isinstance(body, (io.BytesIO, bytes, bytearray)):
        return 'mem'
    try:
        body.fileno()
        return 'disk'
    except Exception:
        return 'mem'
