"""Shared driver for the body-reading properties (C04, C05, C13)."""
from vf import core, wsgi


class BodyApp:
    """An application whose only handler reports what Request.body presents."""

    def __init__(self, buf, lim=None):
        ombott = core.use_repo()
        cfg = dict(max_memfile_size=buf)
        if lim is not None and lim >= 0:
            cfg['max_body_size'] = lim
        self.app = ombott.Ombott(cfg)
        self.seen = None
        self.script = ()
        self.copied = False
        self.app.route('/b', 'ANY', self.handler)

    def handler(self):
        rq = self.app.request
        if self.copied:
            # a copy reads the body with the settings of its application
            rq = rq.copy()
        body = rq.body
        data = body.read()
        again = True
        for op in self.script:
            if op[0] == 'body':
                again = again and rq.body.read(op[1]) == data[:op[1]]
            elif op[0] == 'input':
                f = rq.environ['wsgi.input']
                f.seek(0)
                again = again and f.read() == data
            elif op[0] == 'copy':
                again = again and rq.copy().body.read() == data
            elif op[0] == 'tell':
                again = again and rq.body.tell() == 0
        again = again and rq.body.read() == data
        self.seen = (data, again, wsgi.held(rq.body))
        return b'ok'

    def run(self, env, script=(), copied=False):
        self.seen = None
        self.copied = copied
        self.script = script
        r = wsgi.call(self.app, env)
        status = r.code
        if r.exc is not None:
            status = 599
        elif status == 200 and self.seen is None:
            status = 598
        return status, self.seen, r


_apps = {}


def app_for(buf, lim=None):
    k = (buf, lim)
    if k not in _apps:
        _apps[k] = BodyApp(buf, lim)
    return _apps[k]


def prefix_of(data, whole):
    return len(data) if whole[:len(data)] == data else -1


def filler(n, salt=0):
    """Bytes whose every window says where it is."""
    out = bytearray()
    k = salt * 7919
    while len(out) < n:
        out += b'%d,' % k
        k += 1
    return bytes(out[:n])
