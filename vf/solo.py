"""Run a function in a forked child: whatever it does to module-level or application state stays there."""
import os
import pickle
import traceback


class Failed(Exception):
    pass


def forked(fn, *a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, fn(*a)))
            except BaseException as e:          # noqa
                data = pickle.dumps((False, repr(e)))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Failed('the child died')
    ok, val = pickle.loads(data)
    if not ok:
        raise Failed(val)
    return val


def parallel(fns):
    """The functions, each in a forked child of its own, all at once; their results in order (Failed where a child died)."""
    jobs, out = [], []
    for fn in fns:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for r2, _ in jobs:
                    os.close(r2)
                try:
                    data = pickle.dumps((True, fn()))
                except BaseException as e:          # noqa
                    data = pickle.dumps((False, repr(e) + traceback.format_exc()))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        jobs.append((r, pid))
    for r, pid in jobs:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            out.append(Failed('the child died'))
            continue
        ok, val = pickle.loads(data)
        out.append(val if ok else Failed(val))
    return out
