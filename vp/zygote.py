"""A pristine process, forked before any provider exists, that judges single requests in isolation."""
import os, pickle, struct, sys

_z = {}


def _send(fd, obj):
    b = pickle.dumps(obj)
    os.write(fd, struct.pack("<I", len(b)))
    while b:
        b = b[os.write(fd, b):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<I", _read(fd, 4))[0]))


def ensure(fn):
    """Start this process's zygote (once); fn(job) runs in a fresh child of it."""
    if os.getpid() in _z:
        return
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        os.close(b)
        os.close(c)
        try:
            while True:
                job = _recv(a)
                r, w = os.pipe()
                if os.fork() == 0:
                    try:
                        _send(w, fn(job))
                    except BaseException as exc:
                        _send(w, ("harness", repr(exc)))
                    os._exit(0)
                os.close(w)
                try:
                    ans = _recv(r)
                except EOFError:
                    ans = ("harness", "isolated run died")
                os.close(r)
                os.wait()
                _send(d, ans)
        except BaseException:
            os._exit(0)
    os.close(a)
    os.close(d)
    _z[os.getpid()] = (b, c)


def ask(job):
    b, c = _z[os.getpid()]
    _send(b, job)
    return _recv(c)
