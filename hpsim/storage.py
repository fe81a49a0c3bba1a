"""Simulated storage faults on a real scratch directory.

Everything written below FS.base goes through FS.op(): opening, each raw write, closing, replacing, making and removing.
Outside an active FS, and for other paths, all calls go straight to the operating system."""
import builtins
import errno
import io
import os

from . import mp

ERRNOS = ["ENOSPC", "EACCES", "EIO", "EROFS", "EDQUOT", "EMFILE", "ENOENT", "EPERM", "ENOMEM"]
ACTIVE = None
_real = {}


def err(name, path):
    no = getattr(errno, name)
    return OSError(no, os.strerror(no), str(path))


class FS:
    def __init__(self, base, faults=()):
        self.base = os.path.realpath(base)
        self.faults = [dict(f) for f in faults]
        self.n = 0
        self.full = False
        self.fired = {}
        self.failures = 0
        self.log = []
        self.fds = set()
        self.room = None

    def covers(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return isinstance(path, int) and path in self.fds
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if "\0" in p:
            return False
        p = os.path.normpath(os.path.join(os.getcwd(), p)) if not os.path.isabs(p) else os.path.normpath(p)
        return p == self.base or p.startswith(self.base + os.sep)

    def fire(self, kind, failure=True):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.failures += failure
        k = mp.K
        if k is not None:
            k.trace.append(("F", kind))

    def op(self, what, path=None):
        """One storage operation; returns the fault that concerns a write, or raises."""
        self.n += 1
        self.log.append(what)
        k = mp.K
        if k is not None and k.current is not None:
            k.sync("io-" + what)
        for f in self.faults:
            if f.get("done") or "at" not in f or self.n < f["at"] or f.get("only") and f["only"] != what:
                continue
            kind = f["kind"]
            if kind == "error":
                f["done"] = True
                self.fire(f"{what}:{f['errno']}")
                raise err(f["errno"], path)
            if kind == "full":
                f["done"] = True
                self.full = True
                self.room = f.get("room", 0)
            elif kind == "gone":
                f["done"] = True
                self.fire("directory-gone")
                _real["os.rename"](self.base, self.base + ".gone")
            elif kind == "denied":
                f["done"] = True
                self.denied = True
            elif kind == "short" and what == "write":
                f["count"] = f.get("count", 1) - 1
                if f["count"] <= 0:
                    f["done"] = True
                self.fire("short-write", False)
                return ("short", f.get("room", 1))
            elif kind == "torn" and what == "write":
                f["done"] = True
                self.fire("torn-write")
                return ("torn", f.get("room", 1), f.get("errno", "EIO"))
            elif kind == "close" and what == "close":
                f["done"] = True
                self.fire("close:" + f.get("errno", "EIO"))
                raise err(f.get("errno", "EIO"), path)
        if getattr(self, "denied", False) and what in ("open", "replace", "mkdir"):
            self.fire("denied")
            raise err("EACCES", path)
        if self.full and what in ("write", "mkdir"):
            self.fire("disk-full")
            if what == "write" and self.room:
                r, self.room = self.room, 0
                return ("torn", r, "ENOSPC")
            raise err("ENOSPC", path)
        return None

    def heal(self):
        self.faults = []
        self.full = self.denied = False
        if os.path.isdir(self.base + ".gone") and not os.path.isdir(self.base):
            _real["os.rename"](self.base + ".gone", self.base)


class SimRaw(io.FileIO):
    def __init__(self, fs, file, mode):
        self._fs = fs
        self._over = False
        super().__init__(file, mode)

    def write(self, b):
        fs = self._fs
        f = fs.op("write", self.name)
        n = memoryview(b).nbytes
        if f is None or n == 0:
            return super().write(b)
        room = max(1, min(n, f[1] if f[1] >= 1 else int(n * f[1])))
        if f[0] == "short":
            return super().write(memoryview(b).cast("B")[:room])
        super().write(memoryview(b).cast("B")[:room])
        raise err(f[2], self.name)

    def close(self):
        if self.closed or self._over:
            return super().close()
        self._over = True
        try:
            if self._fs is ACTIVE:
                self._fs.op("close", self.name)
        finally:
            super().close()


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = ACTIVE
    if fs is None or opener is not None or not fs.covers(file) or not any(c in mode for c in "wax+"):
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        fs.op("open", file)
    raw = SimRaw(fs, os.fspath(file) if not isinstance(file, int) else file, mode.replace("b", "").replace("t", ""))
    if "b" in mode and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _wrap(name, what, path_args=(0,)):
    f = getattr(os, name)
    _real["os." + name] = f

    def g(*a, **kw):
        fs = ACTIVE
        if fs is not None and any(i < len(a) and fs.covers(a[i]) for i in path_args):
            if name == "open":
                fl = a[1] if len(a) > 1 else kw.get("flags", 0)
                if fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                    fs.op("open", a[0])
                    fd = f(*a, **kw)
                    fs.fds.add(fd)
                    return fd
                return f(*a, **kw)
            if name == "write":
                r = fs.op("write", a[0])
                if r is not None:
                    n = len(a[1])
                    room = max(1, min(n, r[1] if r[1] >= 1 else int(n * r[1])))
                    w = f(a[0], bytes(a[1])[:room])
                    if r[0] == "short":
                        return w
                    raise err(r[2], a[0])
                return f(*a, **kw)
            if name == "close":
                fs.fds.discard(a[0])
                try:
                    fs.op("close", a[0])
                finally:
                    f(*a, **kw)
                return None
            fs.op(what, a[0])
        return f(*a, **kw)
    g.__name__ = name
    setattr(os, name, g)


def install():
    if _real:
        return
    _real["open"] = io.open
    io.open = builtins.open = _open
    for name, what, args in (("open", "open", (0,)), ("write", "write", (0,)), ("close", "close", (0,)),
                             ("replace", "replace", (0, 1)), ("rename", "replace", (0, 1)), ("link", "replace", (0, 1)),
                             ("mkdir", "mkdir", (0,)), ("unlink", "unlink", (0,)), ("remove", "unlink", (0,)),
                             ("fsync", "fsync", (0,))):
        _wrap(name, what, args)


class active:
    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        global ACTIVE
        ACTIVE = self.fs
        return self.fs

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None
