"""Simulated multiprocessing: processes, pipes, queues, shared memory, locks."""
import array as _array
import copy
import errno
import io
import os as _os
import pickle
import queue as _queue
import struct
import sys
import traceback

from . import isolate
from .kernel import HarnessError, INF

K = None                # the running Kernel (set by world.activate)
DEEPCOPY_OWNER = None   # the child process while its memory image is being copied

PIPE_BUF = 4096


def kern():
    if K is None:
        raise HarnessError("simulated multiprocessing used outside a simulation")
    return K


def cur():
    t = K.current if K is not None else None
    return t


def here():
    """The process executing now."""
    t = cur()
    return t.proc if t is not None else (K.root if K is not None else None)


class Shared:
    """Base of objects living outside any process' private memory."""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise RuntimeError(f"{type(self).__name__} objects should only be shared between "
                           "processes through inheritance")


# ------------------------------------------------------------------ pipes
class RawPipe(Shared):
    def __init__(self, cap):
        self.buf = bytearray()
        self.cap = cap
        self.readers = 0
        self.writers = 0
        self.rwait = []
        self.wwait = []
        self.total = 0

    def wake_readers(self):
        w, self.rwait = self.rwait, []
        for t in w:
            K.wake(t)

    def wake_writers(self):
        w, self.wwait = self.wwait, []
        for t in w:
            K.wake(t)


class End(Shared):
    """One end of a pipe as an open file description; processes hold it in their fd sets."""

    def __init__(self, pipe, mode):
        self.pipe = pipe
        self.mode = mode
        self.n = 0
        K.pipes.append(self)

    def opened_by(self, proc):
        if self not in proc.fds:
            proc.fds.add(self)
            self.n += 1
            if self.mode == "r":
                self.pipe.readers += 1
            else:
                self.pipe.writers += 1

    def closed_by(self):
        self.n -= 1
        if self.mode == "r":
            self.pipe.readers -= 1
            if self.pipe.readers == 0:
                self.pipe.wake_writers()
        else:
            self.pipe.writers -= 1
            if self.pipe.writers == 0:
                self.pipe.wake_readers()

    def close_in(self, proc):
        if self in proc.fds:
            proc.fds.discard(self)
            self.closed_by()


class Connection:
    _next_fd = 10

    def __init__(self, rend, wend, owner=None):
        self._r = rend
        self._w = wend
        self._owner = owner or here()
        self._fd = Connection._next_fd
        Connection._next_fd += 1
        self._open = True
        for e in (rend, wend):
            if e is not None:
                e.opened_by(self._owner)

    def __deepcopy__(self, memo):
        c = object.__new__(Connection)
        c._r, c._w, c._fd, c._open = self._r, self._w, self._fd, self._open
        c._owner = DEEPCOPY_OWNER or self._owner
        memo[id(self)] = c
        return c

    def __reduce__(self):
        raise RuntimeError("Connection objects can only be pickled while spawning")

    def __del__(self):
        try:
            if self._open and self._owner is not None and self._owner.alive and K is not None:
                self._close()
        except Exception:
            pass

    def _close(self):
        self._open = False
        for e in (self._r, self._w):
            if e is not None:
                e.close_in(self._owner)

    def _check(self):
        if not self._open:
            raise OSError("handle is closed")

    def _check_r(self):
        self._check()
        if self._r is None:
            raise OSError("connection is write-only")

    def _check_w(self):
        self._check()
        if self._w is None:
            raise OSError("connection is read-only")

    closed = property(lambda self: not self._open)
    readable = property(lambda self: self._r is not None)
    writable = property(lambda self: self._w is not None)

    def fileno(self):
        self._check()
        return self._fd

    def close(self):
        if self._open:
            K.sync("close")
            self._close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def send(self, obj):
        self._check_w()
        self.send_bytes(pickle.dumps(obj))

    def send_bytes(self, buf, offset=0, size=None):
        self._check_w()
        data = bytes(buf)[offset:]
        if size is not None:
            data = data[:size]
        header = struct.pack("!i", len(data))
        if len(data) > 16384:
            self._write(header)
            self._write(data)
        else:
            self._write(header + data)

    def _write(self, data):
        pipe = self._w.pipe
        if cur() is None:
            raise HarnessError("pipe write outside a simulation")
        off = 0
        while off < len(data):
            K.sync("write")
            if pipe.readers == 0:
                raise BrokenPipeError(errno.EPIPE, "Broken pipe")
            free = pipe.cap - len(pipe.buf)
            left = len(data) - off
            if free <= 0 or (left <= PIPE_BUF and free < left):
                K.probe("pipe-full")
                here().result_started = True
                pipe.wwait.append(K.current)
                K.block("write")
                continue
            n = min(free, left)
            pipe.buf += data[off:off + n]
            pipe.total += n
            here().result_started = True
            off += n
            if off < len(data):
                K.probe("partial-write")
            pipe.wake_readers()
            # a kill exactly between two partial writes tears the message
            K.sync("written")

    def _read(self, n):
        pipe = self._r.pipe
        out = bytearray()
        while len(out) < n:
            K.sync("read")
            if pipe.buf:
                k = min(n - len(out), len(pipe.buf))
                out += pipe.buf[:k]
                del pipe.buf[:k]
                pipe.wake_writers()
                continue
            if pipe.writers == 0:
                if not out:
                    raise EOFError
                raise OSError("got end of file during message")
            pipe.rwait.append(K.current)
            K.block("read")
        return bytes(out)

    def recv_bytes(self, maxlength=None):
        self._check_r()
        (n,) = struct.unpack("!i", self._read(4))
        return self._read(n) if n else b""

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def _ready(self):
        return bool(self._r.pipe.buf) or self._r.pipe.writers == 0

    def poll(self, timeout=0.0):
        self._check_r()
        return bool(wait([self], timeout))


def Pipe(duplex=True):
    K.sync("pipe")
    cap = K.sim.get("pipe_cap", 65536)
    a = RawPipe(cap)
    if not duplex:
        return Connection(End(a, "r"), None), Connection(None, End(a, "w"))
    b = RawPipe(cap)
    return (Connection(End(a, "r"), End(b, "w")), Connection(End(b, "r"), End(a, "w")))


SENTINELS = {}


def wait(object_list, timeout=None):
    K.sync("wait")
    t = K.current
    deadline = INF if timeout is None else t.time + max(0.0, timeout)
    while True:
        ready = []
        for o in object_list:
            if isinstance(o, Connection):
                o._check_r()
                if o._ready():
                    ready.append(o)
            elif isinstance(o, int) and o in SENTINELS:
                if not SENTINELS[o].alive:
                    ready.append(o)
            else:
                raise HarnessError(f"connection.wait on {o!r}")
        if ready or t.time >= deadline:
            return ready
        for o in object_list:
            (o._r.pipe.rwait if isinstance(o, Connection) else SENTINELS[o].waiters).append(t)
        K.block("wait", None if deadline == INF else deadline - t.time)
        for o in object_list:
            w = o._r.pipe.rwait if isinstance(o, Connection) else SENTINELS[o].waiters
            if t in w:
                w.remove(t)


# ------------------------------------------------------------------ locks
class SimLock(Shared):
    recursive = False

    def __init__(self, n=1, maximum=None):
        self.value = n
        self.maximum = maximum
        self.owner = None
        self.depth = 0
        self.waiters = []

    def acquire(self, block=True, timeout=None):
        t = K.sync("acquire")
        if t is None:
            return True
        if self.recursive and self.owner is t:
            self.depth += 1
            return True
        while self.value <= 0:
            if not block:
                return False
            K.probe("lock-contention")
            self.waiters.append(t)
            try:
                ok = K.block("lock", timeout)
            finally:
                if t in self.waiters:
                    self.waiters.remove(t)
            if not ok:
                return False
        self.value -= 1
        self.owner = t
        self.depth = 1
        K.sync("locked")        # a process may be stalled or killed while holding it
        return True

    def release(self):
        t = cur()
        if t is None:
            return
        if self.recursive:
            if self.owner is not t:
                raise AssertionError("attempt to release recursive lock not owned by thread")
            self.depth -= 1
            if self.depth:
                return
        elif self.maximum is not None and self.value >= self.maximum:
            raise ValueError("semaphore or lock released too many times")
        self.owner = None
        self.value += 1
        while self.waiters:
            w = self.waiters.pop(0)
            if w.state == "blocked":        # not killed meanwhile
                K.wake(w)
                break

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    recursive = True


def Lock():
    return SimLock(1, 1)


def RLock():
    return SimRLock(1)


def Semaphore(value=1):
    return SimLock(value)


def BoundedSemaphore(value=1):
    return SimLock(value, value)


class Event(Shared):
    def __init__(self):
        self.flag = False
        self.waiters = []

    def is_set(self):
        K.sync("event")
        return self.flag

    def set(self):
        K.sync("event")
        self.flag = True
        w, self.waiters = self.waiters, []
        for t in w:
            K.wake(t)

    def clear(self):
        K.sync("event")
        self.flag = False

    def wait(self, timeout=None):
        t = K.sync("event")
        while not self.flag:
            self.waiters.append(t)
            if not K.block("event", timeout):
                break
        return self.flag


class Condition(Shared):
    def __init__(self, lock=None):
        self.lock = lock or SimRLock(1)
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        return self.lock.acquire()

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        t = cur()
        if t is None:
            return True
        depth, self.lock.depth = self.lock.depth, 1
        self.waiters.append(t)
        self.lock.release()
        try:
            ok = K.block("condition", timeout)
        finally:
            if t in self.waiters:
                self.waiters.remove(t)
            self.lock.acquire()
            self.lock.depth = depth
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else K.local_time() + timeout
        while not predicate():
            left = None if end is None else end - K.local_time()
            if left is not None and left <= 0:
                break
            self.wait(left)
        return predicate()

    def notify(self, n=1):
        K.sync("notify")
        while n > 0 and self.waiters:
            w = self.waiters.pop(0)
            if w.state == "blocked":
                K.wake(w)
                n -= 1

    def notify_all(self):
        self.notify(len(self.waiters))


class Barrier(Shared):
    def __init__(self, parties, action=None, timeout=None):
        self.parties, self.action, self.timeout = parties, action, timeout
        self.n_waiting = 0
        self.broken = False
        self.generation = 0
        self.waiters = []

    def _release(self):
        w, self.waiters = self.waiters, []
        self.n_waiting = 0
        for t in w:
            K.wake(t)

    def wait(self, timeout=None):
        import threading
        t = K.sync("barrier")
        if self.broken:
            raise threading.BrokenBarrierError
        n, g = self.n_waiting, self.generation
        self.n_waiting += 1
        if self.n_waiting == self.parties:
            self.generation += 1
            self._release()
            if self.action:
                self.action()
            return n
        timeout = self.timeout if timeout is None else timeout
        end = None if timeout is None else K.local_time() + timeout
        while self.generation == g and not self.broken:
            self.waiters.append(t)
            if not K.block("barrier", None if end is None else max(0.0, end - K.local_time())):
                self.abort()
        if self.broken:
            raise threading.BrokenBarrierError
        return n

    def abort(self):
        self.broken = True
        self._release()

    def reset(self):
        self.broken = False
        self.generation += 1
        self._release()


# ------------------------------------------------------------------ shared memory
class SimArray(Shared):
    def __init__(self, typecode, init, lock):
        if not isinstance(typecode, str):
            typecode = {"c_double": "d", "c_int": "i", "c_long": "l", "c_float": "f",
                        "c_bool": "b", "c_byte": "b", "c_uint": "I"}.get(typecode.__name__, "d")
        self._a = _array.array(typecode, [0] * init if isinstance(init, int) else list(init))
        self._lock = lock
        self.history = []

    def _locked(self):
        return self._lock if self._lock is not None else _NoLock

    def get_lock(self):
        if self._lock is None:
            raise AttributeError("get_lock")
        return self._lock

    def get_obj(self):
        return self._a

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def __len__(self):
        return len(self._a)

    def __getitem__(self, i):
        with self._locked():
            K.sync("load")
            v = self._a[i]
            return list(v) if isinstance(i, slice) else v

    def __setitem__(self, i, v):
        with self._locked():
            K.sync("store")
            if isinstance(i, slice):
                self._a[i] = _array.array(self._a.typecode, list(v))
            else:
                self._a[i] = v
                t = cur()
                self.history.append((t.time if t else 0, t.proc.pid if t else 0, i, v))

    def __iter__(self):
        i = 0
        while i < len(self._a):
            yield self[i]
            i += 1


class _NoLockT:
    def __enter__(self):
        return True

    def __exit__(self, *a):
        return None


_NoLock = _NoLockT()


def _mklock(lock):
    if lock is True or lock is None:
        return RLock()
    if lock is False:
        return None
    return lock


def Array(typecode_or_type, size_or_initializer, *, lock=True, ctx=None):
    K.sync("shm")
    return SimArray(typecode_or_type, size_or_initializer, _mklock(lock))


def RawArray(typecode_or_type, size_or_initializer):
    return SimArray(typecode_or_type, size_or_initializer, None)


class SimValue(SimArray):
    def __init__(self, typecode, init, lock):
        super().__init__(typecode, [init], lock)

    @property
    def value(self):
        return self[0]

    @value.setter
    def value(self, v):
        self[0] = v


def Value(typecode_or_type, *args, lock=True):
    return SimValue(typecode_or_type, args[0] if args else 0, _mklock(lock))


def RawValue(typecode_or_type, *args):
    return SimValue(typecode_or_type, args[0] if args else 0, None)


# ------------------------------------------------------------------ queues
class Queue:
    """multiprocessing.Queue: a pipe, a write lock, a read lock and a feeder thread per process."""

    def __init__(self, maxsize=0):
        self._reader, self._writer = Pipe(False)
        self._wlock = Lock()
        self._rlock = Lock()
        self._maxsize = maxsize
        self._sem = Semaphore(maxsize if maxsize > 0 else 2 ** 31)
        self._reset()

    def _reset(self):
        self._buf = []
        self._feeder = None
        self._closed = False
        self._nojoin = False

    def __deepcopy__(self, memo):
        q = object.__new__(type(self))
        memo[id(self)] = q
        for k in ("_wlock", "_rlock", "_maxsize", "_sem"):
            q.__dict__[k] = self.__dict__[k]
        q._reader = copy.deepcopy(self._reader, memo)
        q._writer = copy.deepcopy(self._writer, memo)
        q._reset()
        return q

    def __reduce__(self):
        raise RuntimeError("Queue objects should only be shared between processes through inheritance")

    def put(self, obj, block=True, timeout=None):
        if self._closed:
            raise ValueError(f"Queue {self!r} is closed")
        if not self._sem.acquire(block, timeout):
            raise _queue.Full
        self._buf.append(obj)
        if self._feeder is None:
            p = here()
            self._feeder = K.spawn_task(p, f"{p.name}-feeder", self._feed)
            p.feeders.append(self)
        else:
            K.wake(self._feeder)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def _feed(self, t):
        while True:
            if not self._buf:
                if self._closed:
                    break
                t.tag = "idle"
                K.block("feeder-idle")
                t.tag = None
                continue
            obj = self._buf.pop(0)
            try:
                data = pickle.dumps(obj)
            except Exception:
                K.probe("feeder-pickle-error")
                self._sem.release()
                continue
            self._wlock.acquire()
            try:
                self._writer.send_bytes(data)
            except BrokenPipeError:
                K.probe("feeder-epipe")
            finally:
                self._wlock.release()

    def get(self, block=True, timeout=None):
        if self._closed:
            raise ValueError(f"Queue {self!r} is closed")
        t = cur()
        deadline = None if timeout is None else t.time + timeout
        if not self._rlock.acquire(block, timeout):
            raise _queue.Empty
        try:
            if not block:
                if not self._reader.poll():
                    raise _queue.Empty
            elif deadline is not None:
                if not self._reader.poll(deadline - t.time):
                    raise _queue.Empty
            data = self._reader.recv_bytes()
            self._sem.release()
        finally:
            self._rlock.release()
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._reader.poll()

    def qsize(self):
        return (self._maxsize if self._maxsize > 0 else 2 ** 31) - self._sem.value

    def full(self):
        return self._sem.value <= 0

    def close(self):
        if not self._closed:
            K.sync("qclose")
            self._closed = True
            if self._reader._owner is here():
                self._reader._close()
            if self._feeder is not None:
                K.wake(self._feeder)

    def join_thread(self):
        while self._feeder is not None and self._feeder.state != "dead":
            if not self._buf and self._feeder.tag == "idle":
                break
            K.sync("jointhread")
            K.block("jointhread", 1e-2)

    def cancel_join_thread(self):
        self._nojoin = True


class JoinableQueue(Queue):
    pass


class SimpleQueue:
    def __init__(self):
        self._reader, self._writer = Pipe(False)
        self._rlock = Lock()
        self._wlock = Lock()

    def __deepcopy__(self, memo):
        q = object.__new__(type(self))
        memo[id(self)] = q
        q._rlock, q._wlock = self._rlock, self._wlock
        q._reader = copy.deepcopy(self._reader, memo)
        q._writer = copy.deepcopy(self._writer, memo)
        return q

    def put(self, obj):
        data = pickle.dumps(obj)
        with self._wlock:
            self._writer.send_bytes(data)

    def get(self):
        with self._rlock:
            data = self._reader.recv_bytes()
        return pickle.loads(data)

    def empty(self):
        return not self._reader.poll()

    def close(self):
        self._reader.close()
        self._writer.close()


# ------------------------------------------------------------------ spawn pickling
class _SpawnPickler(pickle.Pickler):
    def __init__(self, f, table):
        super().__init__(f, protocol=4)
        self.table = table

    def persistent_id(self, obj):
        if isinstance(obj, (Shared, Connection, Queue, SimpleQueue)):
            self.table.append(obj)
            return len(self.table) - 1
        return None


class _SpawnUnpickler(pickle.Unpickler):
    def __init__(self, f, table, child):
        super().__init__(f)
        self.table = table
        self.child = child
        self.memo2 = {}

    def persistent_load(self, i):
        o = self.table[i]
        if isinstance(o, Shared):
            return o
        if id(o) not in self.memo2:
            self.memo2[id(o)] = copy.deepcopy(o, {})
        return self.memo2[id(o)]


def _ends_in(obj):
    if isinstance(obj, Connection):
        return [e for e in (obj._r, obj._w) if e is not None]
    out = []
    for a in ("_reader", "_writer"):
        c = getattr(obj, a, None)
        if isinstance(c, Connection):
            out += _ends_in(c)
    return out


# ------------------------------------------------------------------ processes
class Process:
    _start_method = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        k = kern()
        k.probe("process-objects")
        self._name = name or f"Process-{k.probes['process-objects']}"
        self._daemon = bool(daemon) if daemon is not None else False
        self._sim = None            # Proc, once started
        self._parent_pid = here().pid
        self._is_me = False
        self._popen = None

    # ---- naming
    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        assert isinstance(v, str), "name must be a string"
        self._name = v

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        self._daemon = v

    @property
    def pid(self):
        return self._sim.pid if self._sim else None

    ident = pid
    authkey = b"sim"

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    # ---- lifecycle, from the parent
    def start(self):
        k = kern()
        assert self._sim is None, "cannot start a process twice"
        k.sync("start")
        n = k.start_calls
        if k.search_begin is None:
            k.search_begin = k.wall()
        k.start_calls += 1
        for f in k.faults:
            if f["kind"] == "start-fail" and f["worker"] == n and not f.get("done"):
                f["done"] = True
                k.fire("start-fail")
                k.trace.append(("SF", n))
                k.start_failures = getattr(k, "start_failures", 0) + 1
                raise OSError(getattr(errno, f.get("errno", "EAGAIN")),
                              "Resource temporarily unavailable")
        parent = here()
        child = k.new_proc(self._name, parent, order=n)
        self._sim = child
        method = type(self)._start_method or k.sim.get("start", "fork")
        global DEEPCOPY_OWNER
        prev, DEEPCOPY_OWNER = DEEPCOPY_OWNER, child
        try:
            self._sim = None
            if method == "fork":
                for e in sorted(parent.fds, key=lambda e: k.pipes.index(e)):
                    e.opened_by(child)
                twin = copy.deepcopy(self, isolate.shared_memo())
            else:
                table = []
                f = io.BytesIO()
                _SpawnPickler(f, table).dump(self)
                for o in table:
                    for e in ([o] if isinstance(o, End) else _ends_in(o)):
                        e.opened_by(child)
                f.seek(0)
                twin = _SpawnUnpickler(f, table, child).load()
        except BaseException:
            for e in list(child.fds):
                e.close_in(child)
            child.alive = False
            child.run_state = "never"
            k.procs.remove(child)
            raise
        finally:
            DEEPCOPY_OWNER = prev
        self._sim = child
        self._popen = child
        twin._is_me = True
        twin._sim = child
        child.obj = twin
        child.inherits = method
        isolate.started(child, method)
        k.started.append(child)
        delay = k.sim.get("start_delay", 0.0)
        if isinstance(delay, list):
            delay = delay[n % len(delay)]
        child.start_time = k.local_time() + delay * k.tick_cost
        t = k.spawn_task(child, child.name, lambda t: _child_main(t, twin), time=child.start_time)
        k.arm(t)
        SENTINELS[child.pid + 100000] = child
        k.sync("started")

    def _child(self):
        if self._sim is None:
            return None
        return self._sim

    def is_alive(self):
        if self._is_me:
            return True
        kern().sync("is_alive")
        return self._sim is not None and self._sim.alive

    def join(self, timeout=None):
        k = kern()
        assert self._sim is not None, "can only join a started process"
        t = k.sync("join")
        deadline = None if timeout is None else t.time + max(0, timeout)
        while self._sim.alive:
            if deadline is not None and t.time >= deadline:
                return
            self._sim.waiters.append(t)
            k.block("join", None if deadline is None else deadline - t.time)
            if t in self._sim.waiters:
                self._sim.waiters.remove(t)
        t.time = max(t.time, self._sim.end_time or 0.0)

    @property
    def exitcode(self):
        if self._sim is None or self._sim.alive:
            return None
        return self._sim.exitcode

    @property
    def sentinel(self):
        if self._sim is None:
            raise ValueError("process not started")
        return self._sim.pid + 100000

    def terminate(self):
        self._signal(-15)

    def kill(self):
        self._signal(-9)

    def _signal(self, code):
        k = kern()
        if self._sim is None:
            raise AttributeError("'NoneType' object has no attribute 'terminate'")
        k.sync("signal")
        if self._sim.alive:
            self._sim.terminated_by_parent = True
            k.kill_proc(self._sim, code)

    def close(self):
        if self._sim is not None and self._sim.alive:
            raise ValueError("Cannot close a process while it is still running. "
                             "You should first call join() or terminate().")

    def __repr__(self):
        return f"<{type(self).__name__} name={self._name!r}>"


def _child_main(t, twin):
    p = t.proc
    k = K
    p.run_state = "running"
    code = 0
    try:
        twin.run()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except HarnessError:
        raise
    except BaseException as e:
        code = 1
        p.traceback = "".join(traceback.format_exception_only(e))
        k.probe("worker-died-of-exception")
    p.run_state = "exiting"
    isolate.check()
    p.ticks = t.ticks
    t.fault_ticks = []
    t.next_stop = INF
    k.sync("exit")
    # interpreter exit: wait for the queue feeder threads
    for q in p.feeders:
        if q._nojoin:
            continue
        q._closed = True
        k.wake(q._feeder)
        while q._feeder.state != "dead":
            k.probe("exit-waits-for-feeder")
            q._feeder.joiners.append(t)
            k.block("feeder-join")
    for x in list(p.tasks):
        if x is not t:
            x.state = "dead"
            x.epoch += 1
    p.exitcode = code
    k.proc_ended(p)


class _MainProcess:
    name = "MainProcess"
    daemon = False
    exitcode = None
    _is_me = True

    @property
    def pid(self):
        return K.root.pid if K is not None else _os.getpid()

    ident = pid

    def is_alive(self):
        return True


MAIN = _MainProcess()


def current_process():
    p = here()
    if p is None or p.obj is None:
        return MAIN
    return p.obj


def parent_process():
    p = here()
    if p is None or p.parent is None:
        return None
    return p.parent.obj or MAIN


def active_children():
    me = here()
    K.sync("children")
    return [_Handle(p) for p in K.started if p.parent is me and p.alive]


class _Handle(Process):
    def __init__(self, p):
        self._sim = p
        self._name = p.name
        self._is_me = False
        self._daemon = False


def cpu_count():
    if K is not None:
        return K.sim.get("cpu_count", 8)
    return 8


class Context:
    def __init__(self, method=None):
        self._method = method
        base = Process

        class CtxProcess(Process):
            _start_method = method
        self.Process = CtxProcess if method else Process

    Queue = staticmethod(Queue)
    JoinableQueue = staticmethod(JoinableQueue)
    SimpleQueue = staticmethod(SimpleQueue)
    Pipe = staticmethod(Pipe)
    Array = staticmethod(Array)
    RawArray = staticmethod(RawArray)
    Value = staticmethod(Value)
    RawValue = staticmethod(RawValue)
    Lock = staticmethod(Lock)
    RLock = staticmethod(RLock)
    Semaphore = staticmethod(Semaphore)
    BoundedSemaphore = staticmethod(BoundedSemaphore)
    Event = staticmethod(Event)
    Condition = staticmethod(Condition)
    Barrier = staticmethod(Barrier)
    cpu_count = staticmethod(cpu_count)
    current_process = staticmethod(current_process)
    active_children = staticmethod(active_children)

    def get_start_method(self, allow_none=False):
        return self._method or (K.sim.get("start", "fork") if K else "fork")


def get_context(method=None):
    return Context(method)


def get_start_method(allow_none=False):
    return K.sim.get("start", "fork") if K is not None else "fork"


def set_start_method(method, force=False):
    K.sim["start"] = method


def Manager():
    raise HarnessError("multiprocessing.Manager is not simulated")


def Pool(*a, **k):
    raise HarnessError("multiprocessing.Pool is not simulated")


def install():
    """Replace the multiprocessing API before hyperpack is imported."""
    import multiprocessing
    import multiprocessing.connection as mc
    import multiprocessing.process as mpp
    import multiprocessing.sharedctypes as ms
    import multiprocessing.queues as mq
    names = ["Process", "Queue", "JoinableQueue", "SimpleQueue", "Pipe", "Array", "RawArray", "Value",
             "RawValue", "Lock", "RLock", "Semaphore", "BoundedSemaphore", "Event", "Condition", "Barrier", "cpu_count",
             "current_process", "parent_process", "active_children", "get_context",
             "get_start_method", "set_start_method", "Manager", "Pool"]
    g = globals()
    for n in names:
        setattr(multiprocessing, n, g[n])
    for n in ("Array", "RawArray", "Value", "RawValue"):
        setattr(ms, n, g[n])
    mc.Pipe, mc.wait, mc.Connection = Pipe, wait, Connection
    mpp.current_process, mpp.active_children = current_process, active_children
    mq.Queue, mq.SimpleQueue, mq.JoinableQueue = Queue, SimpleQueue, JoinableQueue
