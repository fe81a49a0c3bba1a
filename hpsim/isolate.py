"""Per-process module and class state.

Simulated processes share one interpreter. A forked process has its own copy of all module-level and class-level
data, a spawned one that of freshly imported modules. As long as a run leaves this data of the hyperpack package
alone, sharing it makes no difference. `NEEDED` is set as soon as a run with worker processes does change it;
the driver then puts everything back and evaluates the case once more with `ON`: each process keeps an image of
the data, which is put in place whenever one of its tasks gets the baton.
"""
import collections
import sys
import types
import weakref

ON = False
NEEDED = False
_holders = []       # modules and classes
_functions = []
_pristine = None
_start = None
_reg = {}           # id -> mutable object
_images = {}
_code = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, property, staticmethod, classmethod,
         types.MemberDescriptorType, types.GetSetDescriptorType, types.WrapperDescriptorType, types.MethodType)
_atomic = (int, float, str, bytes, bool, type(None), complex)


def _ours(m):
    return isinstance(m, str) and (m == "hyperpack" or m.startswith("hyperpack.")) and ".benchmarks" not in m


def _mutable(o):
    """None or the container whose contents belong to a process."""
    if isinstance(o, (dict, list, set, collections.deque, bytearray)):
        return o
    t = type(o)
    if _ours(t.__module__) or t.__module__ in ("weakref", "collections", "types") and not isinstance(o, _code):
        d = getattr(o, "__dict__", None)
        return d if isinstance(d, dict) else None
    return None


def _data(ns):
    return {k: v for k, v in ns.items()
            if not (k.startswith("__") and k.endswith("__")) and k != "_abc_impl" and not isinstance(v, _code)}


def prepare():
    """Called once the package is imported and the seams are in place."""
    global _pristine
    del _holders[:], _functions[:]
    seen = set()

    def function(f):
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        if isinstance(f, property):
            for g in (f.fget, f.fset, f.fdel):
                function(g)
            return
        if isinstance(f, types.FunctionType) and id(f) not in seen:
            seen.add(id(f))
            if _ours(f.__module__):
                _functions.append(f)
            function(getattr(f, "__wrapped__", None))
    for n, m in sorted(sys.modules.items()):
        if not _ours(n) or m is None:
            continue
        _holders.append(m)
        for v in list(vars(m).values()):
            function(v)
            if isinstance(v, type) and _ours(v.__module__) and id(v) not in seen:
                seen.add(id(v))
                _holders.append(v)
                for x in list(vars(v).values()):
                    function(x)
    _reg.clear()
    _reach()
    _pristine = _capture()


def _reach():
    """Register every mutable object that module-level or class-level data leads to."""
    todo = []
    for h in _holders:
        todo += _data(vars(h)).values()
    for f in _functions:
        todo += f.__defaults__ or ()
        todo += (f.__kwdefaults__ or {}).values()
        if f.__dict__:
            todo += [v for k, v in f.__dict__.items() if k != "__wrapped__"]
        for c in f.__closure__ or ():
            try:
                todo.append(c.cell_contents)
            except ValueError:
                pass
    seen = set()
    while todo:
        o = todo.pop()
        if isinstance(o, _atomic) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (tuple, frozenset)):
            todo += o
            continue
        c = _mutable(o)
        if c is None:
            continue
        _reg[id(c)] = c
        if isinstance(c, dict):
            todo += c.keys()
            todo += c.values()
        elif not isinstance(c, bytearray):
            todo += c


def _content(c):
    if isinstance(c, dict):
        return dict(c)
    return bytes(c) if isinstance(c, bytearray) else list(c)


def _put(c, v):
    if isinstance(c, (dict, set)):
        c.clear()
        c.update(v)
    elif isinstance(c, collections.deque):
        c.clear()
        c.extend(v)
    else:
        c[:] = v


def _capture():
    img = {}
    for i, h in enumerate(_holders):
        img[i] = (h, _data(vars(h)))
    for i, f in enumerate(_functions):
        img["f", i] = (f, dict(f.__dict__))
    for i, c in _reg.items():
        img["c", i] = (c, _content(c))
    return img


def _apply(img):
    for k, (o, v) in img.items():
        if isinstance(k, tuple):
            if k[0] == "c":
                if not _same(_content(o), v):
                    _put(o, v)
            elif not _same(o.__dict__, v):
                o.__dict__.clear()
                o.__dict__.update(v)
            continue
        now = _data(vars(o))
        for n in now:
            if n not in v:
                delattr(o, n)
        for n, x in v.items():
            if n not in now or now[n] is not x:
                setattr(o, n, x)


def _same(a, b):
    if isinstance(a, bytes):
        return a == b
    if len(a) != len(b):
        return False
    if isinstance(a, dict):
        return all(k in b and _eq(v, b[k]) for k, v in a.items())
    return all(_eq(x, y) for x, y in zip(a, b))


def _eq(x, y):
    return x is y or type(x) is type(y) and isinstance(x, _atomic) and x == y


def restore():
    """Everything as it was after the import."""
    _apply(_pristine)
    _reg.clear()
    _reach()


# ------------------------------------------------------------------ called by the kernel and the simulated processes
def begin():
    global _start
    _images.clear()
    _reach()
    _start = _capture()


def accept(holder, name):
    """The caller's own doing, as of a module that a spawned process imports as well."""
    for img in (_start, _pristine):
        if img is not None:
            img[_holders.index(holder)][1][name] = vars(holder)[name]


def check():
    """Has this run changed anything?"""
    global NEEDED
    if ON or NEEDED or _start is None:
        return
    for k, (o, v) in _start.items():
        if isinstance(k, tuple):
            if not _same(_content(o) if k[0] == "c" else o.__dict__, v):
                break
        elif not _same(_data(vars(o)), v):
            break
    else:
        return
    NEEDED = True


def started(child, method):
    if not ON:
        check()
        return
    _reach()
    _images[child] = _pristine if method == "spawn" else _capture()


def shared_memo():
    """For deepcopy: what modules and classes hold stays the same object in the forked process."""
    return {id(c): c for c in _reg.values()} if ON else {}


def switch(old, new):
    _images[old] = _capture()
    img = _images.get(new)
    if img is not None:
        _apply(img)
