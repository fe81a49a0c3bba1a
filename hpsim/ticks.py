"""Interpreter-level seam: executed hyperpack code is counted in ticks.

coarse  function starts and loop iterations; exceptions are delivered at function starts
async   additionally loop heads and every call; exceptions are delivered where CPython itself can deliver an
        asynchronous one or an allocation can fail: function starts, loop heads, before and after calls
line    every line; used for preemption only

CPython 3.12 does not find the exception handler when a JUMP event's callback raises, so exceptions due at a
JUMP wait for the next deliverable event.
"""
import dis
import sys
import types

from . import mp

mon = sys.monitoring
EV = mon.events
TOOL = 4
COARSE = EV.PY_START | EV.JUMP
MODE = {"coarse": COARSE, "async": COARSE | EV.BRANCH | EV.CALL, "line": EV.LINE}
_loops = {}
_codes = []
_mode = None


def _on(code, *a):
    k = mp.K
    if k is None:
        return
    t = k.current
    if t is None:
        return
    t.ticks += 1
    t.time += t.cost
    if t.ticks >= t.next_stop:
        k.tick_stop(t)


def _on_jump(code, *a):
    k = mp.K
    if k is None:
        return
    t = k.current
    if t is None:
        return
    t.ticks += 1
    t.time += t.cost
    if t.ticks >= t.next_stop:
        k.tick_stop(t, False)


def _on_branch(code, off, dest):
    s = _loops.get(code)
    if s is None:
        s = _loops[code] = {i.offset: i.argval for i in dis.get_instructions(code) if i.opname == "FOR_ITER"}
    end = s.get(off)
    if end is None:
        return mon.DISABLE
    if dest < end:      # a further round; the end of a loop is no place for an asynchronous exception
        _on(code)


def _walk(co, seen):
    if co in seen:
        return
    seen.add(co)
    _codes.append(co)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, seen)


def collect():
    """All code objects of the hyperpack package (functions, methods, properties, nested)."""
    seen = set()
    mods = [m for n, m in sorted(sys.modules.items())
            if (n == "hyperpack" or n.startswith("hyperpack.")) and m is not None]

    def visit(o, depth=0):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    visit(f, depth)
            return
        o2 = getattr(o, "__wrapped__", None)
        if o2 is not None and depth < 4:
            visit(o2, depth + 1)
        if isinstance(o, types.FunctionType):
            if (o.__module__ or "").startswith("hyperpack"):
                _walk(o.__code__, seen)
        elif isinstance(o, type) and (o.__module__ or "").startswith("hyperpack") and depth < 4:
            for v in vars(o).values():
                visit(v, depth + 1)
    for m in mods:
        for v in list(vars(m).values()):
            visit(v)
    return len(_codes)


def install():
    try:
        mon.use_tool_id(TOOL, "hpsim")
    except ValueError:
        pass
    for e in (EV.PY_START, EV.CALL, EV.C_RETURN, EV.LINE):
        mon.register_callback(TOOL, e, _on)
    mon.register_callback(TOOL, EV.JUMP, _on_jump)
    mon.register_callback(TOOL, EV.BRANCH, _on_branch)


def set_mode(mode):
    global _mode
    if mode == _mode:
        return
    ev = MODE[mode] if mode else 0
    for co in _codes:
        mon.set_local_events(TOOL, co, ev)
    _mode = mode
