"""The simulator core: tasks, simulated time, the scheduler and the fault points.

Tasks are real threads, but exactly one runs at a time: whoever holds the baton.  Every task has a
local clock.  Executed hyperpack code ("ticks") advances it; operations on shared objects are
synchronisation points and happen in (simulated time, sequence number) order.  All choices come from one
stream (seeded PRNG, or the recorded list of a replay file), so a run is a pure function of its scenario.

A killed process is parked for ever at the point where it was killed: not one more instruction of it runs.
A run therefore takes place in a forked child which ends with os._exit (see driver.py).
"""
import _thread
import heapq
import random as _random

from . import isolate

_RealRandom = _random.Random

INF = float("inf")


class HarnessError(BaseException):
    """The simulator itself (not the code under test) failed."""


class Choices:
    """Seeded or recorded stream of small integers; 0 is always the most benign choice."""

    def __init__(self, seed=0, recorded=None):
        self.rng = _RealRandom(seed)
        self.recorded = recorded
        self.log = []

    def pick(self, weights):
        i = len(self.log)
        if self.recorded is not None:
            v = self.recorded[i] if i < len(self.recorded) else 0
            if v >= len(weights):
                v = 0
        else:
            r = self.rng.random() * sum(weights)
            v = 0
            for k, w in enumerate(weights):
                r -= w
                if r < 0:
                    v = k
                    break
        self.log.append(v)
        return v

    def below(self, n):
        i = len(self.log)
        if self.recorded is not None:
            v = self.recorded[i] if i < len(self.recorded) else 0
            if v >= n:
                v = 0
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v


# delay profiles: (weight, delay as a multiple of the run's unit) ; index 0 must be "no delay"
JITTER = {
    "none": None,
    "low": [(0.8, 0.0), (0.15, 1.0), (0.05, 10.0)],
    "mid": [(0.5, 0.0), (0.2, 1.0), (0.15, 20.0), (0.15, 200.0)],
    "stall": [(0.9, 0.0), (0.05, 50.0), (0.05, 20000.0)],
}


class Proc:
    """A simulated operating system process."""

    def __init__(self, kernel, pid, name, parent=None, speed=1.0, order=None):
        self.kernel = kernel
        self.pid = pid
        self.name = name
        self.parent = parent
        self.order = order          # i-th started worker, None for the root process
        self.speed = speed
        self.alive = True
        self.exitcode = None
        self.tasks = []
        self.fds = set()            # open pipe ends
        self.feeders = []
        self.waiters = []           # tasks waiting for the end of this process
        self.obj = None             # the Process object inside this process
        self.run_state = "new"      # new, running, exiting, done
        self.faults_fired = []
        self.fault_before_result = False
        self.terminated_by_parent = False
        self.result_started = False  # began to hand something over through a pipe or queue
        self.start_time = None
        self.end_time = None
        self.error = None
        self.syncs = 0
        self.ops = {}
        self.ticks = 0


class Task:
    __slots__ = ("kernel", "proc", "name", "time", "lock", "state", "epoch", "pending",
                 "cost", "ticks", "next_stop", "fault_ticks", "fn", "result", "timed_out",
                 "blocked_on", "quantum", "tag", "pub_hook", "joiners")

    def __init__(self, kernel, proc, name, time, fn):
        self.kernel = kernel
        self.proc = proc
        self.name = name
        self.time = time
        self.fn = fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "ready"
        self.epoch = 0
        self.pending = None
        self.cost = kernel.tick_cost * proc.speed
        self.ticks = 0
        self.next_stop = INF
        self.fault_ticks = []       # sorted list of (tick, action)
        self.result = None
        self.pub_hook = None
        self.joiners = []
        self.timed_out = False
        self.blocked_on = None
        self.quantum = None
        self.tag = None


class Kernel:
    def __init__(self, sim, choices):
        """sim: dict of knobs (all explicit in the scenario)."""
        self.sim = sim
        self.choices = choices
        self.heap = []
        self.seq = 0
        self.now = 0.0
        self.current = None
        self.tick_cost = sim.get("tick_cost", 1e-4)
        self.unit = sim.get("unit", self.tick_cost * 20)
        self.clock_base = sim.get("clock_base", 1_700_000_000.0)
        self.clock_jumps = sorted((at * self.tick_cost, d) for at, d in sim.get("clock_jumps", []))   # [(ticks, s)]
        self.jitter = JITTER[sim.get("jitter", "low")]
        self.max_events = sim.get("max_events", 400_000)
        self.max_ticks = sim.get("max_ticks", 3_000_000)
        self.parallel = sim.get("parallel", False)      # preempted threads keep their own time
        self.construction_cost = sim.get("construction_cost", 0.0)  # simulated seconds per construction
        self.preempt = sim.get("preempt")           # mean quantum in ticks for caller threads
        self.events = 0
        self.trace = []             # coarse schedule trace, for digests and "distinct interleavings"
        self.procs = []
        self.started = []           # worker Procs in start order
        self.start_calls = 0
        self.search_begin = None    # wall clock at the first construction or worker start of the call
        self.outcome = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.faults = sim.get("faults", [])
        self.fired = {}             # fault kind -> count
        self.probes = {}
        self.next_pid = 1000
        self.pipes = []
        self.harness_error = None
        self.root = self.new_proc("MainProcess")
        self.switches = 0
        self.delay_sum = 0.0        # simulated seconds of injected delay

    # ------------------------------------------------------------------ helpers
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fire(self, kind, proc=None, detail=None):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        if proc is not None:
            proc.faults_fired.append(kind)
        self.trace.append(("F", kind, proc.pid if proc else 0))

    def new_proc(self, name, parent=None, order=None):
        speeds = self.sim.get("speeds") or []
        speed = 1.0
        if order is not None and speeds:
            speed = speeds[order % len(speeds)]
        p = Proc(self, self.next_pid, name, parent, speed, order)
        self.next_pid += 1
        self.procs.append(p)
        return p

    def spawn_task(self, proc, name, fn, time=None):
        t = Task(self, proc, name, self.local_time() if time is None else time, fn)
        proc.tasks.append(t)
        _thread.start_new_thread(self._bootstrap, (t,))
        self.push(t)
        return t

    def _bootstrap(self, t):
        t.lock.acquire()
        try:
            if t.pending is not None and t.state != "dead":
                exc, t.pending = t.pending, None
                raise exc
            t.fn(t)
        except HarnessError as e:
            self.harness_error = e
            self.finish("harness-error")
        except BaseException as e:      # bodies catch what they expect themselves
            import traceback
            self.harness_error = "".join(traceback.format_exception(e))
            self.finish("harness-error")
        self.end_task(t)

    def local_time(self):
        return self.current.time if self.current is not None else self.now

    def wall(self):
        """The wall clock as read by the current task."""
        t = self.local_time()
        j = 0.0
        for at, d in self.clock_jumps:
            if t >= at:
                j += d
        return self.clock_base + t + j

    # ------------------------------------------------------------------ scheduling
    def push(self, t):
        t.state = "ready"
        t.epoch += 1
        self.seq += 1
        heapq.heappush(self.heap, (t.time, self.seq, t, t.epoch))

    def at(self, time, fn):
        self.seq += 1
        heapq.heappush(self.heap, (max(time, self.now), self.seq, fn, None))

    def switch(self, me):
        """Give the baton to the next runnable task; returns when `me` gets it back."""
        self.current = None
        while True:
            if self.outcome is not None:
                self.park()
            if not self.heap:
                self.finish("deadlock")
            time, _, what, epoch = heapq.heappop(self.heap)
            self.events += 1
            if self.events > self.max_events:
                self.finish("event-budget")
            if epoch is None:
                self.now = max(self.now, time)
                what()
                continue
            if what.state != "ready" or what.epoch != epoch:
                continue
            self.now = max(self.now, time)
            what.state = "running"
            self.current = what
            if isolate.ON and what.proc is not self.gproc:
                isolate.switch(self.gproc, what.proc)
                self.gproc = what.proc
            if what is not me:
                self.switches += 1
                what.lock.release()
                if me is None:
                    return
                me.lock.acquire()
            break
        if me is not None and me.pending is not None:
            exc, me.pending = me.pending, None
            raise exc

    def park(self):
        l = _thread.allocate_lock()
        l.acquire()
        while True:
            l.acquire()

    def finish(self, outcome):
        """Ends the run; the calling thread never continues."""
        if self.outcome is None:
            self.outcome = outcome
            self.current = None
            self.done.release()
        self.park()

    def end_task(self, t):
        t.state = "dead"
        if t in t.proc.tasks:
            t.proc.tasks.remove(t)
        for j in t.joiners:
            self.wake(j, t.time)
        self.switch(None)
        self.park()

    def sync(self, what, obj=None):
        """A synchronisation point: everything earlier in simulated time happens first."""
        t = self.current
        if t is None:               # code run by the harness outside the simulation
            return None
        p = t.proc
        p.syncs += 1
        p.ops[what] = p.ops.get(what, 0) + 1
        if p.order is not None or self.faults:
            self._sync_faults(t, p, what)
        if self.jitter is not None:
            k = self.choices.pick([w for w, _ in self.jitter])
            if k:
                d = self.jitter[k][1] * self.unit * p.speed
                t.time += d
                self.delay_sum += d
        t.time += self.tick_cost * 0.1
        self.trace.append((what, p.pid))
        if self.heap and self.heap[0][0] < t.time:
            self.push(t)
            self.switch(t)
        elif t.pending is not None:
            exc, t.pending = t.pending, None
            raise exc
        return t

    def block(self, reason, timeout=None):
        """Block the current task until woken; True if woken, False on timeout."""
        t = self.current
        t.state = "blocked"
        t.blocked_on = reason
        t.timed_out = False
        t.epoch += 1
        if timeout is not None:
            ep = t.epoch

            def expire():
                if t.state == "blocked" and t.epoch == ep:
                    t.timed_out = True
                    t.time = max(t.time, self.now)
                    self.push(t)
            self.at(t.time + max(0.0, timeout), expire)
        self.switch(t)
        t.blocked_on = None
        return not t.timed_out

    def wake(self, t, time=None):
        if t.state == "blocked":
            t.time = max(t.time, self.local_time() if time is None else time)
            self.push(t)

    def interrupt(self, t, exc):
        """Deliver an asynchronous exception to a task of some process."""
        if t.state == "dead":
            return
        t.pending = exc
        if t.state == "blocked":
            t.time = max(t.time, self.local_time())
            self.push(t)
        elif t is self.current or t.state in ("ready", "running"):
            t.next_stop = 0

    # ------------------------------------------------------------------ process death
    def kill_proc(self, p, exitcode=-9):
        if not p.alive:
            return
        p.alive = False
        p.exitcode = exitcode
        me = self.current
        dead_me = False
        for t in list(p.tasks):
            t.state = "dead"
            t.epoch += 1
            if t is me:
                dead_me = True
        p.tasks = []
        self.proc_ended(p)
        if dead_me:
            self.switch(None)
            self.park()

    def proc_ended(self, p):
        p.alive = False
        p.end_time = self.local_time()
        p.run_state = "done"
        self.trace.append(("E", p.pid))
        for h in list(p.fds):
            p.fds.discard(h)
            h.closed_by()
        for w in p.waiters:
            self.wake(w)
        p.waiters = []

    # ------------------------------------------------------------------ faults
    def _sync_faults(self, t, p, what):
        for f in self.faults:
            if f.get("done") or f.get("sync") is None:
                continue
            if f.get("worker", None) != p.order:
                continue
            if f.get("op") is not None and f["op"] != what:
                continue
            f["seen"] = f.get("seen", 0) + 1
            if f["seen"] == f["sync"]:
                f["done"] = True
                self.apply_fault(f, t)

    def apply_fault(self, f, t):
        k = f["kind"]
        p = t.proc
        if k in ("kill", "raise"):
            p.fault_before_result = not p.result_started
        if k == "kill":
            self.fire("kill", p)
            if p.result_started:
                self.probe("kill-after-result-started")
            self.kill_proc(p, -9)
        elif k == "raise":
            self.fire("raise:" + f["exc"], p)
            p.error = f["exc"]
            raise make_exc(f["exc"])
        elif k == "stall":
            self.fire("stall", p)
            t.time += f["delay"] * self.tick_cost
            self.delay_sum += f["delay"] * self.tick_cost
        else:
            raise HarnessError("unknown fault " + k)

    def arm(self, t):
        """Install the tick faults of this scenario on a process' main task."""
        fl = []
        for f in self.faults:
            if f.get("tick") is not None and f.get("worker", None) == t.proc.order and not f.get("done"):
                fl.append((f["tick"], f))
        fl.sort(key=lambda x: x[0])
        t.fault_ticks = fl
        self._set_stop(t)

    def _set_stop(self, t):
        s = self.max_ticks + 1
        if t.fault_ticks:
            s = min(s, t.fault_ticks[0][0])
        if t.quantum is not None:
            s = min(s, t.quantum)
        t.next_stop = s

    def tick_stop(self, t, can_raise=True):
        """Called when t.ticks reached t.next_stop; without can_raise, exceptions wait for the next tick."""
        if t.ticks > self.max_ticks:
            self.finish("tick-budget")
        if not can_raise and (t.pending is not None or t.fault_ticks and t.ticks >= t.fault_ticks[0][0]
                              and t.fault_ticks[0][1]["kind"] == "raise"):
            return
        if t.pending is not None:
            exc, t.pending = t.pending, None
            self._set_stop(t)
            raise exc
        while t.fault_ticks and t.ticks >= t.fault_ticks[0][0]:
            _, f = t.fault_ticks.pop(0)
            self._set_stop(t)
            if not f.get("done"):
                f["done"] = True
                self.apply_fault(f, t)
        if t.quantum is not None and t.ticks >= t.quantum:
            t.quantum = t.ticks + 1 + self.choices.below(max(1, 2 * self.preempt))
            self._set_stop(t)
            self.trace.append(("P", t.name))
            if self.parallel:
                t.time = max(t.time, self.now) + 1e-11 * (1 + self.choices.below(1000))
            else:
                t.time = self.now + 1e-9 * (1 + self.choices.below(1000))
            self.push(t)
            self.switch(t)
        self._set_stop(t)

    # ------------------------------------------------------------------ running
    def run(self, fn):
        """Run fn(task) as the root process' main thread; returns when the run is over."""
        def body(t):
            self.arm(t)
            fn(t)
            t.proc.ticks += t.ticks
            self.now = max(self.now, t.time)
            self.finish("completed")
        isolate.begin()
        self.gproc = self.root
        t = self.spawn_task(self.root, "main", body, time=0.0)
        self.switch(None)
        self.done.acquire()
        self.current = None
        isolate.check()
        if self.gproc is not self.root:
            isolate.switch(self.gproc, self.root)
        if self.outcome == "harness-error":
            raise HarnessError(self.harness_error)
        return self.outcome


EXC = {
    "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
    "RuntimeError": RuntimeError, "RecursionError": RecursionError, "OSError": OSError,
    "SystemExit": SystemExit, "ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError,
}


def make_exc(name):
    e = EXC[name]("injected by the simulator")
    e.injected = True
    return e
