"""C16: the random problem generator under a random source controlled by the simulator."""
import contextlib
import copy
import io
import random

from .. import mp, scen, world
from ..base import Prop, Res
from ..kernel import Choices
from ..scen import digest, jd

SOURCE = None
FUNCS = ["random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices", "normalvariate",
         "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate", "gauss", "betavariate", "binomialvariate",
         "paretovariate", "weibullvariate", "getrandbits", "randbytes", "seed"]
_Real = random.Random
# policies: (lowest, highest, second lowest, second highest, any) weights
POLICIES = {"low": (1, 0, 0, 0, 0), "high": (0, 1, 0, 0, 0), "extremes": (1, 1, 0, 0, 0), "edges": (3, 3, 1, 1, 1),
            "any": (0, 0, 0, 0, 1), "low-then": (8, 1, 1, 1, 1), "high-then": (1, 8, 1, 1, 1)}


class Source:
    def __init__(self, seed, policy, choices=None):
        self.c = Choices(seed, choices)
        self.w = POLICIES[policy]
        self.kinds = [0] * 5
        self.draws = 0

    def below(self, n):
        self.draws += 1
        k = self.c.pick(self.w)
        self.kinds[k] += 1
        if k == 4:
            return self.c.below(n)
        return (0, n - 1, min(1, n - 1), max(0, n - 2))[k]


class SimRandom(_Real):
    """Every draw is decided by the active source."""

    def __init__(self, *a):
        super().__init__(0)

    def seed(self, *a, **kw):
        if SOURCE is None:
            super().seed(0)

    def random(self):
        if SOURCE is None:
            return super().random()
        return SOURCE.below(2 ** 53) / 2 ** 53

    def getrandbits(self, k):
        if SOURCE is None:
            return super().getrandbits(k)
        return SOURCE.below(2 ** k) if k else 0

    def _randbelow(self, n):
        if SOURCE is None:
            return _Real(0)._randbelow(n)
        return SOURCE.below(n)


def install():
    """Before hyperpack is imported: module functions, the module's Random and SystemRandom draw from the source."""
    if getattr(random, "_hpsim", None):
        return
    random._hpsim = sim = SimRandom()
    for n in FUNCS:
        f = getattr(random, n, None)
        if f is None:
            continue

        def g(*a, _f=f, _m=getattr(sim, n), **kw):
            return (_m if SOURCE is not None else _f)(*a, **kw)
        g.__name__ = n
        setattr(random, n, g)

    class Random(SimRandom):
        pass
    random.Random = random.SystemRandom = Random


DEFAULTS = ("containers_num", "containers_width", "containers_length", "items_num", "items_width", "items_length")


class C16(Prop):
    id = "C16"
    rule = ("one case = guidelines (each given or omitted, 1 to 10**10; up to 2002 items or 101 containers) and a policy for the random source (lowest, highest, edges, "
            "any); data checked, accepted by HyperPack and solved, generated twice; non-trivial = at least one extreme draw")
    counts = {"quick": 30000, "thorough": 400000}
    real = ["hyperpack.utils.generate_problem_data", "hyperpack problem construction and solving"]
    stubs = ["random source: every draw decided by the simulator"]

    def prepare(self, tier):
        install()
        world.boot()
        import hyperpack.utils

    def gen(self, rng, index, tier):
        def size(big):
            r = rng.random()
            if r < 0.45:
                return rng.randint(1, 6)
            if r < 0.8:
                return rng.randint(1, 60)
            return int(10 ** rng.uniform(0, big if r < 0.97 else 10))
        kw = {}
        for n, big in (("containers_width", 4.3), ("containers_length", 4.3), ("items_width", 4.3), ("items_length", 4.3)):
            if rng.random() < 0.85:
                kw[n] = size(big)
        if rng.random() < 0.9:
            kw["containers_num"] = rng.choice([1, 1, 2, 3, 5])
        kw["items_num"] = rng.choice([1, 1, 2, 4, 8])
        if rng.random() < 0.1:
            del kw["items_num"]
        elif index % 40 == 17:      # many
            kw["items_num"] = rng.choice([30, 99, 101, 260, 1001])
            kw["containers_num"] = rng.choice([1, 2, 4, 11] if kw["items_num"] < 200 else [1, 2])
        elif index % 40 == 27:
            kw["containers_num"] = rng.choice([9, 10, 11, 12, 30, 101])
        return {"kwargs": kw, "policy": rng.choice(sorted(POLICIES)), "rotation": rng.random() < 0.5,
                "solve": max([kw.get("containers_width", 50), kw.get("containers_length", 50)]) <= 200 and rng.random() < 0.3,
                "strip": rng.random() < 0.3}

    def run(self, case):
        global SOURCE
        res = Res()
        # generation runs inside a simulation: clock and time seams as everywhere else
        kw = case["kwargs"]
        src = Source(case["seed"], case["policy"], case.get("choices"))
        from hyperpack import utils
        before = copy.deepcopy(kw)
        try:
            SOURCE = src
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    d = utils.generate_problem_data(**kw)
                    keep = copy.deepcopy(d)
                    n1 = src.draws
                    d2 = utils.generate_problem_data(**kw)
            finally:
                SOURCE = None
        except Exception as e:
            res.violation("raised", f"generate_problem_data({kw}) raised {scen.describe_exc(e)} with draws {src.c.log[:20]}", case)
            return res.out()
        res.runs += 2
        res.stat("draws", src.draws)
        for n, c in zip(("lowest", "highest", "second-lowest", "second-highest", "any"), src.kinds):
            if c:
                res.stat("fault:draw-" + n, c)
        res.scheds.add(digest(jd(kw), jd(src.c.log)))
        if sum(src.kinds[:4]):
            res.keys.add(digest(jd(kw), jd(src.c.log)))
        res.sample = {"kwargs": kw, "policy": case["policy"], "draws": src.c.log[:20],
                      "data": {k: dict(list(v.items())[:2]) for k, v in d.items()}}
        e = self.error(d, kw) or (None if d == keep else ("aliased", f"generating again changed the first data to {d}")) \
            or self.error(d2, kw)
        if e:
            res.violation(e[0], f"{kw}, draws {src.c.log[:12]}: {e[1]}", case)
            return res.out()
        items, conts = copy.deepcopy(d["items"]), copy.deepcopy(d["containers"])
        try:
            st = {"rotation": case["rotation"], "workers_num": 1}
            p = world.hp.HyperPack(items=d["items"], containers=d["containers"], settings=st)
            q = world.hp.HyperPack(items=d2["items"], strip_pack_width=10 ** 5, settings=st) if case["strip"] else None
        except Exception as ex:
            res.violation("rejected", f"{kw}: HyperPack rejects {jd(d)[:400]}: {scen.describe_exc(ex)}", case)
            return res.out()
        if {i: dict(p.items[i]) if isinstance(p.items[i], dict) else {k: p.items[i][k] for k in p.items[i]} for i in p.items} != items:
            res.violation("changed", "the problem holds other items than the data", case)
        if case["solve"]:
            try:
                p.solve()
            except Exception as ex:
                res.violation("solve", f"{kw}: solving the data raised {scen.describe_exc(ex)}", case)
                return res.out()
            if set(p.solution) != set(conts):
                res.violation("solve", f"{kw}: solution for {sorted(p.solution)}", case)
            res.stat("solved")
        return res.out()

    @staticmethod
    def error(d, kw):
        if not isinstance(d, dict) or set(d) != {"containers", "items"}:
            return ("shape", f"returned {jd(d)[:200]}")
        nc = kw.get("containers_num", 1)
        if len(d["containers"]) != nc:
            return ("containers-number", f"{len(d['containers'])} containers instead of {nc}")
        if "items_num" in kw and len(d["items"]) != kw["items_num"] * nc:
            return ("items-number", f"{len(d['items'])} items instead of {kw['items_num']} for each of {nc} containers")
        for T, dims in (("containers", (("W", "containers_width", 0.1), ("L", "containers_length", 0.1))),
                        ("items", (("w", "items_width", 0.6), ("l", "items_length", 0.6)))):
            for i, x in d[T].items():
                if not isinstance(i, str) or set(x) != {a for a, _, _ in dims}:
                    return ("shape", f"{T} {i!r}: {x}")
                for a, g, dev in dims:
                    v = x[a]
                    if type(v) is not int or v < 1:
                        return ("dimension", f"{T} {i!r} has {a}={v!r} for guideline {g}={kw.get(g)}")
                    if g in kw and abs(v - kw[g]) > max(1, dev * kw[g] + 0.5):
                        return ("guideline", f"{T} {i!r} has {a}={v!r}, guideline {g}={kw[g]}")
        return None

    def shrink(self, case):
        kw = case["kwargs"]
        for k in kw:
            yield dict(case, kwargs={a: b for a, b in kw.items() if a != k})
            for nv in {1, kw[k] // 2, kw[k] - 1}:
                if 1 <= nv < kw[k]:
                    yield dict(case, kwargs=dict(kw, **{k: nv}))
        for p in ("low", "high"):
            if case["policy"] not in ("low", "high"):
                yield dict(case, policy=p)
        for k in ("solve", "strip", "rotation"):
            if case[k]:
                yield dict(case, **{k: False})

    def sanity(self, agg, tier):
        for k in ("fault:draw-lowest", "fault:draw-highest", "solved"):
            if not agg.get(k):
                return f"no {k}"
