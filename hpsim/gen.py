"""Generators of problems, calls, simulator knobs and fault plans (all draws from one seeded Random)."""
import math

POINTS = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")


def strategy(rng, full=True):
    s = list(POINTS)
    rng.shuffle(s)
    if not full:
        s = s[:rng.randint(1, len(s))]
    return s


def pool(rng, n=None):
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.15 and out:
            out.append(list(rng.choice(out)))
        elif r < 0.3:
            out.append(list(POINTS))
        else:
            head = [p for p in POINTS if p not in ("A__", "B__", "F", "E")]
            rng.shuffle(head)
            out.append(head + ["A__", "B__", "F", "E"])
    return out


def ids(rng, prefix, n):
    r = rng.random()
    if r < 0.7:
        return [f"{prefix}{i}" for i in range(n)]
    if r < 0.85:
        base = [f"{prefix}{i}" for i in range(n)]
        rng.shuffle(base)
        return base
    if r < 0.94:
        return [("%s %d é\u2713" % (prefix, i)) if i % 2 else f"{i}" for i in range(n)]
    odd = ODD_IDS[:]
    rng.shuffle(odd)
    return (odd + [f"{prefix}{i}" for i in range(n)])[:n]


ODD_IDS = ["", " ", "0", "00", "-1", "a", "A", "None", "w", "W", "L", "O", "items", "caf\u00e9", "cafe\u0301", "i1", "i10", "i1 "]


def cut(rng, W, L, n):
    """Guillotine-cut a W x L rectangle into about n pieces."""
    rects = [(W, L)]
    while len(rects) < n:
        rects.sort(key=lambda r: -r[0] * r[1])
        for k, (w, l) in enumerate(rects):
            if w > 1 or l > 1:
                break
        else:
            break
        w, l = rects.pop(k)
        if (rng.random() < w / (w + l) and w > 1) or l == 1:
            c = rng.randint(1, w - 1)
            rects += [(c, l), (w - c, l)]
        else:
            c = rng.randint(1, l - 1)
            rects += [(w, c), (w, l - c)]
    return rects


def bins(rng, size="small", perfect=None, ncont=None):
    """(containers, items)"""
    if ncont is None:
        ncont = rng.choice([1, 1, 1, 2, 2, 3, 4]) if size != "tiny" else rng.choice([1, 1, 2])
    lim = {"tiny": (2, 7), "small": (3, 12), "mid": (8, 24), "large": (60, 260)}[size]
    cid = ids(rng, "c", ncont)
    containers = {}
    for c in cid:
        W, L = rng.randint(*lim), rng.randint(*lim)
        if rng.random() < 0.1:
            W = rng.choice([1, 2, W * 2])
        if rng.random() < 0.1:
            L = rng.choice([1, 2, L * 2])
        containers[c] = [W, L]
    nit = {"tiny": rng.randint(2, 5), "small": rng.randint(3, 8), "mid": rng.randint(6, 14), "large": rng.randint(3, 6)}[size]
    shape = rng.random()
    if perfect is None:
        perfect = shape < 0.3
    dims = []
    if perfect:
        k = max(1, nit // ncont)
        for c in cid:
            dims += cut(rng, *containers[c], k)
        if rng.random() < 0.3:
            W, L = containers[cid[0]]
            dims += [(rng.randint(1, W), rng.randint(1, L)) for _ in range(rng.randint(1, 2))]
        dims = [(l, w) if rng.random() < 0.3 else (w, l) for w, l in dims]
    else:
        Wm = max(c[0] for c in containers.values())
        Lm = max(c[1] for c in containers.values())
        if size == "large" and rng.random() < 0.45:
            # a big block leaves a narrow gap for which small items compete: utilizations
            # differ by one cell in many thousands just below 1
            W, L = rng.randint(100, 400), rng.randint(100, 400)
            if rng.random() < 0.15:
                W, L = W * 4, L * 3
            k, c = rng.randint(1, 3), rng.choice(cid)
            containers[c] = [W, L]
            if rng.random() < 0.7:
                containers = {c: [W, L]}
            a = rng.randint(1, W - 1)
            dims = [(W, L - k)] if rng.random() < 0.5 else [(a, L - k), (W - a, L - k)]
            b = rng.randint(W // 4, W - 2)
            dims += rng.choice([[(b, k), (W - b, k), (W - b - 1, k)], [(b, k), (W - b, k), (b + 1, k)],
                                [(W - 1, k), (1, k), (W - 2, k)], [(W, 1)] * (k - 1) + [(b, 1), (W - b - 1, 1), (W - b, 1)]])
            dims = [d if rng.random() < 0.95 else d[::-1] for d in dims]
            nit = len(dims)
        elif size == "large" and rng.random() < 0.7:
            # nearly alike: packings differ by a few cells of many thousands
            kinds = [(max(3, round(Wm * rng.uniform(0.3, 0.7))), max(3, round(Lm * rng.uniform(0.3, 0.7)))) for _ in range(2)]
            nit = rng.randint(4, 7)
            if rng.random() < 0.5:
                dims = [(a + rng.randint(-2, 2), b + rng.randint(-2, 2)) for a, b in (rng.choice(kinds) for _ in range(nit))]
            else:
                a = max(4, min(Wm, Lm) * rng.randint(30, 60) // 100)
                dims = [(a + d, a - d) for d in (rng.randint(-3, 3) for _ in range(nit))]
        for _ in range(nit - len(dims)):
            if shape < 0.4:     # around a third of the container
                w, l = rng.randint(1, max(1, Wm * 2 // 3)), rng.randint(1, max(1, Lm * 2 // 3))
            elif shape < 0.5:   # thin
                w, l = rng.randint(1, max(1, Wm)), 1
                if rng.random() < 0.5:
                    w, l = l, w
            elif shape < 0.6:   # identical or nearly
                w, l = max(1, Wm // 3), max(1, Lm // 2)
                if rng.random() < 0.2:
                    w += 1
            elif shape < 0.7:   # some do not fit
                w, l = rng.randint(1, Wm + 3), rng.randint(1, Lm + 3)
            else:
                w, l = rng.randint(1, max(1, Wm // 2 + 1)), rng.randint(1, max(1, Lm // 2 + 1))
            dims.append((w, l))
        if rng.random() < 0.03:
            dims = [(Wm + Lm + 1 + i, Wm + Lm + 1) for i in range(2)]   # nothing fits
    rng.shuffle(dims)
    iid = ids(rng, "i", len(dims))
    items = {i: list(d) for i, d in zip(iid, dims)}
    return containers, items


def strip(rng, size="small"):
    W = rng.randint(2, 8 if size == "tiny" else 12)
    n = rng.randint(2, 5) if size == "tiny" else rng.randint(3, 8)
    r = rng.random()
    dims = []
    if r < 0.35:
        dims = cut(rng, W, rng.randint(2, 12), n)
    else:
        for _ in range(n):
            w, l = rng.randint(1, W), rng.randint(1, 6)
            if r > 0.9 and rng.random() < 0.3:
                l = rng.randint(1, 3 * W)
            if r > 0.95 and rng.random() < 0.3:
                w = W + rng.randint(1, 3)
            if 0.5 < r < 0.6:
                l = 1
            dims.append((w, l))
    rng.shuffle(dims)
    iid = ids(rng, "i", len(dims))
    items = {i: list(d) for i, d in zip(iid, dims)}
    cheight = cmin = None
    H = sum(max(d) for d in dims)
    if rng.random() < 0.45:
        cheight = rng.choice([max(1, rng.randint(1, H)), max(max(d) for d in dims) + rng.randint(0, 4),
                              math.ceil(sum(a * b for a, b in dims) / W) + rng.randint(0, 4)])
    if rng.random() < 0.25:
        cmin = rng.randint(1, max(1, min(cheight or 10 * W, H)))
    return W, items, cheight, cmin


def many(rng, mode):
    """Many items, often many containers."""
    nit = rng.randint(15, 45)
    dims = [(rng.randint(1, 6), rng.randint(1, 6)) for _ in range(nit)]
    if rng.random() < 0.2:
        dims = [rng.choice(dims[:3]) for _ in dims]
    items = {i: list(d) for i, d in zip(ids(rng, "i", nit), dims)}
    if mode == "strip":
        W = rng.randint(6, 20)
        return W, items, rng.choice([None, None, rng.randint(4, 60)]), None
    ncont = rng.choice([1, 2, 3, 5, 6, 8, 11])
    return {c: [rng.randint(4, 16), rng.randint(4, 16)] for c in ids(rng, "c", ncont)}, items


def problem(rng, mode=None, size="small", perfect=None, ncont=None, settings=None):
    mode = mode or ("strip" if rng.random() < 0.3 else "bins")
    st = {}
    if rng.random() < 0.7:
        if rng.random() < 0.6:
            st["rotation"] = rng.random() < 0.5
    st.update(settings or {})
    p = {"mode": mode, "settings": st, "strategy": None, "sub": None}
    if size == "many":
        if mode == "bins":
            p["containers"], p["items"] = many(rng, mode)
        else:
            p["strip"], p["items"], p["cheight"], p["cmin"] = many(rng, mode)
    elif mode == "bins":
        p["containers"], p["items"] = bins(rng, size, perfect, ncont)
    else:
        p["strip"], p["items"], p["cheight"], p["cmin"] = strip(rng, size)
    return p


def call(rng, op=None, pools=None):
    op = op or "hypersearch"
    c = {"op": op, "throttle": rng.random() < 0.8}
    if op == "hypersearch":
        c["pool"] = pools or pool(rng)
        c["orientation"] = rng.choice(["wide", "wide", "long", None])
        c["sorting_by"] = rng.choice([["area", True], ["area", True], ["area", False],
                                      ["perimeter", True], ["longest_side_ratio", True], None])
    return c


def knobs(rng, workers=1):
    s = {"tick_cost": 10 ** rng.uniform(-6.5, -4.5),
         "jitter": rng.choice(["none", "low", "low", "mid", "mid", "stall"]),
         "start": rng.choice(["fork", "fork", "spawn"]),
         "cpu_count": rng.choice([1, 2, 4, 8]),
         "clock_base": rng.choice([1_700_000_000.0, 0.0, 12.5])}
    if rng.random() < 0.6:
        s["speeds"] = [round(10 ** rng.uniform(-1, 1.3), 3) for _ in range(max(1, workers))]
    if rng.random() < 0.5:
        u = 10 ** rng.uniform(1, 4.5)
        s["start_delay"] = [int(rng.random() * u) for _ in range(max(1, workers))]
    if rng.random() < 0.5:
        s["pipe_cap"] = rng.choice([4096, 8192, 65536])
    return s
