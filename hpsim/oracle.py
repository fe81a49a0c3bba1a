"""Reference arithmetic: feasibility, objective and utilisation recomputed from the rectangles alone."""
EPS = 1e-9


def feasible(sol, items, containers, rotation, strip=None, height=None):
    """None, or (class, text) of what is wrong with packing `sol`.

    items: {id: (w, l)}, containers: {id: (W, L)}; strip: strip width; height: cap in force (strip)."""
    if not isinstance(sol, dict):
        return ("type", f"solution is {type(sol).__name__}")
    if set(sol) != set(containers):
        return ("containers", f"packing lists containers {sorted(sol)}, problem has {sorted(containers)}")
    seen = {}
    for cid, placed in sol.items():
        W, L = containers[cid]
        if strip is not None:
            W, L = strip, height
        rects = []
        if not hasattr(placed, "items"):
            return ("shape", f"container {cid!r}: {placed!r}")
        for iid, r in placed.items():
            if iid not in items:
                return ("unknown-item", f"item {iid!r} in {cid!r} is not an item of the problem")
            if iid in seen:
                return ("twice", f"item {iid!r} placed in {seen[iid]!r} and {cid!r}")
            seen[iid] = cid
            if not isinstance(r, (list, tuple)) or len(r) != 4 or any(not isinstance(v, int) for v in r):
                return ("shape", f"item {iid!r}: {r!r}")
            x, y, w, l = r
            iw, il = items[iid]
            if (w, l) != (iw, il) and not (rotation and (w, l) == (il, iw)):
                return ("dims", f"item {iid!r} {iw}x{il} placed as {w}x{l} (rotation={rotation})")
            if x < 0 or y < 0 or x + w > W or (L is not None and y + l > L):
                return ("outside", f"item {iid!r} at {(x, y, w, l)} leaves {cid!r} {W}x{L}")
            rects.append((x, y, w, l, iid))
        rects.sort()
        for a in range(len(rects)):
            xa, ya, wa, la, ia = rects[a]
            for b in range(a + 1, len(rects)):
                xb, yb, wb, lb, ib = rects[b]
                if xb >= xa + wa:
                    break
                if ya < yb + lb and yb < ya + la:
                    return ("overlap", f"items {ia!r} {rects[a][:4]} and {ib!r} {rects[b][:4]} overlap in {cid!r}")
    return None


def top(placed):
    return max([r[1] + r[3] for r in placed.values()] or [0])


def area(placed):
    return sum(r[2] * r[3] for r in placed.values())


def utils(sol, containers, strip=None):
    out = {}
    for cid in containers:
        placed = sol.get(cid, {})
        if strip is not None:
            h = top(placed)
            out[cid] = area(placed) / (strip * h) if h else 0.0
        else:
            W, L = containers[cid]
            out[cid] = area(placed) / (W * L)
    return out


def objective(sol, containers, strip=None):
    """The documented objective: sum of utilisations, the last of several bins weighted 0.7."""
    u = list(utils(sol, containers, strip).values())
    if len(u) == 1:
        return u[0]
    return sum(u[:-1]) + 0.7 * u[-1]


def placed_count(sol):
    return sum(len(d) for d in sol.values())


def obj_of_vals(vals):
    u = list(vals.values())
    if len(u) == 1:
        return u[0]
    return sum(u[:-1]) + 0.7 * u[-1]


def max_objective(ncont):
    return 1.0 if ncont == 1 else ncont - 1 + 0.7
