"""C15: exporting figures while storage fails."""
import atexit
import base64
import copy
import json
import os
import shutil
import tempfile
import webbrowser

from .. import driver, gen, mp, scen, storage, world
from ..base import BIG_TIME, Prop, Res, shrink_problem
from ..scen import digest, jd
from .state import plain, snapshot

JS_STUB = "/* plotly.js left out by the simulator */\n" * 400
FORMATS = ["pdf", "png", "jpeg", "webp", "svg"]
MAGIC = b"HPSIM-IMAGE "


class Renderer:
    """Stands in for kaleido's renderer process: encodes the figure it was given."""
    fs = None
    calls = 0

    @classmethod
    def transform(cls, figure, format=None, width=None, height=None, scale=None):
        """What kaleido's process does with a request."""
        cls.calls += 1
        if cls.fs is not None:
            for f in cls.fs.faults:
                if f["kind"] == "render" and not f.get("done") and cls.calls >= f["call"]:
                    f["done"] = True
                    cls.fs.fire("renderer-died")
                    raise ValueError("Failed to start Kaleido subprocess (injected by the simulator)")
            cls.fs.op("render")
        from plotly.utils import PlotlyJSONEncoder
        d = json.dumps(figure, cls=PlotlyJSONEncoder)
        img = MAGIC + json.dumps([format, len(d), width, height]).encode() + b"\n" + d.encode() + b"\n" + b"." * 30000 + b"END"
        text = format in ("svg", "json", "eps")
        return {"code": 0, "result": img.decode() if text else base64.b64encode(img).decode()}


def read_html(path):
    """(traces, layout) of an exported page, or an error text."""
    s = storage._real["open"](path, encoding="utf-8").read()
    if not s.rstrip().endswith("</html>"):
        return f"incomplete page ({len(s)} characters)"
    i = s.rfind("Plotly.newPlot(")
    if i < 0:
        return "no plot in the page"
    pos = i + len("Plotly.newPlot(")
    dec = json.JSONDecoder()
    out = []
    for _ in range(3):
        while s[pos] in " ,\n\r\t":
            pos += 1
        v, pos = dec.raw_decode(s, pos)
        out.append(v)
    return out[1], out[2]


def read_image(path, ex):
    b = storage._real["open"](path, "rb").read()
    if not b.startswith(MAGIC) or not b.endswith(b"END"):
        return f"incomplete image ({len(b)} bytes)"
    head, d, _ = b[len(MAGIC):].split(b"\n", 2)
    f, n, w, h = json.loads(head)
    if {"jpg": "jpeg"}.get(f, f) != ex["format"]:
        return f"image rendered as {f!r}, the setting is {ex['format']!r}"
    if (w, h) != (ex.get("width") or 1700, ex.get("height") or 1700):
        return f"image of {w}x{h}, the settings are {ex}"
    if len(d) != n:
        return "incomplete image"
    d = json.loads(d)
    return d["data"], d["layout"]


def figure_error(fig, placed, W, L):
    """Does the figure show exactly the placed items?"""
    if isinstance(fig, str):
        return fig
    data, layout = fig
    shapes = [s for s in layout.get("shapes", []) if s.get("type") == "rect"]
    have = {}
    frames = []
    for s in shapes:
        r = (min(s["x0"], s["x1"]), min(s["y0"], s["y1"]), max(s["x0"], s["x1"]), max(s["y0"], s["y1"]))
        label = (s.get("label") or {}).get("text")
        if label is None:
            frames.append(r)
            continue
        if label in have:
            return f"item {label!r} shown twice"
        have[label] = r
    want = {i: (x, y, x + w, y + l) for i, (x, y, w, l) in placed.items()}
    if have != want:
        diff = {i: (want.get(i), have.get(i)) for i in {*want, *have} if want.get(i) != have.get(i)}
        return f"items (placed, shown): {dict(list(diff.items())[:4])}"
    top = max([r[3] for r in want.values()] or [0])
    if len(frames) != 1 or frames[0][:3] != (0, 0, W) or (frames[0][3] != L if L is not None else frames[0][3] < top):
        return f"the outline of the container {W}x{L} is {frames}"
    boxes = sorted((min(t["x"]), min(t["y"]), max(t["x"]), max(t["y"])) for t in data if t.get("x"))
    if boxes != sorted(want.values()):
        return f"hover boxes {boxes[:4]} for items {sorted(want.values())[:4]}"
    xr, yr = layout["xaxis"].get("range"), layout["yaxis"].get("range")
    for i, r in want.items():
        if xr and not (xr[0] <= r[0] and r[2] <= xr[1]) or yr and not (yr[0] <= r[1] and r[3] <= yr[1]):
            return f"item {i!r} at {r} lies outside the shown range {xr} x {yr}"
    return None


def directory(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = os.path.getsize(p)
    return out


def batch_figures():
    """plotly takes quadratic time to add shapes and traces one by one: add them together when the figure is read."""
    import plotly.basedatatypes as bdt
    import plotly.graph_objects as go
    real = {n: getattr(bdt.BaseFigure, n) for n in ("to_dict", "add_trace")}
    waiting = {}

    def add_shape(self, arg=None, row=None, col=None, exclude_empty_subplots=None, **kw):
        waiting.setdefault(id(self), ([], []))[0].append({**(arg or {}), **kw})
        return self

    def add_trace(self, trace, *a, **kw):
        waiting.setdefault(id(self), ([], []))[1].append(trace)
        return self

    def to_dict(self):
        shapes, traces = waiting.pop(id(self), ([], []))
        if shapes:
            self.layout.shapes = tuple(self.layout.shapes) + tuple(shapes)
        if traces:
            self.add_traces(traces)
        return real["to_dict"](self)
    for c in (bdt.BaseFigure, go.Figure):
        for f in (add_shape, add_trace, to_dict):
            setattr(c, f.__name__, f)


class C15(Prop):
    id = "C15"
    rule = ("one case = one solved problem exported fault-free and then with storage faults placed on its storage operations "
            "(errors at open/write/close, torn and short writes, full disk, denied or vanished directory, dying image renderer, "
            "interrupts and allocation failures in the exporting code), each followed by healing and a repeated export; all files "
            "parsed back; non-trivial = a fault fired")
    counts = {"quick": 800, "thorough": 20000}
    real = ["hyperpack.mixins (figure creation and export)", "plotly figures, JSON encoding and HTML writing",
            "pathlib and buffered I/O on a scratch directory"]
    stubs = ["kaleido's renderer process: encodes the figure it is given", "plotly.js source: short text in most runs",
             "system calls on files below the export directory: fault seam"]
    assumptions = ["storage reports its failures (no silently lost writes)"]

    def prepare(self, tier):
        world.boot()
        import plotly.graph_objects
        import plotly.io
        import plotly.io._html
        import plotly.offline.offline as off
        import plotly.io._kaleido as kal
        self.js = [off, plotly.io._html]
        if kal.scope is not None:
            type(kal.scope)._perform_transform = lambda scope, data, **kw: Renderer.transform(data, **kw)
        fig = plotly.graph_objects.Figure()
        fig.add_shape(type="rect", x0=0, x1=1, y0=0, y1=1, label={"text": "x", "font": {"size": 3}}, line=dict(color="black"))
        fig.add_trace(plotly.graph_objects.Scatter(x=[0], y=[1]))
        fig.to_html()
        self.kaleido = kal.scope is not None
        if self.kaleido:
            fig.to_image("png")
        storage.install()
        self.scratch = tempfile.mkdtemp(prefix="hpsim-export-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(self.scratch, ignore_errors=True))

    def gen(self, rng, index, tier):
        st = {"workers_num": 1, "max_time_in_seconds": BIG_TIME}
        p = gen.problem(rng, None, rng.choice(["tiny", "small"]), None, None, st)
        if rng.random() < 0.3:
            names = ["<b>x</b>", "</script>", 'q"uo\'te', "a/b", "back\\slash", "{0}", "%s", "\u2028sep", "&amp;"]
            ids = list(p["items"])
            for i in range(min(len(ids), rng.randint(1, 3))):
                n = rng.choice(names)
                if n not in p["items"]:
                    p["items"] = {n if k == ids[i] else k: v for k, v in p["items"].items()}
        bad = False
        if p["mode"] == "bins" and rng.random() < 0.3:
            names = ["a.b", "50%", "{c}", "x y", "\u00fcber", "c#1", "-dash", ".hidden", "a&b"]
            if rng.random() < 0.1:
                names, bad = ["a/b", "x" * 300, "nul\0", "../up"], True
            cs = list(p["containers"])
            n = rng.choice(names)
            k = rng.randrange(len(cs))
            p["containers"] = {n if c == cs[k] else c: v for c, v in p["containers"].items()}
        if index % 90 == 11:        # more items than colours
            n, bad = 1005 + rng.randint(0, 30), False
            p = {"mode": "bins", "settings": st, "strategy": None, "sub": None, "containers": {"c": [n // 20 + 2, 25]},
                 "items": {f"i{k}": [1, 1] for k in range(n)}}
        elif index % 20 == 13:      # big and small items in a wide space
            n = rng.randint(2, 5)
            p["items"] = {f"i{k}": [rng.choice([1, 1, 2, 7, 40]), rng.choice([1, 1, 2, 9, 30])] for k in range(n)}
            if p["mode"] == "bins":
                p["containers"] = {c: [rng.randint(40, 150), rng.randint(40, 150)] for c in p["containers"]}
            else:
                p["strip"], p["cheight"], p["cmin"] = rng.randint(40, 80), None, rng.choice([None, 300])
        ex = self.settings(rng)
        case = {"problem": p, "export": ex, "bad": bad, "op": rng.choice(["solve", "solve", "local_search"]),
                "show": rng.choice(["setting", "argument", "both"]) if rng.random() < 0.2 else False, "realjs": rng.random() < 0.04, "pre": rng.choice([0, 0, 1, 2]),
                "edit": rng.random() < 0.3, "sim": {"tick_cost": 1e-6, "jitter": rng.choice(["none", "low"])}, "variants": []}
        if len(p["items"]) > 1000:
            case["op"] = "solve"
            case["edit"] = False
        if len(p["items"]) > 1000:
            return case
        if rng.random() < 0.2:
            # the repeated export under other settings
            case["export2"] = self.settings(rng)
            case["moved"] = rng.random() < 0.5
        elif case["show"] and rng.random() < 0.3:
            # figures only shown
            case["export"] = None
            case["pre"], case["bad"] = 0, False
            ex = {"type": None}
        for n in range(rng.choice([2, 4, 6])):
            case["variants"].append({"n": n, "fault": self.fault(rng, ex, bool(case["show"]))})
        return case

    def settings(self, rng):
        ex = {"type": "html"}
        if self.kaleido and rng.random() < 0.4:
            ex = {"type": "image", "format": rng.choice(FORMATS)}
            if rng.random() < 0.4:
                ex.update(width=rng.choice([100, 1700, 1]))
            if rng.random() < 0.4:
                ex.update(height=rng.choice([50, 900, 1]))
        elif rng.random() < 0.1:
            ex["format"] = rng.choice(FORMATS)
        if rng.random() < 0.6:
            ex["file_name"] = rng.choice(["fig", "a-b_c", "X" * 45, "PlotlyGraph", "7", "_", "-"])
        return ex

    def fault(self, rng, ex, case_show=False):
        if ex.get("type", "html") is None:
            return {"kind": "browser", "frac": round(rng.random(), 4)}
        kind = rng.choice(["error"] * 4 + ["torn", "torn", "full", "full", "close", "gone", "denied", "short", "short", "tick", "tick"]
                          + (["render", "render"] if ex.get("type") == "image" else []) + ["browser"] * (3 if case_show else 0))
        f = {"kind": kind, "frac": round(rng.random(), 4)}
        if kind == "error":
            f["errno"] = rng.choice(storage.ERRNOS)
            if rng.random() < 0.3:
                f["only"] = rng.choice(["open", "write", "close", "open"])
        elif kind == "torn":
            f.update(room=rng.choice([1, 100, 0.5, 0.99]), errno=rng.choice(["EIO", "ENOSPC", "EDQUOT"]))
        elif kind == "full":
            f["room"] = rng.choice([0, 0, 10, 5000, 0.9])
        elif kind == "close":
            f["errno"] = rng.choice(["EIO", "ENOSPC", "EDQUOT"])
        elif kind == "short":
            f.update(room=rng.choice([1, 7, 4096, 0.5]), count=rng.randint(1, 4))
        elif kind == "tick":
            f["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit", "RecursionError"])
        return f

    # -------------------------------------------------------------- running
    def run(self, case):
        res = Res()
        # the case's own directory, in a folder of this run
        d = tempfile.mkdtemp(dir=self.scratch if os.path.isdir(getattr(self, "scratch", "")) else None, prefix="case-")
        try:
            self.body(case, res, d)
        finally:
            storage.ACTIVE = None
            shutil.rmtree(d, ignore_errors=True)
        return res.out()

    def body(self, case, res, d):
        if not case.get("realjs"):
            for m in self.js:
                if hasattr(m, "get_plotlyjs"):
                    m.get_plotlyjs = lambda: JS_STUB
        if len(case["problem"]["items"]) > 100:
            batch_figures()
        base = self.export(case, None, None, os.path.join(d, "base"), res, case.get("check_base", True))
        if base is None:
            return
        for n, v in enumerate(case["variants"]):
            if len(res.viol):
                break
            self.export(case, v, base, os.path.join(d, f"v{n}"), res, True)

    def export(self, case, v, base, d, res, check):
        """One simulated run: solve, export (with the variant's fault), heal, export again.  Returns the operation counts."""
        os.mkdir(d)
        spec = copy.deepcopy(case["problem"])
        # a setting left out is decided by the argument
        show = {} if case.get("show") in ("argument", False) else {"show": True}
        if not case.get("show") and len(spec["items"]) % 2:
            show = {"show": False}
        argument = [True] if case.get("show") in ("argument", "both") else []
        figure = show if case["export"] is None else {"export": dict(case["export"], path=d), **show}
        spec["settings"] = dict(spec["settings"], figure=figure)
        f = dict(v["fault"]) if v else None
        sim_spec = dict(case["sim"], faults=[])
        fl = []
        if f is not None:
            fr = f.pop("frac")
            if f["kind"] == "tick":
                sim_spec["faults"] = []
                tick = base["t0"] + max(1, round(fr * base["ticks"]))
                sim_spec["faults"] = [{"kind": "raise", "exc": f["exc"], "tick": tick}]
            elif f["kind"] == "render":
                fl = [dict(f, call=1 + int(fr * base["renders"]))]
            elif f["kind"] == "browser":
                fl = [dict(f, call=1 + int(fr * base["shown"]))]
            else:
                fl = [dict(f, at=1 + int(fr * base["ops"]))]
        fs = storage.FS(d, fl)
        sim = world.Simulation(sim_spec, case["seed"] + (v or {}).get("n", -1) + 1, None, "async")
        box = {}
        shown = []
        import plotly.basedatatypes as bdt

        def show_figure(fig, *a, **k):
            for b in fs.faults:
                if b["kind"] == "browser" and not b.get("done") and len(shown) + 1 >= b["call"]:
                    b["done"] = True
                    fs.fire("no-browser")
                    e = webbrowser.Error("could not locate runnable browser (injected by the simulator)")
                    e.injected = True
                    raise e
            shown.append(fig.to_dict())
        bdt.BaseFigure.show = show_figure
        one = dict(case, variants=[v] if v else [], check_base=False if v else True)

        def body(t):
            k = sim.kernel
            faults, k.faults = k.faults, []
            t.fault_ticks, stops = [], t.fault_ticks
            k._set_stop(t)
            try:
                p = box["p"] = scen.build(spec)
            except world.hp.SettingsError as e:
                box["refused"] = e
                return
            scen.do_call(p, {"op": case["op"]})
            box["sol"] = copy.deepcopy(dict(p.solution))
            vals = dict(p.obj_val_per_container)
            snap, items = snapshot(p), plain(p.items)
            for i in range(case["pre"]):
                # older files: of the same name and longer, and unrelated ones
                cid = list(p.containers)[0] if i == 0 else "unrelated"
                try:
                    with storage._real["open"](os.path.join(d, self.name(case["export"], cid)), "w") as g:
                        g.write("old " * 300000 if i == 0 and not case["realjs"] else "old " * 10)
                except (OSError, ValueError):
                    pass
            box["old"] = directory(d)
            k.faults, t.fault_ticks = faults, stops
            k._set_stop(t)
            box["t0"] = t.ticks
            Renderer.fs, Renderer.calls = fs, 0
            with storage.active(fs):
                try:
                    p.create_figure(*argument)
                    box["exc"] = None
                except mp.HarnessError:
                    raise
                except BaseException as e:
                    box["exc"] = e
            t.fault_ticks, k.faults, t.pending = [], [], None
            k._set_stop(t)
            Renderer.fs = None
            box["ticks"], box["renders"] = t.ticks - box["t0"], Renderer.calls
            box["dir"] = directory(d) if os.path.isdir(d) else None
            split = os.path.isdir(d + ".gone") and os.path.isdir(d)
            fs.heal()           # brings a vanished directory back
            box["shown"] = list(shown)
            if box["exc"] is None:
                box["state"] = None if split else self.complete(case, case["export"], p, d, shown)
            changed = [n for n, a, b in (("solution", box["sol"], dict(p.solution)), ("figures", vals, dict(p.obj_val_per_container)),
                                         ("problem", snap, snapshot(p)), ("items", items, plain(p.items))) if a != b or
                       (n == "solution" and [(c, list(x)) for c, x in a.items()] != [(c, list(x)) for c, x in b.items()])]
            box["changed"] = changed
            if len(p.items) > 1000:
                return
            if case["edit"] and len(p.items) > 1:
                # the next solution's figures replace these
                del p.items[list(p.items)[0]]
                p.solve()
            ex2, d2 = case.get("export2") or case["export"], d
            if case.get("export2"):
                if case.get("moved"):
                    d2 = d + ".other"
                    os.mkdir(d2)
                try:
                    p.settings = dict(spec["settings"], figure={"export": dict(ex2, path=d2), **show})
                except world.hp.SettingsError as e:
                    box["refused"] = e
                    return
            del shown[:]
            with storage.active(fs):
                try:
                    p.create_figure(*argument)
                    box["exc2"] = None
                except mp.HarnessError:
                    raise
                except BaseException as e:
                    box["exc2"] = e
            if box["exc2"] is None:
                box["state2"] = self.complete(case, ex2, p, d2, shown)
        out = sim.run(body)
        if sim.exc is not None:
            raise sim.exc
        if out != "completed":
            if check:
                res.violation("no-return", f"export ended in {out}", one)
            return None
        res.runs += 1
        if "refused" in box:
            res.violation("settings-refused", f"documented figure settings are refused: {scen.describe_exc(box['refused'])}", one)
            return None
        k = sim.kernel
        for n, c in list(fs.fired.items()) + list(k.fired.items()):
            res.stat("fault:" + n, c)
        fired = bool(fs.fired or k.fired)
        res.stat("storage_operations", fs.n)
        res.stat("sim_seconds", k.now)
        res.scheds.add(digest(jd(fs.log), jd(fs.fired), jd(k.fired)))
        if fired:
            res.keys.add(digest(jd(spec), jd(v)))
        if v is None or fired:
            res.sample = {"problem": {**spec, "items": dict(list(spec["items"].items())[:10])}, "fault": v and v["fault"],
                          "operations": fs.log[:40], "raised": scen.describe_exc(box["exc"]), "files": sorted(box["dir"] or {})}
        if check:
            self.check(case, one, box, fs, k, res, v, d)
        return {"ops": max(1, fs.n if v is None else 1), "ticks": box["ticks"], "t0": box["t0"], "renders": max(1, box["renders"]),
                "shown": max(1, len(box["shown"]))} \
            if v is None else box

    @staticmethod
    def name(ex, cid):
        fmt = ex["format"] if ex.get("type") == "image" else "html"
        return f"{ex.get('file_name') or 'PlotlyGraph'}__{cid}.{fmt}"

    def complete(self, case, ex, p, d, shown):
        """What is missing or wrong after an export under the settings `ex` returned."""
        def wrong(fig, cid):
            L = None if case["problem"]["mode"] == "strip" else p.containers[cid]["L"]
            return figure_error(fig, p.solution.get(cid, {}), p.containers[cid]["W"], L)
        if ex is not None:
            for cid in p.containers:
                name = self.name(ex, cid)
                f = os.path.join(d, name)
                if not os.path.isfile(f):
                    return ("missing-file", f"no file {name!r}; files {sorted(directory(d)) if os.path.isdir(d) else None}")
                try:
                    fig = read_image(f, ex) if ex.get("type") == "image" else read_html(f)
                except (ValueError, IndexError, KeyError) as e:
                    fig = f"unreadable: {e!r}"
                e = wrong(fig, cid)
                if e:
                    return ("wrong-file" if not isinstance(fig, str) else "incomplete-file", f"{name!r}: {e}")
        want = list(p.containers) if case.get("show") else []
        if len(shown) != len(want):
            return ("shown", f"{len(shown)} figures were shown, {len(want)} containers are to be shown")
        left = [(f["data"], f["layout"]) for f in shown]
        for cid in want:
            es = [wrong(f, cid) for f in left]
            if None not in es:
                return ("wrong-figure-shown", f"no figure shown for container {cid!r}: {es[:2]}")
            del left[es.index(None)]
        return None

    def check(self, case, one, box, fs, k, res, v, d):
        e = box["exc"]
        what = f"fault {v['fault'] if v else None}"
        if e is None:
            res.stat("exports_completed")
            if box["state"]:
                res.violation(box["state"][0], f"{what}: export returned, but {box['state'][1]}", one)
                return
            if not fs.failures and not k.fired:
                extra = set(box["dir"]) - set(box["old"]) - {self.name(case["export"], c) for c in box["p"].containers if case["export"]}
                if extra and not case["edit"]:
                    res.violation("extra-file", f"export also left {sorted(extra)}", one)
                    return
        else:
            res.stat("exports_failed")
            if isinstance(e, world.hp.FigureExportError):
                if not fs.failures and not k.fired and not case["bad"]:
                    res.violation("spurious-failure", f"{what}: {scen.describe_exc(e)} although nothing failed", one)
                    return
            elif not getattr(e, "injected", False):
                res.violation("wrong-exception", f"{what} (fired {fs.fired}): raised {scen.describe_exc(e)}", one)
                return
        for n, size in box["old"].items():
            if "unrelated" in n and box["dir"] is not None and box["dir"].get(n) != size:
                res.violation("other-file", f"{what}: unrelated file {n!r} was changed", one)
                return
        if box["changed"]:
            res.violation("problem-changed", f"{what}: exporting changed the {box['changed']}", one)
            return
        if "exc2" not in box:
            return
        if case["bad"]:
            if box["exc2"] is not None and not isinstance(box["exc2"], world.hp.FigureExportError):
                res.violation("wrong-exception", f"raised {scen.describe_exc(box['exc2'])}", one)
            return
        if box["exc2"] is not None:
            res.violation("repeat-failed", f"{what}: the export repeated after the fault raised {scen.describe_exc(box['exc2'])}", one)
        elif box["state2"]:
            res.violation("repeat-incomplete", f"{what}: after the repeated export {box['state2'][1]}", one)

    def shrink(self, case):
        vs = case["variants"]
        if len(vs) > 1:
            for v in vs:
                yield dict(case, variants=[v])
        elif vs:
            f = vs[0]["fault"]
            for nf in (0.0, 0.5, round(f["frac"], 1)):
                if nf != f["frac"]:
                    yield dict(case, variants=[dict(vs[0], fault=dict(f, frac=nf))])
        for k, v in (("edit", False), ("pre", 0), ("realjs", False), ("show", False), ("op", "solve"), ("bad", False), ("moved", False),
                     ("export2", None)):
            if (case.get(k) or v) != v and (k != "bad") and (k != "show" or case["export"]):
                yield dict(case, **{k: v})
        p = case["problem"]
        if len(p["items"]) > 100:
            for n in (10, 500, 1001):
                if n < len(p["items"]):
                    yield dict(case, problem=dict(p, items=dict(list(p["items"].items())[:n])))
            return
        for p in shrink_problem(p):
            yield dict(case, problem=p)

    def sanity(self, agg, tier):
        for k in ("exports_completed", "exports_failed"):
            if not agg.get(k):
                return f"no {k}"
