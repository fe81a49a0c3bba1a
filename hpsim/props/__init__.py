"""Registry of the property checks."""


def get(pid):
    from . import search
    mods = [search]
    for name in ("state", "conc", "export", "data", "more"):
        try:
            mods.append(__import__(f"hpsim.props.{name}", fromlist=["x"]))
        except ModuleNotFoundError as e:
            if e.name != f"hpsim.props.{name}":
                raise
    for m in mods:
        c = getattr(m, pid, None)
        if c is not None:
            return c()
    raise SystemExit(f"unknown property {pid}")


IDS = ["C%02d" % i for i in range(1, 21)]
