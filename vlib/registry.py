"""Maps property ids to their checks."""
import importlib

MODULES = {}


def load(pid):
    if pid == "C18":
        # the clock is replaced before the code under test is imported
        importlib.import_module("vlib.props_aux").install_clock()
    for name in ("validity", "quality", "state", "aux"):
        try:
            mod = importlib.import_module("vlib.props_" + name)
        except ModuleNotFoundError as e:
            if e.name == "vlib.props_" + name:
                continue
            raise
        for p in mod.PROPS:
            if p.id == pid:
                return p
    raise SystemExit("unknown property %s" % pid)


load_light = load
