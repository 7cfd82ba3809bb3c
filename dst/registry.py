import importlib
import os

PROPS = {}


def modules():
    d = os.path.join(os.path.dirname(__file__), "props")
    return sorted(
        f[:-3] for f in os.listdir(d) if f.startswith("p") and f.endswith(".py")
    )


def load(pid):
    for m in modules():
        if m.split("_")[0].upper() == pid.upper():
            return importlib.import_module(f"dst.props.{m}")
    raise KeyError(pid)


def ids():
    return [m.split("_")[0].upper() for m in modules()]
