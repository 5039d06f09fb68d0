import importlib
import os

from . import boot

_cache = {}


def ids():
    d = os.path.join(boot.VERIF, "vt", "props")
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.startswith("p") and f.endswith(".py"))


def load(pid):
    if pid not in _cache:
        mod = importlib.import_module(f"vt.props.{pid.lower()}")
        _cache[pid] = mod.PROP
    return _cache[pid]
