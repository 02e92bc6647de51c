"""Property id -> rule function, and the least number of obligations each must find."""
import importlib
import pkgutil

CHECKS = {}
FLOORS = {}


def prop(pid, floor=1):
    def deco(f):
        CHECKS[pid] = f
        FLOORS[pid] = floor
        return f
    return deco


for _m in sorted(pkgutil.iter_modules(__path__), key=lambda m: m.name):
    importlib.import_module(f"{__name__}.{_m.name}")
