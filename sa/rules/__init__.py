"""Property id -> rule function."""
import importlib, pkgutil
REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


for m in pkgutil.iter_modules(__path__):
    importlib.import_module(__name__ + "." + m.name)
