"""The properties and their harnesses."""
import importlib
import os

PROPS = {}


class Prop:
    def __init__(self, pid, harness, instances, bounds, **kw):
        self.id, self.harness, self.instances, self.bounds = pid, harness, instances, bounds
        self.opts = kw


def prop(pid, instances, bounds, **kw):
    """Decorator: instances(tier) -> [(name, kwargs)]."""
    def deco(h):
        PROPS[pid] = Prop(pid, h, instances, bounds, **kw)
        return h
    return deco


_loaded = False


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith('p_') and f.endswith('.py'):
            importlib.import_module('checks.' + f[:-3])


def get(pid):
    load()
    return PROPS[pid]
