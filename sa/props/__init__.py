import importlib
import pkgutil

_REG = {}


class Prop:
    def __init__(self, pid, fn, explain, rule, assumes):
        self.pid, self.fn, self.explain, self.rule, self.assumes = pid, fn, explain, rule, assumes


def prop(pid, explain, rule, assumes=()):
    def deco(fn):
        _REG[pid] = Prop(pid, fn, explain, rule, assumes)
        return fn
    return deco


def load():
    for m in pkgutil.iter_modules(__path__):
        importlib.import_module(__name__ + "." + m.name)
    return dict(_REG)
