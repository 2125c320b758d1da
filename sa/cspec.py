"""Setting up C++ calls: symbolic objects, contracts for the library's own public operations."""
from .terms import *
from .cinterp import *
from . import build, llvmir

_mods = {}


def module(config="pure-cpp", **kw):
    k = (config, tuple(sorted(kw.items())))
    if k not in _mods:
        _mods[k] = llvmir.Module(build.cpp_module(config, **kw))
    return _mods[k]


class Ctx(object):
    def __init__(self, config="pure-cpp", hooks=None, init=True, mod=None, **kw):
        self.mod = mod or module(config)
        self.it = Interp(self.mod, hooks, **kw)
        self.st = State()
        if init:
            self.it.init_globals(self.st)

    def fork(self, hooks=None):
        """a fresh analysis starting from the initialised globals"""
        c = Ctx.__new__(Ctx)
        c.mod = self.mod
        c.it = Interp(self.mod, self.it.hooks if hooks is None else hooks, budget=self.it.budget)
        c.it.gobjs = self.it.gobjs
        c.it.ginit_data = getattr(self.it, "ginit_data", {})
        c.st = self.st.fork()
        return c

    def obj(self, name, term=None, size=None, kind="param"):
        o = Obj(name, size if size is not None else term.w // 8, kind)
        self.st.mem[o] = [{}, True]
        if term is not None:
            self.it.put(self.st, o, 0, term)
        return Ptr(o, Z64)

    def rd(self, p, n=None, off=0):
        o = cv(p.off) + off
        return self.it.get(self.st, p.obj, o, n if n is not None else p.obj.size - o)

    def call(self, dem, *args):
        if dem not in self.it.bydem:
            raise Missing(dem)
        return self.it.call(self.mod.functions[self.it.bydem[dem]], list(args), self.st)

    def has(self, dem):
        return dem in self.it.bydem

    def gval(self, dem, n=32):
        """the value of an initialised global"""
        for nm in self.mod.globals:
            if build.demangle([nm])[nm] == dem:
                o = self.it.gobj(self.st, nm)
                return self.it.get(self.st, o, 0, n)
        raise Missing(dem)


class Missing(Exception):
    pass
