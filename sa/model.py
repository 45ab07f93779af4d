"""Building blocks shared by the property analysers."""
import ast
import os
from . import alg as A
from .alg import Rat, Phi, R
from .values import *
from . import interp as I
from . import npmodel as NP
from .core import Broken


class World:
    """one analysis of the current tree"""

    def __init__(self, ck, *mods):
        self.ck = ck
        self.ip = I.Interp()
        ck.worlds.append(self)
        for m in mods:
            self.env(m)

    def env(self, mod):
        m = self.ip.module(mod)
        if m is None:
            raise Broken("module %s is gone" % mod)
        return m.env

    def get(self, mod, name):
        v = self.env(mod).get(name)
        if v is None:
            raise Broken("%s.%s is gone" % (mod, name))
        return v

    def state(self, *mods):
        for m in mods:
            self.env(m)
        return self.ip.new_state()

    def where(self, f):
        if isinstance(f, BoundM):
            f = f.func
        if isinstance(f, FuncV):
            return "CasimirRio/%s.py:%s (line %d)" % (f.module, f.qual.split(".", 1)[1], f.node.lineno)
        if isinstance(f, ClassV):
            return "CasimirRio/%s.py:%s" % (f.module, f.name)
        return repr(f)

    def call(self, st, f, *args, **kw):
        """value of a call; raises Unsupported when it is unknown"""
        NP.LIVE = self.ip
        self.ck.dead = None
        seen = len(self.ip.unknowns)
        v = self.ip.call(f, list(args), kw, st)
        for reason, _ in self.ip.unknowns[seen:]:
            if reason.startswith(NP.DEFINITE) and not st.dead:
                # also where the value in question is not used afterwards
                raise Unsupported(reason)
        if st.dead:
            names = ",".join(sorted(set(n for c, n, _ in st.frame.raises)))
            self.ck.dead = "%s: %s never returns normally (raises %s)" % (NP.DEFINITE, self.where(f), names or "an exception")
            if isinstance(v, Unknown):
                v = Unknown(self.ck.dead)
        elif isinstance(v, Unknown):
            raise Unsupported(v.reason)
        return v

    def at(self, st, v, *idx):
        """element of an array-like value, or the scalar itself"""
        if isinstance(v, Sc):
            return v.e
        if isinstance(v, (Rat, bool, int)):
            return v
        if isinstance(v, Unknown):
            raise Unsupported(v.reason)
        if isinstance(v, Phi):
            ls = leaves(v)
            if all(isinstance(x, (Sc, Rat, bool)) for x in ls):
                return A.lift(lambda x: x.e if isinstance(x, Sc) else x, v) if not all(
                    isinstance(x, (Rat, bool)) for x in ls) else v
            return lift_leaves(v, lambda x: self.at(st, x, *idx))
        if isinstance(v, Arr):
            av = self.ip.aval(st, v)
            if len(av.shape) < len(idx):
                raise NP.error("IndexError", "the result has rank %d where %d is expected" % (len(av.shape), len(idx)))
            return av.at(idx)
        if isinstance(v, ArrVal):
            return v.at(idx)
        if isinstance(v, Ref) and v.kind == "list":
            return NP.toarr(self.ip, st, v).at(idx)
        raise Unsupported("no element of %r" % (v,))

    def shape(self, st, v):
        if isinstance(v, Sc) or isinstance(v, Rat):
            return ()
        if isinstance(v, Phi):
            return lift_leaves(v, lambda x: Tup(self.shape(st, x)))
        if isinstance(v, Unknown):
            raise Unsupported(v.reason)
        return NP.toarr(self.ip, st, v).shape


def lift_leaves(v, f):
    if not isinstance(v, Phi):
        return f(v)

    def side(pol):
        c = Phi(v.cond, True, False)
        with A.assuming(c if pol else A.bnot(c)) as ok:
            if not ok:
                return None
            return lift_leaves(v.hi if pol else v.lo, f)
    hi, lo = side(True), side(False)
    if hi is None:
        return lo
    if lo is None:
        return hi
    return A.ite(Phi(v.cond, True, False), hi, lo)


def index(name):
    return A.sym(name, integer=True, nonneg=True)


def pos(name, *a):
    return A.mk(name, a, pos=True) if a else A.sym(name, pos=True)


def nonneg(name, *a):
    return A.mk(name, a, nonneg=True) if a else A.sym(name, nonneg=True)


def posint(name):
    return A.sym(name, integer=True, pos=True)


def returns(ck, name, st, assume=True, where=""):
    """the call just analysed returns normally for every input"""
    pc = st.pc
    if st.dead or pc is False:
        return ck.violated(name, where, "never returns normally")
    with A.assuming(assume) as ok:
        if not ok:
            return ck.holds(name, where, "vacuous")
        bad = A.band(assume, A.bnot(pc))
        if bad is False:
            return ck.holds(name, where, "no exceptional exit is feasible")
        r = has_unk(bad)
        if r:
            return ck.undecided(name, where, r)
    from . import evalr
    for t in range(40):
        J = evalr.Interp(7919 * ck.seed + t)
        try:
            if J.ev(bad) is True:
                names = sorted(set(n for c, n, _ in st.frame.raises))
                return ck.violated(name, where, "raises %s when %s" % (",".join(names) or "an exception", A.clip(bad, 300)))
        except Exception:
            continue
    return ck.undecided(name, where, "exceptional exit under %s" % A.clip(bad, 200))
