"""Abstract values of the gated value-graph analysis."""
from fractions import Fraction as Fr
from . import alg as A
from .alg import Rat, Phi, R, lift, ite


class Unsupported(Exception):
    """the construct is outside the vocabulary of the analysis"""


class Sc:
    """numeric scalar; k in i(nt) f(loat) I(np int) F(np float)"""
    __slots__ = ("e", "k")

    def __init__(self, e, k="f"):
        self.e = e if isinstance(e, (Rat, Phi)) else R(e)
        self.k = k

    def same_as(self, o):
        return isinstance(o, Sc) and A.same(self.e, o.e) and self.k == o.k

    def __repr__(self):
        return "Sc(%s)" % A.clip(self.e, 120)

    def alg_key(self):
        return ("Sc", A._argkey(self.e))

    def alg_subst(self, s, mp, fn):
        return Sc(s(self.e), self.k)


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def same_as(self, o):
        return isinstance(o, Tup) and len(o.items) == len(self.items) and \
            all(A.same(a, b) for a, b in zip(self.items, o.items))

    def __repr__(self):
        return "Tup" + repr(self.items)

    def alg_key(self):
        return ("Tup",) + tuple(vkey(x) for x in self.items)

    def alg_subst(self, s, mp, fn):
        return Tup([s(x) if not isinstance(x, (str, type(None))) else x for x in self.items])


class Ref:
    """reference to a heap cell: kind list / dict / obj / set"""
    __slots__ = ("cell", "kind")

    def __init__(self, cell, kind):
        self.cell, self.kind = cell, kind

    def same_as(self, o):
        return isinstance(o, Ref) and o.cell == self.cell

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.cell)

    def alg_key(self):
        return ("Ref", self.cell)


class Arr:
    """reference to an array cell through a strided view"""
    __slots__ = ("cell", "view")

    def __init__(self, cell, view=None):
        self.cell, self.view = cell, view

    def same_as(self, o):
        return isinstance(o, Arr) and o.cell == self.cell and \
            (self.view is o.view or (self.view is not None and o.view is not None
                                     and self.view.key() == o.view.key()))

    def __repr__(self):
        return "<arr %s%s>" % (self.cell, " view" if self.view else "")

    def alg_key(self):
        return ("Arr", self.cell, self.view.key() if self.view else None)


class View:
    """shape: out shape; spec: per base axis either ('c', index) or
    ('a', out axis, start, step)"""
    __slots__ = ("shape", "spec")

    def __init__(self, shape, spec):
        self.shape, self.spec = tuple(shape), tuple(spec)

    def key(self):
        return (tuple(A._argkey(s) for s in self.shape),
                tuple(tuple(A._argkey(x) if isinstance(x, Rat) else x for x in sp) for sp in self.spec))

    def base(self, idx):
        out = []
        for sp in self.spec:
            if sp[0] == "c":
                out.append(sp[1])
            else:
                out.append(sp[2] + sp[3] * idx[sp[1]])
        return tuple(out)

    def inverse(self, b):
        """(gated boolean region, out index) for base index b"""
        n = len(self.shape)
        out = [A.ZERO] * n
        c = True
        for bi, sp in zip(b, self.spec):
            if sp[0] == "c":
                c = A.band(c, A.eq0(bi - sp[1]))
            else:
                ax, st, step = sp[1:]
                o = (bi - st) / step
                k = step.const()
                if k is None or abs(k) != 1:
                    c = A.band(c, A.eq0(o - A.floor(o)))
                    o = A.floor(o) if k is not None else o
                c = A.band(c, A.ge0(o))
                c = A.band(c, A.gt0(self.shape[ax] - o))
                out[ax] = o
        return c, tuple(out)


class ArrVal:
    """immutable array contents: shape, element function of a symbolic index"""
    __slots__ = ("shape", "fn", "dtype", "memo", "tag")

    def __init__(self, shape, fn, dtype="f", tag=None):
        self.shape = tuple(s if isinstance(s, Rat) else R(s) for s in shape)
        self.fn, self.dtype, self.memo, self.tag = fn, dtype, {}, tag

    def at(self, idx):
        idx = tuple(i if isinstance(i, Rat) else R(i) for i in idx)
        if len(idx) != len(self.shape):
            raise Unsupported("index arity %d for shape of rank %d" % (len(idx), len(self.shape)))
        k = (tuple(i.key() for i in idx), A.FACTS.tok)
        v = self.memo.get(k)
        if v is None:
            v = self.fn(idx)
            if isinstance(v, Sc):
                v = v.e
            if isinstance(v, Unknown):
                v = unk(v.reason)
            self.memo[k] = v
        return v

    def __repr__(self):
        return "ArrVal%s" % (tuple(A.show(s) for s in self.shape),)


class ListVal:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class SymList:
    """list of symbolic length n with element function; cond(i): membership
    filter (None = all)"""
    __slots__ = ("n", "fn", "cond")

    def __init__(self, n, fn, cond=None):
        self.n, self.fn, self.cond = n, fn, cond


class DictVal:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = dict(d)


class ObjVal:
    __slots__ = ("cls", "attrs", "label")

    def __init__(self, cls, attrs, label=None):
        self.cls, self.attrs, self.label = cls, dict(attrs), label


class FuncV:
    def __init__(self, node, module, qual, snapshot=None, frame=None, cls=None, kind=None):
        self.node, self.module, self.qual = node, module, qual
        self.snapshot, self.frame, self.cls, self.kind = snapshot, frame, cls, kind
        self.defaults = None

    def __repr__(self):
        return "<func %s>" % self.qual

    def same_as(self, o):
        return self is o or (isinstance(o, FuncV) and o.node is self.node and o.frame is self.frame)


class BoundM:
    def __init__(self, func, obj):
        self.func, self.obj = func, obj

    def same_as(self, o):
        return isinstance(o, BoundM) and A.same(self.func, o.func) and A.same(self.obj, o.obj)

    def __repr__(self):
        return "<bound %r>" % self.func


class ClassV:
    def __init__(self, name, module, bases, ns, node):
        self.name, self.module, self.bases, self.ns, self.node = name, module, bases, ns, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c, c.ns[name]
        return None, None

    def qual(self):
        return "%s.%s" % (self.module, self.name)

    def __repr__(self):
        return "<class %s>" % self.name


class ModV:
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return "<module %s>" % self.name


class Intr:
    """external function / class / module path, e.g. numpy.exp"""

    def __init__(self, name):
        self.name = name

    def same_as(self, o):
        return isinstance(o, Intr) and o.name == self.name

    def __repr__(self):
        return "<ext %s>" % self.name

    def alg_key(self):
        return ("Intr", self.name)


class BoundI:
    """method of a built-in value"""

    def __init__(self, name, obj):
        self.name, self.obj = name, obj

    def __repr__(self):
        return "<method %s of %r>" % (self.name, self.obj)

    def alg_key(self):
        return ("BoundI", self.name, vkey(self.obj))

    def same_as(self, o):
        return isinstance(o, BoundI) and self.alg_key() == o.alg_key()


class TypeV:
    def __init__(self, name):
        self.name = name

    def same_as(self, o):
        return isinstance(o, TypeV) and o.name == self.name

    def __repr__(self):
        return "<type %s>" % self.name


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class RangeV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def count(self):
        st = self.c
        k = st.const()
        if k is None:
            s = A.sign_of(st)
            if s == "+":
                return A.floor((self.b - self.a + st - 1) / st)
            raise Unsupported("range with symbolic step")
        if k > 0:
            return A.floor((self.b - self.a + R(k) - 1) / R(k))
        return A.floor((self.a - self.b - R(k) - 1) / R(-k))


class Gather:
    """values selected by a boolean mask, indexed by the full index"""

    def __init__(self, mask, src):
        self.mask, self.src = mask, src


class Unknown:
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return "<unknown: %s>" % self.reason

    def same_as(self, o):
        return self is o


class Opq:
    """uninterpreted term"""

    def __init__(self, key, typ=None):
        self.key = key
        self.typ = typ

    def alg_key(self):
        return ("Opq", self.key)

    def same_as(self, o):
        return isinstance(o, Opq) and o.key == self.key

    def __repr__(self):
        return "<%s>" % (showkey(self.key),)


class SStr:
    """string assembled from literal and formatted parts"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            else:
                out.append(p)
        self.parts = tuple(out)

    def alg_key(self):
        return ("SStr",) + tuple(p if isinstance(p, str) else (p[0], vkey(p[1])) for p in self.parts)

    def same_as(self, o):
        return isinstance(o, SStr) and self.alg_key() == o.alg_key()

    def __repr__(self):
        return "SStr%r" % (self.parts,)


class _Missing:
    def __repr__(self):
        return "<missing>"

    def same_as(self, o):
        return self is o


MISSING = _Missing()


class _Ell:
    def __repr__(self):
        return "Ellipsis"


ELL = _Ell()


def showkey(k):
    if isinstance(k, tuple):
        return "(%s)" % ", ".join(showkey(x) for x in k)
    return str(k)


def unk(reason):
    return A.mk("unk", (str(reason),))


def has_unk(v):
    if isinstance(v, Unknown):
        return v.reason
    if isinstance(v, Sc):
        return has_unk(v.e)
    if isinstance(v, Tup):
        for x in v.items:
            r = has_unk(x)
            if r:
                return r
        return None
    if isinstance(v, (Rat, Phi)):
        for at in A.all_atoms(v):
            if at.head == "unk":
                return at.args[0]
        for c in A.conds_of(v):
            if c.kind == "unk":
                return "undecided branch on " + str(c.args[0])
        if isinstance(v, Phi):
            for x in leaves(v):
                if not isinstance(x, (Rat, bool)):
                    r = has_unk(x)
                    if r:
                        return r
    return None


def leaves(v, out=None):
    if out is None:
        out = []
    if isinstance(v, Phi):
        leaves(v.hi, out)
        leaves(v.lo, out)
    else:
        out.append(v)
    return out


def gleaves(v, pc=True):
    """list of (gated condition, leaf)"""
    if isinstance(v, Phi):
        c = Phi(v.cond, True, False)
        return gleaves(v.hi, A.band(pc, c)) + gleaves(v.lo, A.band(pc, A.bnot(c)))
    return [(pc, v)]


def vkey(v):
    if isinstance(v, (str, int, bool, type(None), Fr)):
        return (type(v).__name__, v)
    return A._argkey(v)


# -- alg lift over arithmetic -------------------------------------------------

def add(x, y):
    return lift(lambda a, b: a + b, x, y)


def sub(x, y):
    return lift(lambda a, b: a - b, x, y)


def mul(x, y):
    return lift(lambda a, b: a * b, x, y)


def div(x, y):
    return lift(lambda a, b: a / b, x, y)


def pw(x, y):
    return lift(A.power, x, y)


def tonum(b):
    """gated boolean -> 0/1"""
    if isinstance(b, bool):
        return R(int(b))
    if isinstance(b, Phi):
        return lift(lambda x: R(int(x)) if isinstance(x, bool) else x, b)
    return b


def isbool(v):
    """raw (gated) boolean"""
    if isinstance(v, bool):
        return True
    if isinstance(v, Phi):
        return isbool(v.hi) and isbool(v.lo)
    return False


def exists(var, n, body):
    """gated boolean: there is 0 <= var < n with body"""
    if body is False:
        return False
    vat = A._single_atom(var)
    if body is True:
        return lift(A.gt0, n)
    f = A._free_cond(body, vat.id)
    if f is not None:
        return lift(lambda c: exists(var, n, A.cofactor(body, f, c)), Phi(f, True, False))
    nc = n.const() if isinstance(n, Rat) else None
    if nc is not None and 0 <= nc <= 12:
        r = False
        for j in range(int(nc)):
            r = A.bor(r, A.subst(body, {vat.id: R(j)}))
        return r
    d = 1 + A.depth_of(body)
    return A._known(A.condatom("exists", d, n, A.subst(body, {vat.id: A.bvar(d)})))


def first_index(var, n, body):
    d = 1 + A.depth_of(body)
    vat = A._single_atom(var)
    return A.mk("first", (d, n, A.subst(body, {vat.id: A.bvar(d)})), integer=True, nonneg=True)
