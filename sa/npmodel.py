"""Models of Python built-ins, math, numpy, scipy and numexpr operations on
abstract values."""
import ast
import re
from fractions import Fraction as Fr
from . import alg as A
from .alg import Rat, Phi, R, lift, ite, band, bor, bnot, ZERO, RONE
from .values import *
from .values import add, sub, mul, div, pw

# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------


def num(v):
    """Sc / bool / opaque -> Rat|Phi"""
    if isinstance(v, Sc):
        return A.prune(v.e)
    if isbool(v):
        return tonum(v)
    if isinstance(v, (Rat,)):
        return v
    if isinstance(v, Opq):
        return A.mk("opq", (v,), integer=(v.typ == "i"))
    if isinstance(v, Unknown):
        return unk(v.reason)
    if isinstance(v, Phi):
        return A._node(v.cond, num(v.hi), num(v.lo)) if not _phi_num(v) else v
    raise Unsupported("numeric value of %r" % (v,))


def _phi_num(v):
    return all(isinstance(x, Rat) for x in leaves(v))


def isnum(v):
    return isinstance(v, (Sc, Opq)) or isbool(v)


def kind_of(v):
    if isinstance(v, Sc):
        return v.k
    if isbool(v):
        return "i"
    return "f"


def jkind(op, a, b):
    np_ = a in "IF" or b in "IF"
    isf = a in "fF" or b in "fF" or op == "Div"
    if op == "Pow" and not isf:
        pass
    return ("F" if isf else "I") if np_ else ("f" if isf else "i")


def arith(op, x, y):
    if op == "Add":
        return add(x, y)
    if op == "Sub":
        return sub(x, y)
    if op == "Mult":
        return mul(x, y)
    if op == "Div":
        return div(x, y)
    if op == "Pow":
        return pw(x, y)
    if op == "FloorDiv":
        return lift(lambda a, b: A.floor(a / b), x, y)
    if op == "Mod":
        return lift(lambda a, b: a - b * A.floor(a / b), x, y)
    if op in ("BitAnd", "BitOr", "BitXor"):
        f = {"BitAnd": lambda a, b: band(a, b), "BitOr": lambda a, b: bor(a, b),
             "BitXor": lambda a, b: bor(band(a, bnot(b)), band(b, bnot(a)))}[op]
        if isbool(x) and isbool(y):
            return f(x, y)
        raise Unsupported("bit operation on integers")
    raise Unsupported("operator %s" % op)


def binop(ip, op, a, b, st, node=None):
    for v in (a, b):
        if isinstance(v, Unknown):
            return v
    if (isinstance(a, Phi) and not isbool(a)) or (isinstance(b, Phi) and not isbool(b)):
        if isinstance(a, Phi) and not isbool(a):
            return ip.lift_st(lambda x, s: binop(ip, op, x, b, s, node), a, st)
        return ip.lift_st(lambda x, s: binop(ip, op, a, x, s, node), b, st)
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        return strop(ip, op, a, b, st)
    if isinstance(a, Tup) and isinstance(b, Tup) and op == "Add":
        return Tup(a.items + b.items)
    if isinstance(a, Tup) and isinstance(b, Sc) and op == "Mult":
        k = b.e.as_int()
        if k is not None:
            return Tup(a.items * k)
    if isinstance(a, Ref) and a.kind == "list":
        if isinstance(b, Ref) and op == "Add":
            return ip.mklist(st, ip.concrete_items(a, st) + ip.concrete_items(b, st))
        if isinstance(b, Sc) and op == "Mult":
            k = b.e.as_int() if isinstance(b.e, Rat) else None
            items = ip.concrete_items(a, st)
            if k is not None and k <= 64:
                return ip.mklist(st, items * k)
            if len(items) == 1:
                v = items[0]
                return ip.mksym(st, b.e, lambda j: v)
    if isinstance(a, Opq) and a.typ == "s" or isinstance(b, Opq) and b.typ == "s":
        return strop(ip, op, a, b, st)
    if op == "MatMult":
        return call_named(ip, "numpy.matmul", [a, b], {}, st, node)
    if isinstance(a, (Arr, Gather)) or isinstance(b, (Arr, Gather)) or isinstance(a, (Ref, Tup)) or \
            isinstance(b, (Ref, Tup)):
        dt = None
        if op == "Div":
            dt = "f"
        if op in ("BitAnd", "BitOr", "BitXor"):
            dt = "b"
        return elementwise2(ip, st, a, b, lambda x, y: arith(op, x, y) if op.startswith("Bit")
                            else arith(op, tonum(x), tonum(y)), dt)
    if isbool(a) and isbool(b) and op.startswith("Bit"):
        return arith(op, a, b)
    if isnum(a) and isnum(b):
        return Sc(arith(op, num(a), num(b)), jkind(op, kind_of(a), kind_of(b)))
    if isinstance(a, Ref) and a.kind == "obj":
        nm = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}.get(op)
        if nm:
            return ip.call(ip.getattr(a, nm, st, node), [b], {}, st, node)
    raise Unsupported("%s of %r and %r" % (op, a, b))


_FMT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([diouxXeEfFgGcrs%])")


def strop(ip, op, a, b, st):
    if op == "Add":
        return concat(a, b)
    if op == "Mod" and isinstance(a, str):
        args = list(b.items) if isinstance(b, Tup) else [b]
        parts, pos, j = [], 0, 0
        for m in _FMT.finditer(a):
            parts.append(a[pos:m.start()])
            pos = m.end()
            if m.group(3) == "%":
                parts.append("%")
                continue
            if m.group(1):
                v = st.heap[b.cell].d.get(m.group(1), MISSING)
            else:
                if j >= len(args):
                    raise error("TypeError", "not enough arguments for the format %r" % a[:60])
                v = args[j]
                j += 1
            spec = m.group(2) + m.group(3)
            if isinstance(v, str) and spec == "s":
                parts.append(v)
            elif isinstance(v, SStr) and spec == "s":
                parts.extend(v.parts)
            elif isinstance(v, Sc) and isinstance(v.e, Rat) and v.k == "i" and v.e.as_int() is not None \
                    and spec in ("s", "d", "i"):
                parts.append(str(v.e.as_int()))
            else:
                parts.append((spec, v))
        parts.append(a[pos:])
        if isinstance(b, Tup) and j < len(args) and "%(" not in a:
            raise error("TypeError", "more arguments than the format %r takes" % a[:60])
        from .interp import mkstr
        return mkstr(parts)
    if op == "Mult" and isinstance(a, str) and isinstance(b, Sc):
        k = b.e.as_int()
        if k is not None:
            return a * k
    if op in ("Sub", "Div", "Pow", "FloorDiv", "MatMult"):
        raise error("TypeError", "operation %s on strings" % op)
    raise Unsupported("string operation %s" % op)


def concat(a, b):
    from .interp import mkstr

    def parts(x):
        if isinstance(x, str):
            return [x]
        if isinstance(x, SStr):
            return list(x.parts)
        if isinstance(x, (Sc, Arr, Tup)) or isbool(x):
            raise error("TypeError", "concatenation of a string and a number, array or tuple")
        return [("s", x)]
    return mkstr(parts(a) + parts(b))


def truth(ip, v, st):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, Phi):
        if isbool(v):
            return v
        r = {}

        def f(x):
            return truth(ip, x, st)
        return lift(lambda x: x, A.ite(Phi(v.cond, True, False), f(v.hi), f(v.lo)))
    if isinstance(v, Sc):
        return lift(lambda x: bnot(A.eq0(x)) if isinstance(x, Rat) else x, v.e) if not isinstance(v.e, Phi) \
            else flat(lift(lambda x: bnot(A.eq0(x)), v.e))
    if isinstance(v, str):
        return bool(v)
    if isinstance(v, Tup):
        return bool(v.items)
    if isinstance(v, Ref):
        c = st.heap[v.cell]
        if isinstance(c, ListVal):
            return bool(c.items)
        if isinstance(c, DictVal):
            return bool(c.d)
        if isinstance(c, SymList):
            return flat(lift(lambda n: A.gt0(n), c.n)) if c.cond is None else _nonempty(c)
        return True
    if isinstance(v, Arr):
        av = ip.aval(st, v)
        if all(s == RONE for s in av.shape):
            e = av.at(tuple(ZERO for _ in av.shape))
            return e if isbool(e) else truth(ip, Sc(e), st)
        return A._known(A.condatom("unk", "truth of an array"))
    if isinstance(v, Opq):
        return A._known(A.condatom("truth", v))
    if isinstance(v, Unknown):
        return A._known(A.condatom("unk", v.reason))
    if isinstance(v, (FuncV, BoundM, ClassV, Intr, BoundI, TypeV, ModV)):
        return True
    if isinstance(v, SStr):
        return True
    raise Unsupported("truth of %r" % (v,))


def _nonempty(c):
    v = A.fresh("sv", nonneg=True)
    return flat(lift(lambda n: exists(v, n, c.cond(v)), c.n))


def flat(v):
    """flatten nested gated booleans produced by lift over gated leaves"""
    if isinstance(v, Phi):
        return ite(Phi(v.cond, True, False), flat(v.hi), flat(v.lo))
    return v


def lifted_cmp(f, x, y):
    """compare leaves; the comparison itself may be gated"""
    conds = [a for a in (x, y) if isinstance(a, Phi)]
    if not conds:
        return f(x, y)
    c = min((a.cond for a in conds), key=lambda q: q.id)
    with A.assume(c, True) as ok:
        hi = lifted_cmp(f, A.cof(x, c, True), A.cof(y, c, True)) if ok else None
    with A.assume(c, False) as ok2:
        lo = lifted_cmp(f, A.cof(x, c, False), A.cof(y, c, False)) if ok2 else None
    if hi is None:
        return lo
    if lo is None:
        return hi
    return ite(Phi(c, True, False), hi, lo)


def _eq_min(a):
    """min of a filtered nonnegative family compared with zero"""
    return None


def cmp_rat(op, x, y):
    d = x - y
    if op == "Eq" or op == "NotEq":
        r = _amin_zero(d)
        if r is None:
            r = _count_pos(d)
            r = bnot(r) if r is not None else None
        if r is None:
            r = A.eq0(d)
        return r if op == "Eq" else bnot(r)
    r = _count_pos(d) if op in ("Gt", "LtE") else (_count_pos(-d) if op in ("Lt", "GtE") else None)
    if r is not None:
        return r if op in ("Gt", "Lt") else bnot(r)
    if op == "Lt":
        return A.gt0(-d)
    if op == "Gt":
        return A.gt0(d)
    if op == "LtE":
        return A.ge0(-d)
    if op == "GtE":
        return A.ge0(d)
    raise Unsupported(op)


def _count_pos(d):
    """(n minus a) sum of a 0/1 indicator > 0  <=>  exists"""
    if d.den or len(d.num) > 4:
        return None
    for m, c in d.num.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        at = A.atom_of(m[0][0])
        if at.head != "sum":
            continue
        dd, n, body = at.args
        if not isinstance(body, Rat) or body.den or len(body.num) != 1 or not isinstance(n, Rat):
            continue
        (m2, c2), = body.num.items()
        if c2 != 1 or not all(A.atom_of(i).head == "ind" for i, _ in m2):
            continue
        S = R(at)
        v = A.fresh("sv", nonneg=True)
        g = True
        for i, _ in m2:
            g = band(g, A.subst(A.atom_of(i).args[0], {A._bvid(dd): v}))
        if c > 0 and d == S * R(c):
            return exists(v, n, g)
        if c < 0 and d == (n - S) * R(-c):
            return exists(v, n, bnot(g))
    return None


def _amin_zero(d):
    """min_{i: c(i)} g(i) == 0 with g >= 0  <=>  exists i: c(i) and g(i)==0"""
    if d.den or len(d.num) != 1:
        return None
    (m, c), = d.num.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    at = A.atom_of(m[0][0])
    if at.head != "amin":
        return None
    dd, n, cond, body = at.args
    v = A.fresh("sv", nonneg=True)
    mp = {A._bvid(dd): v}
    b = A.subst(body, mp)
    if A.sign_of(b) not in ("0+", "+") if isinstance(b, Rat) else True:
        return None
    return exists(v, n, band(A.subst(cond, mp), A.eq0(b)))


def compare(ip, op, a, b, st):
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        u = a if isinstance(a, Unknown) else b
        return A._known(A.condatom("unk", u.reason))
    if op in ("Is", "IsNot", "Eq", "NotEq") and (a is None or b is None or a is MISSING or b is MISSING):
        r = is_none(a) if b is None else is_none(b)
        return r if op in ("Is", "Eq") else bnot(r)
    if (isinstance(a, Phi) and not isbool(a)):
        return flat(A.ite(Phi(a.cond, True, False), compare(ip, op, a.hi, b, st), compare(ip, op, a.lo, b, st)))
    if (isinstance(b, Phi) and not isbool(b)):
        return flat(A.ite(Phi(b.cond, True, False), compare(ip, op, a, b.hi, st), compare(ip, op, a, b.lo, st)))
    if op in ("In", "NotIn"):
        r = contains(ip, a, b, st)
        return r if op == "In" else bnot(r)
    if op in ("Is", "IsNot"):
        if isinstance(a, bool) or isinstance(b, bool):
            r = a is b if isinstance(a, bool) and isinstance(b, bool) else compare(ip, "Eq", a, b, st)
        elif isinstance(a, (Ref, Arr)) and isinstance(b, (Ref, Arr)):
            r = A.same(a, b)
        elif isinstance(a, (TypeV, Intr, ClassV)) or isinstance(b, (TypeV, Intr, ClassV)):
            r = type_eq(a, b)
        elif isinstance(a, str) and isinstance(b, str):
            r = a == b
        else:
            return compare(ip, "Eq" if op == "Is" else "NotEq", a, b, st)
        return r if op == "Is" else bnot(r)
    if isinstance(a, (TypeV, Intr, ClassV)) or isinstance(b, (TypeV, Intr, ClassV)):
        if op not in ("Eq", "NotEq"):
            raise Unsupported("ordering of types")
        r = type_eq(a, b)
        return r if op == "Eq" else bnot(r)
    if isinstance(a, str) and isinstance(b, str):
        r = {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
        return r
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        if isinstance(a, (Sc, Arr, Ref, Tup)) or isinstance(b, (Sc, Arr, Ref, Tup)):
            return op == "NotEq"
        x, y = (a, b) if isinstance(b, str) else (b, a)
        c = A._known(A.condatom("streq", vkey(x) if not isinstance(x, (Opq, SStr)) else x,
                                y if isinstance(y, (str, Opq, SStr)) else str(vkey(y))))
        return c if op == "Eq" else bnot(c)
    if isinstance(a, (Arr, Gather)) or isinstance(b, (Arr, Gather)):
        if isinstance(a, Arr) and isinstance(b, (Ref, Tup)) or isinstance(b, Arr) and isinstance(a, (Ref, Tup)):
            a, b = toarr(ip, st, a), toarr(ip, st, b)
        return elementwise2(ip, st, a, b, lambda x, y: lifted_cmp(lambda p, q: cmp_rat(op, p, q),
                                                                   tonum(x), tonum(y)), "b")
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            r = False
        else:
            r = True
            for x, y in zip(a.items, b.items):
                r = band(r, compare(ip, "Eq", x, y, st))
        return r if op == "Eq" else bnot(r)
    if isnum(a) and isnum(b):
        return lifted_cmp(lambda p, q: cmp_rat(op, p, q), num(a), num(b))
    if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "NotEq"):
        ca, cb = st.heap[a.cell], st.heap[b.cell]
        if isinstance(ca, ListVal) and isinstance(cb, ListVal):
            if len(ca.items) != len(cb.items):
                r = False
            else:
                r = True
                for x, y in zip(ca.items, cb.items):
                    r = band(r, compare(ip, "Eq", x, y, st))
        elif isinstance(ca, ObjVal) and isinstance(cb, ObjVal):
            if a.cell == b.cell:
                r = True
            elif ca.label and cb.label and ca.label.startswith("sym:") and cb.label.startswith("sym:"):
                x, y = sorted((ca.label, cb.label))
                r = A._known(A.condatom("sameobj", x, y))
            else:
                r = False
        else:
            raise Unsupported("equality of %r and %r" % (ca, cb))
        return r if op == "Eq" else bnot(r)
    if isinstance(a, Tup) and isinstance(b, Ref) or isinstance(b, Tup) and isinstance(a, Ref):
        t, l = (a, b) if isinstance(a, Tup) else (b, a)
        c = st.heap[l.cell]
        if isinstance(c, SymList) and c.cond is None and not t.items and getattr(c, "tuple_like", True):
            r = flat(lift(A.eq0, c.n))
            return r if op == "Eq" else bnot(r)
        r = False
        return r if op == "Eq" else bnot(r)
    if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, Tup) or isinstance(b, Tup):
        if op in ("Eq", "NotEq"):
            return op == "NotEq"
    if isinstance(a, RangeV) or isinstance(b, RangeV):
        raise Unsupported("range comparison")
    if isinstance(a, Opq) or isinstance(b, Opq):
        c = A._known(A.condatom("cmp", op, a if isinstance(a, Opq) else str(vkey(a)),
                                b if isinstance(b, Opq) else str(vkey(b))))
        return c
    raise Unsupported("comparison %s of %r and %r" % (op, a, b))


def is_none(v):
    if isinstance(v, Phi):
        return flat(A.ite(Phi(v.cond, True, False), is_none(v.hi), is_none(v.lo)))
    if isinstance(v, Opq):
        return A._known(A.condatom("isnone", v))
    return v is None


TYPES = {"int": "int", "float": "float", "numpy.ndarray": "ndarray", "list": "list", "tuple": "tuple",
         "str": "str", "dict": "dict", "bool": "bool", "numpy.int64": "int64", "numpy.float64": "float64",
         "complex": "complex", "numpy.integer": "integer", "numpy.floating": "floating",
         "numbers.Integral": "Integral", "numbers.Number": "Number", "numbers.Real": "Real",
         "numpy.bool_": "bool_", "numpy.int32": "int32", "numpy.number": "number"}


def tname(t):
    if isinstance(t, TypeV):
        return t.name
    if isinstance(t, Intr):
        return TYPES.get(t.name, t.name)
    if isinstance(t, ClassV):
        return t.qual()
    return None


def type_eq(a, b):
    x, y = tname(a), tname(b)
    if x is None or y is None:
        return False
    if "?" in (x, y):
        return A._known(A.condatom("unk", "type of an opaque value"))
    return x == y


def typeof(ip, v, st):
    if isinstance(v, Phi) and not isbool(v):
        return A.ite(Phi(v.cond, True, False), typeof(ip, v.hi, st), typeof(ip, v.lo, st))
    if isbool(v):
        return TypeV("bool")
    if isinstance(v, Sc):
        return TypeV({"i": "int", "f": "float", "I": "int64", "F": "float64"}[v.k])
    if isinstance(v, (Arr, Gather)):
        return TypeV("ndarray")
    if isinstance(v, Tup):
        return TypeV("tuple")
    if isinstance(v, (str, SStr)):
        return TypeV("str")
    if v is None:
        return TypeV("NoneType")
    if isinstance(v, Ref):
        if v.kind == "obj":
            c = st.heap[v.cell].cls
            return c if isinstance(c, ClassV) else TypeV(str(c))
        return TypeV(v.kind)
    if isinstance(v, Opq):
        return TypeV({"i": "int", "f": "float", "s": "str"}.get(v.typ, "?")) if v.typ else \
            Opq(("type", v.key))
    if isinstance(v, (FuncV, BoundM)):
        return TypeV("function")
    return TypeV("?")


def isinst(ip, v, t, st):
    if isinstance(t, Tup):
        r = False
        for x in t.items:
            r = bor(r, isinst(ip, v, x, st))
        return r
    if isinstance(v, Phi) and not isbool(v):
        return flat(A.ite(Phi(v.cond, True, False), isinst(ip, v.hi, t, st), isinst(ip, v.lo, t, st)))
    ty = typeof(ip, v, st)
    if isinstance(ty, Opq):
        return A._known(A.condatom("isinstance", v, str(tname(t))))
    n = tname(t)
    if isinstance(ty, ClassV):
        return isinstance(t, ClassV) and t in ty.mro()
    m = ty.name
    if m == "?":
        return A._known(A.condatom("unk", "isinstance of an opaque value"))
    if m == n:
        return True
    sup = {"bool": ("int", "Integral", "Number", "Real"), "int": ("Integral", "Number", "Real"),
           "float": ("Number", "Real"), "int64": ("integer", "Integral", "Number", "number", "Real"),
           "float64": ("float", "floating", "Number", "number", "Real")}
    return n in sup.get(m, ())


def contains(ip, a, b, st):
    if isinstance(b, Tup) or isinstance(b, Ref) and b.kind == "list" and isinstance(st.heap[b.cell], ListVal):
        r = False
        for x in ip.concrete_items(b, st):
            r = bor(r, compare(ip, "Eq", a, x, st))
        return r
    if isinstance(b, Ref) and b.kind == "dict":
        d = st.heap[b.cell].d
        k = ip.tokey(a)
        if k in d:
            v = d[k]
            if isinstance(v, Phi):
                return lift(lambda x: x is not MISSING, v)
            return v is not MISSING
        if isinstance(k, tuple) and k[0] in ("sym", "key") and d:
            return A._known(A.condatom("unk", "membership of a symbolic key"))
        return False
    if isinstance(b, str) and isinstance(a, str):
        return a in b
    if isinstance(b, RangeV):
        raise Unsupported("membership in range")
    if isinstance(b, Opq):
        return A._known(A.condatom("in", a if isinstance(a, Opq) else str(vkey(a)), b))
    raise Unsupported("membership")


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------

def toarr(ip, st, v):
    """anything array-like -> ArrVal"""
    if isinstance(v, ArrVal):
        return v
    if isinstance(v, Arr):
        return ip.aval(st, v)
    if isinstance(v, Sc):
        e = v.e
        return ArrVal((), lambda idx: e, "i" if v.k in "iI" else "f")
    if isbool(v):
        return ArrVal((), lambda idx: v, "b")
    if isinstance(v, Opq):
        e = num(v)
        return ArrVal((), lambda idx: e, "f")
    if isinstance(v, Gather):
        return full_gather(v)
    if isinstance(v, Tup) or isinstance(v, Ref) and v.kind == "list":
        c = v if isinstance(v, Tup) else st.heap[v.cell]
        if isinstance(c, SymList):
            if c.cond is not None:
                raise Unsupported("array of a filtered list")
            if isinstance(c.n, Phi):
                raise Unsupported("array of a list of gated length")
            i = A.fresh("li", nonneg=True)
            probe = c.fn(i)
            pv = toarr(ip, st, probe)
            if isinstance(pv, Gather):
                raise Unsupported("array of gathered values")
            heap = dict(st.heap)

            def fn(idx):
                from .interp import St
                v2 = c.fn(idx[0])
                a2 = toarr(ip, st, v2)
                return a2.at(idx[1:])
            return ArrVal((c.n,) + pv.shape, fn, pv.dtype, tag=None)
        items = [toarr(ip, st, x) for x in c.items]
        if not items:
            return ArrVal((ZERO,), lambda idx: unk("element of an empty array"), "f")
        return stack(items)
    if isinstance(v, RangeV):
        a, s = v.a, v.c
        return ArrVal((v.count(),), lambda idx: a + s * idx[0], "i")
    if isinstance(v, Unknown):
        raise Unsupported(v.reason)
    if isinstance(v, Phi):
        with A.assume(v.cond, True) as ok:
            hi = toarr(ip, st, v.hi) if ok else None
        with A.assume(v.cond, False) as ok:
            lo = toarr(ip, st, v.lo) if ok else None
        if hi is None or lo is None:
            return lo if hi is None else hi
        if isinstance(hi, Gather) or isinstance(lo, Gather):
            raise Unsupported("gated masked selection")
        if len(hi.shape) == len(lo.shape) and all(x == y for x, y in zip(hi.shape, lo.shape)):
            return ip.merge_av(Phi(v.cond, True, False), hi, lo)
        raise Unsupported("array of gated shape")
    raise Unsupported("array of %r" % (v,))


def full_gather(g):
    """a selection whose mask is everywhere true is the array itself"""
    idx = tuple(A.fresh("mi", nonneg=True) for _ in g.mask.shape)
    with A.facts(*[x for i, s in zip(idx, g.mask.shape) for x in (i, s - i - 1)]):
        if g.mask.at(idx) is True:
            return g.src
    return g


def stack(items, axis=0):
    sh = items[0].shape
    for x in items:
        if isinstance(x, Gather) or len(x.shape) != len(sh) or not all(p == q for p, q in zip(x.shape, sh)):
            raise Unsupported("stack of arrays of different shape")
    n = len(items)
    dt = "f" if any(x.dtype == "f" for x in items) else items[0].dtype
    if axis < 0:
        axis += len(sh) + 1

    def fn(idx):
        j = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        return select(j, [lambda x=x: x.at(rest) for x in items])
    return ArrVal(sh[:axis] + (R(n),) + sh[axis:], fn, dt)


def select(j, thunks):
    k = j.as_int()
    if k is not None:
        if k < 0:
            k += len(thunks)
        if not 0 <= k < len(thunks):
            raise error("IndexError", "constant index %d out of range %d" % (k, len(thunks)))
        return thunks[k]()
    r = thunks[-1]()
    for q in range(len(thunks) - 2, -1, -1):
        c = A.eq0(j - q)
        r = ite(c, thunks[q](), r)
    return r


def bshape(sa, sb):
    n = max(len(sa), len(sb))
    out = []
    for k in range(n):
        x = sa[len(sa) - n + k] if len(sa) - n + k >= 0 else RONE
        y = sb[len(sb) - n + k] if len(sb) - n + k >= 0 else RONE
        if x == y:
            out.append(x)
        elif x == RONE:
            out.append(y)
        elif y == RONE:
            out.append(x)
        elif A.decide_atom(A.condatom("eq0", (x - y).canon())) is True:
            out.append(x)
        else:
            raise error("ValueError", "operands of shapes %s and %s cannot be broadcast" % (
                tuple(map(A.show, sa)), tuple(map(A.show, sb))), (x, y), lambda a, b: a != b and a != 1 and b != 1 and a >= 0 and b >= 0)
    return tuple(out)


DEFINITE = "definite error"
LIVE = None


def error(name, why, vals=(), bad=lambda: True):
    """the exception to raise where the analysed code fails for some input"""
    if definite(vals, bad):
        why = "%s: raises %s, %s" % (DEFINITE, name, why)
    return Unsupported(why)


def unequal(a, b):
    return a != b and a >= 0 and b >= 0


def definite(vals, bad):
    """some interpretation of the symbols that satisfies all facts and path conditions makes bad(vals) true"""
    from . import evalr
    ip = LIVE
    if ip is None or ip.try_depth:
        return False
    nn = list(A.FACTS.nn)
    lits = [(A._conds[i], p) for i, p in A.FACTS.atoms.items()]
    pcs = [fr.cur.pc for fr in ip.frames if fr.cur is not None and fr.cur.pc is not True]
    if any(has_unk(v) for v in vals) or any(has_unk(v) for v in pcs):
        return False
    n = 0
    for t in range(160):
        J = evalr.Interp(104729 + t, hi=3 + t % 6 if t % 8 else 3 * 6 ** (t // 40), spread=(-4, 4) if t % 5 == 4 else None)
        try:
            if not all(J.ev(f) >= 0 for f in nn) or not all(J.cond(c) == p for c, p in lits) or not all(J.ev(c) is True for c in pcs):
                continue
            if bad(*[J.ev(v) for v in vals]):
                n += 1
                if n > 1:
                    return True
        except (evalr.Reject, evalr.Undecidable, ZeroDivisionError, ValueError, OverflowError, TypeError):
            continue
    return False


def bidx(shape, idx):
    """index of an operand of the given shape for broadcast index idx"""
    k = len(idx) - len(shape)
    return tuple(ZERO if s == RONE else i for s, i in zip(shape, idx[k:]))


def mask_count(mv):
    """number of selected elements of a mask of known length"""
    n = mv.shape[0].as_int() if len(mv.shape) == 1 else None
    if n is None or n > 64:
        return None
    s = ZERO
    for i in range(n):
        s = A.lift(lambda x, y: x + y, s, A.ite(mv.at((R(i),)), A.RONE, ZERO))
    return s


def elementwise2(ip, st, a, b, f, dtype=None):
    if isinstance(a, Gather) or isinstance(b, Gather):
        g = a if isinstance(a, Gather) else b
        if isinstance(a, Gather) and isinstance(b, Gather):
            if not same_mask(a.mask, b.mask):
                cs = [mask_count(g2.mask) for g2 in (a, b)]
                why = "arithmetic on selections of different masks"
                raise error("ValueError", why, cs, lambda p, q: p != q and p != 1 and q != 1) if None not in cs else Unsupported(why)
            x, y = a.src, b.src
        else:
            x = a.src if isinstance(a, Gather) else toarr(ip, st, a)
            y = b.src if isinstance(b, Gather) else toarr(ip, st, b)
            o = y if isinstance(a, Gather) else x
            if o.shape != () and not all(s == RONE for s in o.shape):
                raise Unsupported("arithmetic of a selection with an array")
        return Gather(g.mask, ew_av(x, y, f, dtype))
    x, y = toarr(ip, st, a), toarr(ip, st, b)
    return ip.mkarr(st, ew_av(x, y, f, dtype))


def ew_av(x, y, f, dtype=None):
    sh = bshape(x.shape, y.shape)
    dt = dtype or ("f" if "f" in (x.dtype, y.dtype) else "i")
    return ArrVal(sh, lambda idx: f(x.at(bidx(x.shape, idx)), y.at(bidx(y.shape, idx))), dt)


def elementwise1(ip, st, a, f, dtype="f"):
    if isinstance(a, Unknown):
        return a
    if isinstance(a, Phi) and not isbool(a):
        return ip.lift_st(lambda x, s: elementwise1(ip, s, x, f, dtype), a, st)
    if isinstance(a, Gather):
        s = a.src
        return Gather(a.mask, ArrVal(s.shape, lambda idx: f(s.at(idx)), dtype))
    if isinstance(a, Sc) or isbool(a) or isinstance(a, Opq):
        r = f(num(a) if not isbool(a) or dtype != "b" else a)
        return r if isbool(r) else Sc(r, "F" if dtype == "f" else "I")
    v = toarr(ip, st, a)
    return ip.mkarr(st, ArrVal(v.shape, lambda idx: f(v.at(idx)), dtype or v.dtype))


def same_mask(a, b):
    if a is b:
        return True
    if len(a.shape) != len(b.shape):
        return False
    idx = tuple(A.fresh("mi", nonneg=True) for _ in a.shape)
    with A.facts(*[x for i, s in zip(idx, a.shape) for x in (i, s - i - 1)]):
        return A.same(a.at(idx), b.at(idx))


def mask_count(mask):
    """number of selected entries"""
    idx = [A.fresh("mi", nonneg=True) for _ in mask.shape]
    with A.facts(*[x for i, s in zip(idx, mask.shape) for x in (i, s - i - 1)]):
        body = mask.at(tuple(idx))
    e = tonum(body)
    for i, n in zip(reversed(idx), reversed(mask.shape)):
        e = A.summation(i, n, e)
    return e


def mask_rank(mask, q):
    """number of selected entries before position q (one-dimensional)"""
    i = A.fresh("mi", nonneg=True)
    with A.facts(i, mask.shape[0] - i - 1):
        body = tonum(mask.at((i,)))
    return A.indicator(A.summation(i, q, body))


def gather_av(g):
    """a masked selection as an array in its own right: entry p is the source at the position
    of the p-th selected entry"""
    g = full_gather(g)
    if not isinstance(g, Gather):
        return g
    if len(g.mask.shape) != 1 or len(g.src.shape) != 1:
        raise Unsupported("selection by a mask of rank %d" % len(g.mask.shape))
    n = mask_count(g.mask)
    n = A.indicator(n)

    def at(ix):
        i = A.fresh("fi", nonneg=True)
        body = A.band(g.mask.at((i,)), A.lift(A.eq0, mask_rank(g.mask, i) - ix[0]))
        return g.src.at((A.binder("first", i, (g.mask.shape[0],), body),))
    return ArrVal([n], at, g.src.dtype)


# -- indexing ------------------------------------------------------------------

def norm_index(i, n):
    """non-negative index"""
    c = i.const()
    if c is not None:
        return i + n if c < 0 else i
    s = A.sign_of(i)
    if s == "-":
        return i + n
    if s is None and A.decide_gt0(-i) is True:
        return i + n
    return i


def slice_spec(sl, n):
    """(start, step, count) of a slice over length n"""
    def g(x):
        if x is None:
            return None
        if isinstance(x, Sc) and isinstance(x.e, Rat):
            return x.e
        raise Unsupported("gated slice bound")
    step = g(sl.c)
    step = RONE if step is None else step
    k = step.const()
    a, b = g(sl.a), g(sl.b)
    if k is not None and k < 0:
        start = n - 1 if a is None else norm_index(a, n)
        if b is None:
            cnt = A.floor(start / R(-k)) + 1
        else:
            b = norm_index(b, n)
            cnt = A.floor((start - b - R(k) - 1) / R(-k))
        return start, step, cnt
    start = ZERO if a is None else norm_index(a, n)
    stop = n if b is None else norm_index(b, n)
    if b is not None and A.decide_gt0(n - stop, False) is not True:
        stop = A.fmin(stop, n)
    cnt = stop - start
    if k == 1:
        if A.decide_gt0(cnt, False) is False:
            cnt = ZERO
        return start, step, cnt
    return start, step, A.floor((cnt + step - 1) / step)


def expand_ix(ip, ix, rank, st):
    items = list(ix.items) if isinstance(ix, Tup) else [ix]
    used = sum(1 for x in items if x is not None and x is not ELL and not _isbmask(ip, x, st))
    for x in items:
        if _isbmask(ip, x, st):
            used += len(ip.aval(st, x).shape)
    if any(x is ELL for x in items):
        k = [i for i, x in enumerate(items) if x is ELL][0]
        items = items[:k] + [SliceV(None, None, None)] * (rank - used) + items[k + 1:]
    else:
        items = items + [SliceV(None, None, None)] * (rank - used)
    return items


def _isbmask(ip, x, st):
    return isinstance(x, Arr) and ip.aval(st, x).dtype == "b"


def getitem(ip, o, ix, st, node):
    if isinstance(o, Unknown):
        return o
    if isinstance(ix, Unknown):
        return ix
    if isinstance(o, Phi):
        return ip.lift_st(lambda x, s: getitem(ip, x, ix, s, node), o, st)
    if isinstance(ix, Phi) and not isbool(ix):
        return ip.lift_st(lambda x, s: getitem(ip, o, x, s, node), ix, st)
    if isinstance(ix, Sc) and isinstance(ix.e, Phi) and not isinstance(o, Arr):
        return ip.lift_st(lambda x, s: getitem(ip, o, Sc(x, ix.k), s, node), ix.e, st)
    if isinstance(o, Tup):
        return seq_get(ip, list(o.items), ix, st, lambda it: Tup(it), node)
    if isinstance(o, Ref) and o.kind == "list":
        c = st.heap[o.cell]
        if isinstance(c, ListVal):
            return seq_get(ip, c.items, ix, st, lambda it: ip.mklist(st, it), node)
        if isinstance(ix, Sc):
            i = ix.e
            n = c.n
            if isinstance(n, Phi):
                raise Unsupported("index into a list of gated length")
            k = i.as_int()
            if k is not None and k < 0:
                need = A.gt0(n + k)
                need = A.ge0(n + k)
                i = n + i
            else:
                need = A.gt0(n - i)
            if c.cond is not None:
                raise Unsupported("index into a filtered list")
            if need is not True and ip.try_depth:
                ip.may_raise(st, bnot(need), "IndexError", node)
                if st.dead:
                    return Unknown("index out of range")
            return c.fn(i)
        if isinstance(ix, SliceV):
            a, s, n = slice_spec(ix, c.n)
            return ip.mksym(st, n, lambda j: c.fn(a + s * j))
        raise Unsupported("list index %r" % (ix,))
    if isinstance(o, Ref) and o.kind == "dict":
        d = st.heap[o.cell].d
        k = ip.tokey(ix)
        if k in d:
            v = d[k]
            if isinstance(v, Phi) and any(x is MISSING for x in leaves(v)):
                from .interp import strip_missing
                c = lift(lambda x: x is MISSING, v)
                if ip.try_depth:
                    ip.may_raise(st, c, "KeyError", node)
                return strip_missing(v)
            return v
        if ip.try_depth:
            ip.may_raise(st, True, "KeyError", node)
        return Unknown("missing dict key %s" % (k,))
    if isinstance(o, Arr):
        return arr_get(ip, o, ix, st, node)
    if isinstance(o, Gather):
        if isinstance(ix, Sc) and ix.e.as_int() in (0, -1):
            return Sc(A.mk("gpick", (o.src.at((A.mk("gsel", (R(ix.e.as_int()),), integer=True),)),)), "F")
        return arr_get(ip, ip.mkarr(st, gather_av(o)), ix, st, node)
    if isinstance(o, str):
        if isinstance(ix, Sc) and ix.e.as_int() is not None:
            return o[ix.e.as_int()]
        raise Unsupported("string index")
    if isinstance(o, Opq):
        if o.key[0] == "argv" and isinstance(ix, Sc):
            return Opq(("argv", ix.e.as_int()), "s")
        return Opq(("getitem", o.key, vkey(ix)))
    if isinstance(o, RangeV) and isinstance(ix, Sc):
        return Sc(o.a + o.c * norm_index(ix.e, o.count()), "i")
    if isinstance(o, Intr):
        if o.name in ("numpy.ogrid", "numpy.mgrid"):
            return grid(ip, o.name, ix, st)
        if o.name == "numpy.s_":
            return ix
        if o.name in ("numpy.r_", "numpy.c_"):
            raise Unsupported(o.name)
    if o is None or (isinstance(o, Sc) and any(isinstance(x, (SliceV, Sc)) and not isbool(x)
                                               for x in (ix.items if isinstance(ix, Tup) else [ix]))):
        raise error("TypeError", "subscript of a scalar or None")
    raise Unsupported("index of %r" % (o,))


def seq_get(ip, items, ix, st, wrap, node):
    n = len(items)
    if isinstance(ix, SliceV):
        def g(x):
            if x is None:
                return None
            k = num(x).as_int()
            if k is None:
                raise Unsupported("symbolic slice of a concrete list")
            return k
        return wrap(items[slice(g(ix.a), g(ix.b), g(ix.c))])
    if isbool(ix) and isinstance(ix, bool):
        ix = Sc(R(int(ix)), "i")
    if isinstance(ix, Sc) and isinstance(ix.e, Rat):
        k = ix.e.as_int()
        if k is not None:
            if -n <= k < n:
                return items[k]
            ip.may_raise(st, True, "IndexError", node)
            return Unknown("constant index out of range")
        if A.is_int_valued(ix.e) and n <= 64 and n > 0:
            r = items[-1]
            for q in range(n - 2, -1, -1):
                r = ip.merge(A.eq0(ix.e - q), items[q], r, st)
            return r
    raise Unsupported("list index %r" % (ix,))


def concrete_mask(mv):
    """indices selected by a mask of known length whose entries are all decided, else None"""
    n = mv.shape[0].as_int()
    if n is None or n > 64:
        return None
    out = []
    for i in range(n):
        b = mv.at((R(i),))
        if isinstance(b, Phi):
            with A.assuming(b) as ok:
                if not ok:
                    b = False
            if b is not False:
                with A.assuming(bnot(b)) as ok:
                    if not ok:
                        b = True
        if b is True:
            out.append(i)
        elif b is not False:
            return None
    return out


def arr_get(ip, o, ix, st, node):
    base = st.heap[o.cell]
    av = ip.aval(st, o)
    rank = len(av.shape)
    items = expand_ix(ip, ix, rank, st)
    # boolean mask over the whole array
    if len(items) >= 1 and _isbmask(ip, items[0], st) and len(ip.aval(st, items[0]).shape) == rank and len(items) == 1:
        sel = concrete_mask(ip.aval(st, items[0])) if rank == 1 else None
        if sel is not None:
            return ip.mkarr(st, ArrVal([R(len(sel))], lambda idx: select(idx[0], [lambda i=i: av.at((R(i),)) for i in sel])
                                       if sel else av.at((ZERO,)), av.dtype))
        return Gather(ip.aval(st, items[0]), av)
    fancy = [x for x in items if isinstance(x, (Arr, Ref)) or isinstance(x, Tup)]
    if fancy:
        return fancy_get(ip, st, av, items)
    if isinstance(items[0], Gather) or any(isinstance(x, Gather) for x in items):
        raise Unsupported("index by a masked selection")
    for q, x in enumerate(items):
        if isinstance(x, Sc) and isinstance(x.e, Phi):
            def rep(leaf, s, q=q):
                it2 = list(items)
                it2[q] = Sc(leaf, x.k)
                return arr_get(ip, o, Tup(it2), s, node)
            return ip.lift_st(rep, x.e, st)
    # basic indexing: compose views
    w = o.view or View(base.shape, [("a", k, ZERO, RONE) for k in range(len(base.shape))])
    out_shape, amap = [], {}
    ax = 0
    for x in items:
        if x is None:
            out_shape.append(RONE)
            continue
        n = w.shape[ax]
        if isinstance(x, SliceV):
            a, s, cnt = slice_spec(x, n)
            amap[ax] = ("a", len(out_shape), a, s)
            out_shape.append(cnt)
        elif isinstance(x, (Sc, Opq)) or isbool(x):
            e = num(x)
            i = norm_index(e, n)
            c, m = i.const(), n.const()
            if c is not None and m is not None and not (0 <= c < m):
                ip.may_raise(st, True, "IndexError", node)
                return Unknown("index %s out of bounds for axis of length %s" % (c, m))
            amap[ax] = ("c", i)
        else:
            raise Unsupported("array index %r" % (x,))
        ax += 1
    if ax != rank:
        raise Unsupported("too many indices for array")
    spec = []
    for sp in w.spec:
        if sp[0] == "c":
            spec.append(sp)
        else:
            m = amap[sp[1]]
            if m[0] == "c":
                spec.append(("c", sp[2] + sp[3] * m[1]))
            else:
                spec.append(("a", m[1], sp[2] + sp[3] * m[2], sp[3] * m[3]))
    # view axes of size one that no base axis uses are fine
    nv = View(out_shape, spec)
    if not out_shape:
        e = base.at(nv.base(()))
        if isbool(e):
            return e
        return Sc(e, "F" if base.dtype == "f" else ("I" if base.dtype == "i" else "F"))
    return Arr(o.cell, nv)


def fancy_get(ip, st, av, items):
    """integer-array indexing (possibly mixed with slices, adjacent)"""
    rank = len(av.shape)
    fa = []
    pos = []
    plan = []
    ax = 0
    for x in items:
        if x is None:
            plan.append(("n",))
            continue
        n = av.shape[ax]
        if isinstance(x, SliceV):
            a, s, cnt = slice_spec(x, n)
            plan.append(("s", a, s, cnt))
        elif isinstance(x, (Arr, Ref, Tup)):
            v = toarr(ip, st, x)
            if v.dtype == "b":
                raise Unsupported("mixed boolean mask")
            plan.append(("f", v))
            fa.append(v)
            pos.append(len(plan) - 1)
        else:
            plan.append(("c", norm_index(num(x), n)))
        ax += 1
    if any(p[0] == "c" for p in plan) and len(fa) >= 1:
        # integer indices broadcast with the fancy ones
        for q, p in enumerate(plan):
            if p[0] == "c":
                e = p[1]
                v = ArrVal((), lambda idx, e=e: e, "i")
                plan[q] = ("f", v)
                fa.append(v)
                pos.append(q)
        pos.sort()
    sh = ()
    for v in fa:
        sh = bshape(sh, v.shape)
    adjacent = pos == list(range(pos[0], pos[0] + len(pos)))
    out, where = [], {}
    fpos = None
    if not adjacent:
        fpos = 0
        out.extend(sh)
    for q, p in enumerate(plan):
        if p[0] == "f":
            if adjacent and fpos is None:
                fpos = len(out)
                out.extend(sh)
        elif p[0] == "s":
            where[q] = len(out)
            out.append(p[3])
        elif p[0] == "n":
            out.append(RONE)
    nf = len(sh)

    def fn(idx):
        fidx = idx[fpos:fpos + nf]
        b = []
        for q, p in enumerate(plan):
            if p[0] == "f":
                e = p[1].at(bidx(p[1].shape, fidx))
                b.append(e)
            elif p[0] == "s":
                b.append(p[1] + p[2] * idx[where[q]])
        return lift_idx(av, b)
    return ip.mkarr(st, ArrVal(out, fn, av.dtype))


def lift_idx(av, b):
    """element at a possibly gated index"""
    for q, x in enumerate(b):
        if isinstance(x, Phi):
            c = x.cond
            hi = lift_idx(av, b[:q] + [x.hi] + b[q + 1:])
            lo = lift_idx(av, b[:q] + [x.lo] + b[q + 1:])
            return ite(Phi(c, True, False), hi, lo)
    return av.at(tuple(norm_index(x, n) for x, n in zip(b, av.shape)))


def setitem(ip, o, ix, v, st, node):
    if isinstance(o, (Unknown,)):
        return
    if isinstance(o, Phi):
        def f(x, s):
            setitem(ip, x, ix, v, s, node)
        return ip.lift_st(f, o, st)
    if isinstance(o, Ref) and o.kind == "list":
        c = st.heap[o.cell]
        if isinstance(c, ListVal):
            k = num(ix).as_int() if isinstance(ix, Sc) and isinstance(ix.e, Rat) else None
            if k is None:
                raise Unsupported("symbolic list store")
            it = list(c.items)
            if not -len(it) <= k < len(it):
                ip.may_raise(st, True, "IndexError", node)
                return
            it[k] = v
            st.heap[o.cell] = ListVal(it)
        else:
            if not isinstance(ix, Sc):
                raise Unsupported("slice store in a symbolic list")
            i = num(ix)
            old = c
            st.heap[o.cell] = SymList(c.n, lambda j: ip.merge(A.eq0(R(j) - i), v, old.fn(j), st), c.cond)
        ip.effect(st, o.cell, "setitem", node)
        return
    if isinstance(o, Ref) and o.kind == "dict":
        d = dict(st.heap[o.cell].d)
        d[ip.tokey(ix)] = v
        st.heap[o.cell] = DictVal(d)
        ip.effect(st, o.cell, "setitem", node)
        return
    if isinstance(o, Arr):
        return arr_set(ip, o, ix, v, st, node)
    if isinstance(o, Opq):
        ip.events.append(("opaque-setitem", st.pc, (o, ix, v), ip.loc(st, node)))
        return
    raise Unsupported("item assignment on %r" % (o,))


def arr_set(ip, o, ix, v, st, node):
    av = ip.aval(st, o)
    rank = len(av.shape)
    if isinstance(ix, Unknown) or isinstance(v, Unknown):
        r = (ix if isinstance(ix, Unknown) else v).reason
        ip.write_arr(st, o, lambda q: A._known(A.condatom("unk", "store region: " + r)) if isinstance(ix, Unknown) else True,
                     lambda q: unk(r), node) if isinstance(ix, Unknown) else arr_set(
                         ip, o, ix, Sc(unk(r), "F"), st, node)
        return
    items = expand_ix(ip, ix, rank, st)
    if len(items) == 1 and isinstance(items[0], Gather):
        raise Unsupported("store through a masked selection")
    if len(items) == 1 and _isbmask(ip, items[0], st) and len(ip.aval(st, items[0]).shape) == rank:
        mask = ip.aval(st, items[0])
        if isinstance(v, Gather):
            if not same_mask(mask, v.mask):
                src = gather_av(v)
                ip.write_arr(st, o, mask.at, lambda q: src.at((mask_rank(mask, q[0]),)), node)
                return
            src = v.src
            ip.write_arr(st, o, mask.at, src.at, node)
            return
        src = toarr(ip, st, v)
        if src.shape != () and not all(s == RONE for s in src.shape):
            # values in mask order: only the full mask is understood
            def val(q):
                m = mask.at(q)
                if m is True:
                    return src.at(q)
                if rank != 1 or len(src.shape) != 1:
                    return unk("scatter of an array through a mask")
                return src.at((mask_rank(mask, q[0]),))
            ip.write_arr(st, o, mask.at, val, node)
            return
        ip.write_arr(st, o, mask.at, lambda q: tonum(src.at(tuple(ZERO for _ in src.shape))), node)
        return
    for q, x in enumerate(items):
        if isinstance(x, (Arr, Ref, Tup)):
            raise Unsupported("store through an index array")
        if isinstance(x, Sc) and isinstance(x.e, Phi):
            raise Unsupported("store at a gated index")
    tgt = arr_get(ip, o, Tup(items), st, node)
    if isinstance(tgt, Unknown):
        return
    src = toarr(ip, st, v)
    if isinstance(src, Gather):
        raise Unsupported("store of a masked selection")
    if not isinstance(tgt, Arr):
        # single element
        w = o.view or View(av.shape, [("a", k, ZERO, RONE) for k in range(rank)])
        pt = tuple(norm_index(num(x), n) for x, n in zip(items, av.shape))
        for i in pt:
            if isinstance(i, Rat) and i.const() is None and A.sign_of(i) is None and definite([i], lambda x: x < 0):
                raise Unsupported("store at an index which may be negative")
        sv = src.at(tuple(ZERO for _ in src.shape))
        if av.dtype == "i" and src.dtype == "f":
            sv = lift(lambda e: e if A.is_int_valued(e) else A.mk("trunc", (e,), integer=True), tonum(sv))

        def region(q):
            c = True
            for a, b in zip(q, pt):
                c = band(c, A.eq0(a - b))
            return c
        ip.write_arr(st, o, region, lambda q: sv if av.dtype == "b" else tonum(sv), node)
        return
    tv = ip.aval(st, tgt)
    k = len(src.shape) - len(tv.shape)
    if k > 0:
        if not all(s == RONE for s in src.shape[:k]):
            raise Unsupported("store of a higher-rank array")
        full = src
        src = ArrVal(full.shape[k:], lambda q: full.at(tuple([ZERO] * k) + q), full.dtype)
    sh = bshape(tv.shape, src.shape)
    trunc = av.dtype == "i" and src.dtype == "f"

    def val(q):
        e = src.at(bidx(src.shape, q))
        e = tonum(e) if av.dtype != "b" else e
        if trunc:
            e = lift(lambda z: z if A.is_int_valued(z) else A.mk("trunc", (z,), integer=True), e)
        return e
    ip.write_arr(st, tgt, lambda q: True, val, node)
    if ip.write_hook:
        ip.write_hook(st, o, tgt, src, node)


def grid(ip, name, ix, st):
    items = list(ix.items) if isinstance(ix, Tup) else [ix]
    vecs = []
    for s in items:
        a = num(s.a) if s.a is not None else ZERO
        b = num(s.b)
        c = num(s.c) if s.c is not None else RONE
        vecs.append((a, c, RangeV(a, b, c).count()))
    n = len(vecs)
    out = []
    for k, (a, c, cnt) in enumerate(vecs):
        if name.endswith("ogrid"):
            sh = [RONE] * n
            sh[k] = cnt
        else:
            sh = [v[2] for v in vecs]
        out.append(ip.mkarr(st, ArrVal(sh, lambda idx, k=k, a=a, c=c: a + c * idx[k], "i")))
    if len(out) == 1:
        return out[0]
    return ip.mklist(st, out)


# -- reductions -----------------------------------------------------------------

def axes_of(v, rank):
    if v is None:
        return list(range(rank))
    if isinstance(v, Tup):
        return sorted((num(x).as_int()) % rank for x in v.items)
    k = num(v).as_int()
    if k is None:
        raise Unsupported("symbolic axis")
    if not -rank <= k < rank:
        raise Unsupported("axis out of range")
    return [k % rank]


def reduce_sum(ip, st, av, axes, keep=False, op="sum"):
    rank = len(av.shape)
    rest = [k for k in range(rank) if k not in axes]
    sh = [av.shape[k] if k in rest else RONE for k in range(rank)] if keep else [av.shape[k] for k in rest]

    def fn(idx):
        full = [None] * rank
        if keep:
            for k in rest:
                full[k] = idx[k]
        else:
            for k, i in zip(rest, idx):
                full[k] = i
        vs = []
        for k in axes:
            v = A.fresh("sv", nonneg=True)
            full[k] = v
            vs.append((v, av.shape[k]))
        with A.facts(*[x for v, n in vs for x in (v, n - v - 1)]):
            e = tonum(av.at(tuple(full)))
        for v, n in reversed(vs):
            e = A.summation(v, n, e) if op == "sum" else product(v, n, e)
        return e
    if not sh:
        return Sc(fn(()), "F" if av.dtype == "f" else "I")
    return ip.mkarr(st, ArrVal(sh, fn, av.dtype if av.dtype != "b" else "i"))


def product(v, n, e):
    if isinstance(e, Phi):
        return A.exp(A.summation(v, n, lift(A.log, e)))
    if A._single_atom(v).id not in A.deep_ids(e):
        return A.power(e, n)
    return A.binder("prod", v, (n,), e)


def reduce_ext(ip, st, av, axes, op):
    """max / min / argmax / argmin over axes"""
    rank = len(av.shape)
    rest = [k for k in range(rank) if k not in axes]

    def fn(idx):
        full = [None] * rank
        for k, i in zip(rest, idx):
            full[k] = i
        vs = []
        for k in axes:
            v = A.fresh("sv", nonneg=True)
            full[k] = v
            vs.append((v, av.shape[k]))
        with A.facts(*[x for v, n in vs for x in (v, n - v - 1)]):
            e = tonum(av.at(tuple(full)))
        if op in ("amax", "amin"):
            cs = [n.as_int() for _, n in vs]
            if all(c is not None for c in cs) and len(vs) == 1 and 0 < cs[0] <= 8:
                r = None
                for j in range(cs[0]):
                    x = A.subst(e, {A._single_atom(vs[0][0]).id: R(j)})
                    r = x if r is None else lift(A.fmax if op == "amax" else A.fmin, r, x)
                return r
        for v, n in reversed(vs):
            e = A.binder(op, v, (n, True), e)
        return e
    if not rest:
        return Sc(fn(()), "I" if op.startswith("arg") or av.dtype == "i" else "F")
    return ip.mkarr(st, ArrVal([av.shape[k] for k in rest], fn, "i" if op.startswith("arg") else av.dtype))


def reduce_bool(ip, st, av, axes, op):
    rank = len(av.shape)
    rest = [k for k in range(rank) if k not in axes]

    def fn(idx):
        full = [None] * rank
        for k, i in zip(rest, idx):
            full[k] = i
        vs = []
        for k in axes:
            v = A.fresh("sv", nonneg=True)
            full[k] = v
            vs.append((v, av.shape[k]))
        with A.facts(*[x for v, n in vs for x in (v, n - v - 1)]):
            e = av.at(tuple(full))
        if not isbool(e):
            e = flat(lift(lambda z: bnot(A.eq0(z)), e))
        if op == "all":
            e = bnot(e)
        for v, n in reversed(vs):
            e = exists(v, n, e)
        return bnot(e) if op == "all" else e
    if not rest:
        return fn(())
    return ip.mkarr(st, ArrVal([av.shape[k] for k in rest], fn, "b"))


def transpose(ip, st, v, perm):
    """view-preserving transpose"""
    if isinstance(v, Arr):
        base = st.heap[v.cell]
        w = v.view or View(base.shape, [("a", k, ZERO, RONE) for k in range(len(base.shape))])
        n = len(w.shape)
        perm = perm or list(range(n))[::-1]
        if sorted(perm) != list(range(n)):
            perm = [p + n if p < 0 else p for p in perm]
        if sorted(perm) != list(range(n)):
            raise error("ValueError", "axes %s of a transpose of rank %d" % (perm, n))
        inv = {p: k for k, p in enumerate(perm)}
        spec = [sp if sp[0] == "c" else ("a", inv[sp[1]], sp[2], sp[3]) for sp in w.spec]
        return Arr(v.cell, View([w.shape[p] for p in perm], spec))
    av = toarr(ip, st, v)
    n = len(av.shape)
    perm = perm or list(range(n))[::-1]

    def fn(idx):
        b = [None] * n
        for k, p in enumerate(perm):
            b[p] = idx[k]
        return av.at(tuple(b))
    return ip.mkarr(st, ArrVal([av.shape[p] for p in perm], fn, av.dtype))


def prod_shape(sh):
    r = RONE
    for s in sh:
        r = r * s
    return r


def reshape(ip, st, v, dims):
    av = toarr(ip, st, v)
    tot = prod_shape(av.shape)
    known = RONE
    unkn = None
    out = []
    for k, d in enumerate(dims):
        if d.as_int() == -1:
            unkn = k
            out.append(None)
        else:
            known = known * d
            out.append(d)
    if unkn is not None:
        out[unkn] = (tot / known).canon()
    if not (prod_shape(out) == tot):
        raise Unsupported("reshape %s -> %s" % (tuple(map(A.show, av.shape)), tuple(map(A.show, out))))
    src = [(k, s) for k, s in enumerate(av.shape) if not s == RONE]
    dst = [(k, s) for k, s in enumerate(out) if not s == RONE]
    if len(src) == len(dst) and all(a[1] == b[1] for a, b in zip(src, dst)):
        def fn(idx):
            b = [ZERO] * len(av.shape)
            for (k, _), (q, _) in zip(src, dst):
                b[k] = idx[q]
            return av.at(tuple(b))
        # a reshape of a contiguous array is a view; aliasing is only tracked
        # for effects
        r = ip.mkarr(st, ArrVal(out, fn, av.dtype))
        return r
    # general: linear index
    def fn(idx):
        lin = ZERO
        for i, s in zip(idx, out):
            lin = lin * s + i
        b = []
        for s in reversed(av.shape):
            if len(b) == len(av.shape) - 1:
                b.append(lin)
            else:
                q = A.floor(lin / s)
                b.append(lin - s * q)
                lin = q
        return av.at(tuple(reversed(b)))
    return ip.mkarr(st, ArrVal(out, fn, av.dtype))


def concatenate(ip, st, avs, axis):
    rank = len(avs[0].shape)
    if axis < 0:
        axis += rank
    dt = "f" if any(a.dtype == "f" for a in avs) else avs[0].dtype
    for a in avs[1:]:
        if len(a.shape) != rank:
            raise error("ValueError", "concatenate of different ranks")
        for k in range(rank):
            if k != axis and not a.shape[k] == avs[0].shape[k]:
                raise error("ValueError", "concatenate: shapes %s and %s differ" % (
                    tuple(map(A.show, avs[0].shape)), tuple(map(A.show, a.shape))), (a.shape[k], avs[0].shape[k]), unequal)
    offs = [ZERO]
    for a in avs:
        offs.append(offs[-1] + a.shape[axis])
    sh = list(avs[0].shape)
    sh[axis] = offs[-1]

    def fn(idx):
        i = idx[axis]

        def go(k):
            loc = idx[:axis] + (i - offs[k],) + idx[axis + 1:]
            if k == len(avs) - 1:
                return avs[k].at(loc)
            c = A.gt0(offs[k + 1] - i)
            if c is True:
                return avs[k].at(loc)
            if c is False:
                return go(k + 1)
            with A.assuming(c) as ok:
                x = avs[k].at(loc) if ok else None
            with A.assuming(bnot(c)) as ok2:
                y = go(k + 1) if ok2 else None
            if x is None:
                return y
            if y is None:
                return x
            return ite(c, x, y)
        return go(0)
    return ArrVal(sh, fn, dt)


def einsum(ip, st, spec, ops):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(",", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(",")
    if "." in spec or len(ins) != len(ops):
        raise Unsupported("einsum %s" % spec)
    dims = {}
    for s, a in zip(ins, ops):
        if len(s) != len(a.shape):
            raise Unsupported("einsum rank")
        for ch, n in zip(s, a.shape):
            if ch in dims and not dims[ch] == n:
                if dims[ch] == RONE:
                    dims[ch] = n
                elif not n == RONE:
                    raise error("ValueError", "einsum dimension %s: %s vs %s" % (ch, A.show(dims[ch]), A.show(n)), (n, dims[ch]), unequal)
            else:
                dims[ch] = n
    inner = [c for c in dims if c not in out]

    def fn(idx):
        env = dict(zip(out, idx))
        vs = []
        for c in inner:
            v = A.fresh("sv", nonneg=True)
            env[c] = v
            vs.append((v, dims[c]))
        with A.facts(*[x for v, n in vs for x in (v, n - v - 1)]):
            e = RONE
            for s, a in zip(ins, ops):
                e = mul(e, tonum(a.at(tuple(ZERO if n == RONE else env[ch] for ch, n in zip(s, a.shape)))))
        for v, n in reversed(vs):
            e = A.summation(v, n, e)
        return e
    if not out:
        return Sc(fn(()), "F")
    return ip.mkarr(st, ArrVal([dims[c] for c in out], fn, "f"))


def matmul(ip, st, a, b):
    x, y = toarr(ip, st, a), toarr(ip, st, b)
    rx, ry = len(x.shape), len(y.shape)
    if rx == 1 and ry == 1:
        return einsum(ip, st, "i,i->", [x, y])
    if rx == 2 and ry == 1:
        return einsum(ip, st, "ij,j->i", [x, y])
    if rx == 1 and ry == 2:
        return einsum(ip, st, "i,ij->j", [x, y])
    if rx == 2 and ry == 2:
        return einsum(ip, st, "ij,jk->ik", [x, y])
    if rx == 3 and ry == 3:
        return einsum(ip, st, "ijk,ikl->ijl", [x, y])
    if rx == 3 and ry == 2:
        return einsum(ip, st, "ijk,kl->ijl", [x, y])
    raise Unsupported("matmul ranks")


class MatFn:
    """matrix-valued operand of an uninterpreted matrix function, as a
    doubly-bound body"""


def balanced(n, key, i):
    """i-th diagonal factor of the similarity transformation of a balanced matrix"""
    return A.mk("bal", (n, key, i), pos=True)


def unbalance(e, i, j):
    """entry (i, j) with the diagonal similarity of balancing taken out; None where e is not of that form"""
    seen = []

    def look(at, args):
        if at.head == "bal":
            seen.append(at)
        return None
    A.subst(e, {}, look)
    if not seen:
        return e
    H = lambda x: A.mk("balH", (x,), pos=True)
    one = A.subst(e, {}, lambda at, args: RONE if at.head == "bal" else None)
    gen = A.subst(e, {}, lambda at, args: H(args[2]) if at.head == "bal" else None)
    off = A.lift(lambda x: x * H(j) / H(i), gen)
    with A.assuming(A.eq0(i - j)) as ok:
        same_d = not ok or A.same(A.prune(A.subst(gen, {_bvid_of(j): i})), A.prune(A.subst(one, {_bvid_of(j): i})))
    with A.assuming(A.bnot(A.eq0(i - j))) as ok:
        same_o = not ok or A.same(A.prune(off), A.prune(one))
    return one if same_d and same_o else None


def _bvid_of(x):
    return next(iter(x.atoms()))


def matkey(av, lead, sim=False):
    """canonical term for the matrix av[lead..., :, :] (sim: up to the similarity transformation of balancing)"""
    i, j = A.fresh("sv", nonneg=True), A.fresh("sv", nonneg=True)
    n, m = av.shape[-2], av.shape[-1]
    with A.facts(i, n - i - 1, j, m - j - 1):
        e = tonum(av.at(tuple(lead) + (i, j)))
        if sim:
            u = unbalance(e, i, j)
            e = e if u is None else u
    inner = A.binder("lam", j, (m,), e)
    return n, A.binder("lam", i, (n,), inner)


def matfun(ip, st, v, head, ncol=False):
    """uninterpreted function of the trailing two axes"""
    av = toarr(ip, st, v)
    rank = len(av.shape)
    if rank < 2:
        raise Unsupported("%s of a rank-%d array" % (head, rank))
    lead = av.shape[:-2]
    if ncol:
        def fn(idx):
            n, k = matkey(av, idx[:-2])
            return A.mk(head, (n, k, idx[-2], idx[-1]))
        return ip.mkarr(st, ArrVal(av.shape, fn, "f"))

    def fn(idx):
        n, k = matkey(av, idx, head in ("lndet", "det", "detsign"))
        hook = getattr(ip, "mathook", None)
        r = hook(head, n, k) if hook is not None else None
        return A.mk(head, (n, k)) if r is None else r
    if not lead:
        return Sc(fn(()), "F")
    return ip.mkarr(st, ArrVal(lead, fn, "f"))


# --------------------------------------------------------------------------
# attributes of built-in values
# --------------------------------------------------------------------------

ARR_METHODS = {"sum", "copy", "transpose", "flatten", "ravel", "reshape", "any", "all", "max", "min", "argmax",
               "argmin", "mean", "astype", "dot", "fill", "tolist", "trace", "squeeze", "prod", "item", "sort",
               "conj", "cumsum", "swapaxes", "diagonal", "round", "repeat", "nonzero"}


def getattr_builtin(ip, o, name, st, node):
    if isinstance(o, Arr):
        av = ip.aval(st, o)
        if name == "shape":
            return Tup([Sc(s, "i") for s in av.shape])
        if name == "size":
            return Sc(prod_shape(av.shape), "i")
        if name == "ndim":
            return Sc(R(len(av.shape)), "i")
        if name == "T":
            return transpose(ip, st, o, None)
        if name == "dtype":
            return Opq(("dtype", av.dtype))
        if name == "real":
            return o
        if name in ARR_METHODS:
            return BoundI("ndarray." + name, o)
        if name == "flat":
            return reshape(ip, st, o, [R(-1)])
        ip.events.append(("no-attr", st.pc, ("ndarray", name), ip.loc(st, node)))
        ip.may_raise(st, True, "AttributeError", node)
        return Unknown("ndarray has no attribute %s" % name)
    if isinstance(o, Gather):
        if name == "shape":
            return Tup([Sc(mask_count(o.mask), "i")])
        if name == "size":
            return Sc(mask_count(o.mask), "i")
        if name in ("any", "all", "sum", "max", "min", "copy"):
            return BoundI("gather." + name, o)
        raise Unsupported("attribute %s of a masked selection" % name)
    if isinstance(o, Sc):
        if name == "shape" and o.k in "IF":
            return Tup([])
        if name in ("size",) and o.k in "IF":
            return Sc(RONE, "i")
        if name in ("real",):
            return o
        if name in ("item", "copy", "sum", "max", "min", "all", "any", "astype", "conjugate", "is_integer") \
                and (o.k in "IF" or name == "is_integer"):
            return BoundI("scalar." + name, o)
        ip.may_raise(st, True, "AttributeError", node)
        ip.events.append(("no-attr", st.pc, ("scalar", name), ip.loc(st, node)))
        return Unknown("scalar has no attribute %s" % name)
    if isbool(o):
        if name in ("any", "all"):
            return BoundI("boolscalar." + name, o)
        raise Unsupported("attribute of bool")
    if isinstance(o, (str, SStr)):
        return BoundI("str." + name, o)
    if isinstance(o, Ref):
        return BoundI("%s.%s" % (o.kind, name), o)
    if isinstance(o, Tup):
        return BoundI("tuple." + name, o)
    if isinstance(o, Intr):
        full = o.name + "." + name
        c = CONSTS.get(full)
        if c is not None:
            return c()
        if full == "sys.argv":
            h = ip.contracts.get(("const", "sys.argv"))
            return h(ip, st) if h else Opq(("argv",))
        return Intr(full)
    if isinstance(o, Opq):
        return BoundI("opq." + name, o)
    if isinstance(o, TypeV):
        if name == "__name__":
            return o.name
        return Intr(o.name + "." + name)
    if isinstance(o, (FuncV, BoundM)) and name == "__name__":
        return "f"
    if isinstance(o, BoundI):
        return BoundI("opq." + name, Opq(("attr", vkey(o))))
    raise Unsupported("attribute %s of %r" % (name, o))


CONSTS = {
    "numpy.pi": lambda: Sc(A.PI, "f"), "math.pi": lambda: Sc(A.PI, "f"),
    "numpy.e": lambda: Sc(A.exp(RONE), "f"), "math.e": lambda: Sc(A.exp(RONE), "f"),
    "numpy.inf": lambda: Sc(A.mk("inf", (), pos=True), "f"),
    "math.inf": lambda: Sc(A.mk("inf", (), pos=True), "f"),
    "numpy.newaxis": lambda: NEWAXIS,
}
NEWAXIS = None


def _const_none():
    return None


class _NA:
    pass


# numpy.newaxis is None
def resolve_const(full):
    return CONSTS.get(full)


# --------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------

TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


BUILTINS = {}
for _n in ("len range abs min max sum int float str list tuple dict set enumerate zip map filter sorted reversed "
           "isinstance hasattr getattr setattr print round pow any all repr open eval divmod bool super iter next "
           "callable id vars complex slice exec input issubclass").split():
    BUILTINS[_n] = Intr(_n)
BUILTINS["type"] = Intr("type")
BUILTINS["object"] = Intr("object")
for _n in ("ValueError TypeError IndexError KeyError AttributeError NotImplementedError AssertionError Exception "
           "ZeroDivisionError RuntimeError NameError ImportError OSError StopIteration ArithmeticError LookupError "
           "FileNotFoundError IOError KeyboardInterrupt BaseException Warning DeprecationWarning UserWarning "
           "OverflowError FloatingPointError FileExistsError UnicodeDecodeError SystemExit").split():
    BUILTINS[_n] = Intr(_n)
BUILTINS["NotImplemented"] = Opq(("NotImplemented",))
BUILTINS["__file__"] = Opq(("__file__",), "s")
BUILTINS["__doc__"] = Opq(("__doc__",), "s")


def call_named(ip, name, args, kw, st, node):
    return call_intrinsic(ip, Intr(name), args, kw, st, node)


ALIAS = {"scipy.special": "sps", "scipy.integrate": "spi"}


def call_intrinsic(ip, f, args, kw, st, node):
    name = f.name
    if isinstance(f, BoundI):
        args = [f.obj] + list(args)
    for v in list(args) + list(kw.values()):
        if isinstance(v, Unknown) and name not in ("print", "list.append"):
            return v
    h = TABLE.get(name)
    if h is None and name.startswith("opq."):
        ip.events.append(("opaque-call", st.pc, (f, args, kw), ip.loc(st, node)))
        return Opq(("call", name[4:]) + tuple(vkey(a) for a in args) +
                   tuple((k, vkey(v)) for k, v in sorted(kw.items())))
    if h is None:
        if name in EXC_NAMES:
            return Opq(("exc", name))
        ip.events.append(("unmodelled", st.pc, name, ip.loc(st, node)))
        if name.split(".")[0] in ("configparser", "os", "sys", "tkinter", "open", "time", "matplotlib", "distutils",
                                  "numexpr", "warnings", "logging"):
            ip.events.append(("opaque-call", st.pc, (f, args, kw), ip.loc(st, node)))
            return Opq(("call", name) + tuple(vkey(a) for a in args) +
                       tuple((k, vkey(v)) for k, v in sorted(kw.items())))
        raise Unsupported("call of %s" % name)
    # gated arguments: distribute
    if name not in NO_LIFT:
        for q, v in enumerate(args):
            if isinstance(v, Phi) and not isbool(v):
                def go(x, s, q=q):
                    a2 = list(args)
                    a2[q] = x
                    if isinstance(f, BoundI):
                        return call_intrinsic(ip, BoundI(name, a2[0]), a2[1:], kw, s, node)
                    return call_intrinsic(ip, f, a2, kw, s, node)
                return ip.lift_st(go, v, st)
    return h(ip, st, args, kw, node)


EXC_NAMES = set()
for _n in list(BUILTINS):
    if _n.endswith("Error") or _n in ("Exception", "StopIteration", "KeyboardInterrupt"):
        EXC_NAMES.add(_n)

NO_LIFT = {"type", "isinstance", "print", "str", "repr", "hasattr", "list.append", "tuple", "list"}


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


# -- elementwise functions ----------------------------------------------------

def ew(f, dtype="f"):
    def h(ip, st, args, kw, node):
        r = elementwise1(ip, st, args[0], lambda x: lift(f, tonum(x)), dtype)
        out = kw.get("out")
        if isinstance(out, Arr) and isinstance(r, Arr):
            nv = ip.aval(st, r)
            ip.write_arr(st, out, lambda o: True, nv.at, node)
            return out
        return r
    return h


def ewm(f):
    """math.* : scalar result python float"""
    def h(ip, st, args, kw, node):
        v = args[0]
        if isinstance(v, Arr):
            av = ip.aval(st, v)
            if not all(s == RONE for s in av.shape):
                raise Unsupported("math function of an array")
            v = Sc(tonum(av.at(tuple(ZERO for _ in av.shape))), "f")
        return Sc(lift(f, num(v)), "f")
    return h


FUNCS = {"exp": A.exp, "log": A.log, "sqrt": A.sqrt, "lgamma": A.lgamma,
         "log10": lambda x: A.log(x) / A.log(R(10)), "log2": lambda x: A.log(x) / A.log(R(2)),
         "log1p": lambda x: A.log(RONE + x), "expm1": lambda x: A.exp(x) - 1,
         "sinh": lambda x: (A.exp(x) - A.exp(-x)) / 2, "cosh": lambda x: (A.exp(x) + A.exp(-x)) / 2,
         "tanh": lambda x: (A.exp(x) - A.exp(-x)) / (A.exp(x) + A.exp(-x)),
         "fabs": A.absv, "gamma": lambda x: A.exp(A.lgamma(x)),
         "sin": lambda x: A.mk("sin", (x,)), "cos": lambda x: A.mk("cos", (x,)), "exp2": lambda x: A.power(R(2), x)}
for _n, _f in FUNCS.items():
    TABLE["numpy." + _n] = ew(_f)
    TABLE["math." + _n] = ewm(_f)
    TABLE["numexpr." + _n] = ew(_f)
TABLE["math.factorial"] = ewm(lambda x: A.exp(A.lgamma(x + 1)))
for _n in ("scipy.special.gammaln", "scipy.special.loggamma"):
    TABLE[_n] = ew(A.lgamma)
TABLE["scipy.special.gamma"] = ew(lambda x: A.exp(A.lgamma(x)))
TABLE["scipy.special.factorial"] = ew(lambda x: A.exp(A.lgamma(x + 1)))
TABLE["numpy.square"] = ew(lambda x: x * x)
TABLE["numpy.reciprocal"] = ew(lambda x: x.inv())
TABLE["numpy.negative"] = ew(lambda x: -x)
TABLE["numpy.sign"] = ew(lambda x: sign(x))
TABLE["numpy.floor"] = ew(A.floor)
TABLE["numpy.ceil"] = ew(lambda x: -A.floor(-x))
TABLE["math.floor"] = lambda ip, st, a, k, n: Sc(lift(A.floor, num(a[0])), "i")
TABLE["math.ceil"] = lambda ip, st, a, k, n: Sc(lift(lambda x: -A.floor(-x), num(a[0])), "i")


def sign(x):
    s = A.sign_of(x)
    if s == "+":
        return RONE
    if s == "-":
        return -RONE
    if s == "0":
        return ZERO
    return A.mk("sign", (x,))


def h_abs(ip, st, args, kw, node):
    v = args[0]
    if isinstance(v, Sc):
        return Sc(lift(A.absv, v.e), v.k)
    r = toarr(ip, st, v) if not isinstance(v, Gather) else v
    return elementwise1(ip, st, v, lambda x: lift(A.absv, tonum(x)),
                        r.dtype if isinstance(r, ArrVal) else "f")


for _n in ("abs", "numpy.abs", "numpy.absolute", "numpy.fabs"):
    TABLE[_n] = h_abs

for _n, _op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"),
                ("true_divide", "Div"), ("power", "Pow"), ("floor_divide", "FloorDiv"), ("mod", "Mod")):
    def _mk(op):
        def h(ip, st, args, kw, node):
            r = binop(ip, op, args[0], args[1], st, node)
            out = kw.get("out", args[2] if len(args) > 2 else None)
            if isinstance(out, Arr):
                nv = toarr(ip, st, r)
                ip.write_arr(st, out, lambda o: True, nv.at, node)
                return out
            return r
        return h
    TABLE["numpy." + _n] = _mk(_op)
TABLE["math.pow"] = lambda ip, st, a, k, n: binop(ip, "Pow", a[0], a[1], st, n)
TABLE["pow"] = TABLE["math.pow"]


@model("numpy.maximum", "numpy.fmax")
def h_maximum(ip, st, args, kw, node):
    if isnum(args[0]) and isnum(args[1]):
        return Sc(lift(A.fmax, num(args[0]), num(args[1])), "F")
    return elementwise2(ip, st, args[0], args[1], lambda x, y: lift(A.fmax, x, y))


@model("numpy.minimum", "numpy.fmin")
def h_minimum(ip, st, args, kw, node):
    if isnum(args[0]) and isnum(args[1]):
        return Sc(lift(A.fmin, num(args[0]), num(args[1])), "F")
    return elementwise2(ip, st, args[0], args[1], lambda x, y: lift(A.fmin, x, y))


@model("numpy.logical_not")
def h_lnot(ip, st, args, kw, node):
    if isbool(args[0]):
        return bnot(args[0])
    return elementwise1(ip, st, args[0], lambda x: bnot(x if isbool(x) else flat(lift(lambda z: bnot(A.eq0(z)), x))), "b")


@model("numpy.logical_and", "numpy.bitwise_and")
def h_land(ip, st, args, kw, node):
    return binop(ip, "BitAnd", args[0], args[1], st, node)


@model("numpy.logical_or", "numpy.bitwise_or")
def h_lor(ip, st, args, kw, node):
    return binop(ip, "BitOr", args[0], args[1], st, node)


for _n, _op in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("greater", "Gt"),
                ("less_equal", "LtE"), ("greater_equal", "GtE")):
    def _mk2(op):
        return lambda ip, st, a, k, n: compare(ip, op, a[0], a[1], st)
    TABLE["numpy." + _n] = _mk2(_op)


@model("numpy.where")
def h_where(ip, st, args, kw, node):
    if len(args) == 1:
        c = args[0]
        if isinstance(c, Arr) and ip.aval(st, c).dtype == "b":
            return c      # used as an index: a mask
        raise Unsupported("numpy.where with one argument")
    c, a, b = args
    if isbool(c):
        return ip.merge(c, a, b, st)
    cv, x, y = toarr(ip, st, c), toarr(ip, st, a), toarr(ip, st, b)
    sh = bshape(bshape(cv.shape, x.shape), y.shape)

    def fn(idx):
        k = cv.at(bidx(cv.shape, idx))
        if not isbool(k):
            k = flat(lift(lambda z: bnot(A.eq0(z)), k))
        with A.assuming(k) as ok:
            p = x.at(bidx(x.shape, idx)) if ok and k is not False else None
        with A.assuming(bnot(k)) as ok2:
            q = y.at(bidx(y.shape, idx)) if ok2 and k is not True else None
        if p is None:
            return q
        if q is None:
            return p
        return ite(k, p, q)
    return ip.mkarr(st, ArrVal(sh, fn, "f" if "f" in (x.dtype, y.dtype) else x.dtype))


# -- construction ------------------------------------------------------------------

def dims(ip, st, v):
    if isinstance(v, Tup):
        return [num(x) for x in v.items]
    if isinstance(v, Ref):
        return [num(x) for x in ip.concrete_items(v, st)]
    return [num(v)]


def dtype_of(v, default="f"):
    if v is None:
        return default
    n = getattr(v, "name", None) or getattr(v, "key", None)
    if isinstance(n, tuple):
        return n[1] if n[0] == "dtype" else default
    if isinstance(v, str):
        n = v
    n = str(n).split(".")[-1]
    if n.startswith("int") or n == "i":
        return "i"
    if n.startswith("bool"):
        return "b"
    if n.startswith("float") or n in ("double", "f", "d"):
        if n == "float32":
            raise Unsupported("single precision")
        return "f"
    raise Unsupported("dtype %r" % (v,))


def filled(e):
    def h(ip, st, args, kw, node):
        sh = dims(ip, st, arg(args, kw, 0, "shape"))
        if any(isinstance(s, Phi) for s in sh):
            raise Unsupported("gated shape")
        dt = dtype_of(arg(args, kw, 1, "dtype"))
        return ip.mkarr(st, ArrVal(sh, lambda idx: e if dt != "b" else (not e.is_zero()), dt))
    return h


TABLE["numpy.zeros"] = filled(ZERO)
TABLE["numpy.ones"] = filled(RONE)


@model("numpy.empty", "numpy.ndarray")
def h_empty(ip, st, args, kw, node):
    sh = dims(ip, st, arg(args, kw, 0, "shape"))
    if any(isinstance(s, Phi) for s in sh):
        raise Unsupported("gated shape")
    k = ip._cell + 1
    return ip.mkarr(st, ArrVal(sh, lambda idx: A.mk("uninit", idx), dtype_of(arg(args, kw, 1, "dtype"))))


@model("numpy.full")
def h_full(ip, st, args, kw, node):
    sh = dims(ip, st, arg(args, kw, 0, "shape"))
    e = num(arg(args, kw, 1, "fill_value"))
    return ip.mkarr(st, ArrVal(sh, lambda idx: e, dtype_of(arg(args, kw, 2, "dtype"))))


def like(e):
    def h(ip, st, args, kw, node):
        av = toarr(ip, st, args[0])
        dt = dtype_of(arg(args, kw, 1, "dtype"), av.dtype)
        return ip.mkarr(st, ArrVal(av.shape, lambda idx: A.mk("uninit", idx) if e is None else e, dt))
    return h


TABLE["numpy.zeros_like"] = like(ZERO)
TABLE["numpy.ones_like"] = like(RONE)
TABLE["numpy.empty_like"] = like(None)


@model("numpy.full_like")
def h_full_like(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    e = num(arg(args, kw, 1, "fill_value"))
    return ip.mkarr(st, ArrVal(av.shape, lambda idx: e, dtype_of(kw.get("dtype"), av.dtype)))


@model("numpy.arange")
def h_arange(ip, st, args, kw, node):
    a = [x for x in args]
    if len(a) == 1:
        start, stop, step = ZERO, num(a[0]), RONE
    else:
        start, stop = num(a[0]), num(a[1])
        step = num(a[2]) if len(a) > 2 else (num(kw["step"]) if "step" in kw else RONE)
    if any(isinstance(x, Phi) for x in (start, stop, step)):
        def go(s0, s1, s2):
            return (s0, s1, s2)
        v = lift(lambda p, q, r: Tup([Sc(p, "i"), Sc(q, "i"), Sc(r, "i")]), start, stop, step)
        return ip.lift_st(lambda t, s: h_arange(ip, s, list(t.items), kw, node), v, st)
    n = RangeV(start, stop, step).count() if A.is_int_valued(start) and A.is_int_valued(stop) \
        and A.is_int_valued(step) else -A.floor(-(stop - start) / step)
    isint = A.is_int_valued(start) and A.is_int_valued(step)
    kinds = [kind_of(x) for x in a]
    dt = "f" if any(k in "fF" for k in kinds) else "i"
    dt = dtype_of(kw.get("dtype", args[3] if len(args) > 3 else None), dt)
    return ip.mkarr(st, ArrVal([n], lambda idx: start + step * idx[0], dt))


@model("numpy.linspace")
def h_linspace(ip, st, args, kw, node):
    a, b = num(args[0]), num(args[1])
    n = num(arg(args, kw, 2, "num", Sc(R(50), "i")))
    return ip.mkarr(st, ArrVal([n], lambda idx: a + (b - a) * idx[0] / (n - 1), "f"))


@model("numpy.eye", "numpy.identity")
def h_eye(ip, st, args, kw, node):
    n = num(args[0])
    return ip.mkarr(st, ArrVal([n, n], lambda idx: ite(A.eq0(idx[0] - idx[1]), RONE, ZERO), "f"))


@model("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.copy")
def h_array(ip, st, args, kw, node):
    v = args[0]
    if isinstance(v, Gather):
        return v
    av = toarr(ip, st, v)
    dt = dtype_of(arg(args, kw, 1, "dtype"), av.dtype)
    return ip.mkarr(st, ArrVal(av.shape, av.at, dt, av.tag))


@model("numpy.asarray", "numpy.ascontiguousarray")
def h_asarray(ip, st, args, kw, node):
    if isinstance(args[0], (Arr, Gather)) and len(args) == 1 and not kw:
        return args[0]
    return h_array(ip, st, args, kw, node)


@model("numpy.atleast_1d")
def h_atleast(ip, st, args, kw, node):
    v = args[0]
    if isinstance(v, Arr) and ip.aval(st, v).shape:
        return v
    av = toarr(ip, st, v)
    return ip.mkarr(st, ArrVal([RONE], lambda idx: av.at(()), av.dtype))


@model("numpy.append")
def h_append(ip, st, args, kw, node):
    ax = arg(args, kw, 2, "axis")
    a, b = toarr(ip, st, args[0]), toarr(ip, st, args[1])
    if isinstance(a, Gather) or isinstance(b, Gather):
        return gconcat(ip, st, [a, b])
    if ax is None:
        a, b = ravel_av(ip, st, a), ravel_av(ip, st, b)
        return ip.mkarr(st, concatenate(ip, st, [a, b], 0))
    return ip.mkarr(st, concatenate(ip, st, [a, b], num(ax).as_int()))


def gconcat(ip, st, vs):
    return Opq(("concat",) + tuple(gkey(v) for v in vs))


def gkey(v):
    if isinstance(v, Gather):
        idx = tuple(A.fresh("mi", nonneg=True) for _ in v.mask.shape)
        raise Unsupported("concatenation of masked selections")
    raise Unsupported("concatenation with a masked selection")


def ravel_av(ip, st, a):
    if len(a.shape) == 1:
        return a
    if len(a.shape) == 0:
        return ArrVal([RONE], lambda idx: a.at(()), a.dtype)
    return ip.aval(st, reshape(ip, st, a, [R(-1)]))


@model("numpy.concatenate")
def h_concatenate(ip, st, args, kw, node):
    ax = arg(args, kw, 1, "axis", Sc(ZERO, "i"))
    vs = [toarr(ip, st, x) for x in ip.concrete_items(args[0], st)]
    if any(isinstance(v, Gather) for v in vs):
        return gconcat(ip, st, vs)
    if ax is None:
        vs = [ravel_av(ip, st, v) for v in vs]
        return ip.mkarr(st, concatenate(ip, st, vs, 0))
    return ip.mkarr(st, concatenate(ip, st, vs, num(ax).as_int()))


@model("numpy.stack")
def h_stack(ip, st, args, kw, node):
    ax = num(arg(args, kw, 1, "axis", Sc(ZERO, "i"))).as_int()
    return ip.mkarr(st, stack([toarr(ip, st, x) for x in ip.concrete_items(args[0], st)], ax))


@model("numpy.vstack", "numpy.row_stack")
def h_vstack(ip, st, args, kw, node):
    vs = []
    for x in ip.concrete_items(args[0], st):
        v = toarr(ip, st, x)
        if len(v.shape) == 1:
            v = ArrVal((RONE,) + v.shape, lambda idx, v=v: v.at(idx[1:]), v.dtype)
        vs.append(v)
    return ip.mkarr(st, concatenate(ip, st, vs, 0))


@model("numpy.hstack")
def h_hstack(ip, st, args, kw, node):
    vs = [toarr(ip, st, x) for x in ip.concrete_items(args[0], st)]
    vs = [ravel_av(ip, st, v) if len(v.shape) == 0 else v for v in vs]
    return ip.mkarr(st, concatenate(ip, st, vs, 0 if len(vs[0].shape) == 1 else 1))


@model("numpy.dstack")
def h_dstack(ip, st, args, kw, node):
    vs = [toarr(ip, st, x) for x in ip.concrete_items(args[0], st)]
    return ip.mkarr(st, concatenate(ip, st, vs, 2))


@model("numpy.column_stack")
def h_cstack(ip, st, args, kw, node):
    return ip.mkarr(st, stack([toarr(ip, st, x) for x in ip.concrete_items(args[0], st)], 1))


@model("numpy.block")
def h_block(ip, st, args, kw, node):
    rows = []
    for r in ip.concrete_items(args[0], st):
        vs = [toarr(ip, st, x) for x in ip.concrete_items(r, st)]
        rows.append(concatenate(ip, st, vs, -1))
    return ip.mkarr(st, concatenate(ip, st, rows, -2))


@model("numpy.expand_dims")
def h_expand(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    ax = arg(args, kw, 1, "axis")
    axs = [num(x).as_int() for x in ax.items] if isinstance(ax, Tup) else [num(ax).as_int()]
    rank = len(av.shape) + len(axs)
    axs = [a % rank for a in axs]
    ix = [None if k in axs else SliceV(None, None, None) for k in range(rank)]
    v = args[0] if isinstance(args[0], Arr) else ip.mkarr(st, av)
    return getitem(ip, v, Tup(ix), st, node)


@model("numpy.squeeze", "ndarray.squeeze")
def h_squeeze(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    ax = arg(args, kw, 1, "axis")
    axs = [k for k, s in enumerate(av.shape) if s == RONE] if ax is None else axes_of(ax, len(av.shape))
    ix = [Sc(ZERO, "i") if k in axs else SliceV(None, None, None) for k in range(len(av.shape))]
    return getitem(ip, args[0], Tup(ix), st, node)


@model("numpy.transpose", "ndarray.transpose")
def h_transpose(ip, st, args, kw, node):
    rest = args[1:]
    if not rest and "axes" in kw:
        rest = [kw["axes"]]
    if len(rest) == 1 and isinstance(rest[0], (Tup, Ref)):
        rest = ip.concrete_items(rest[0], st)
    if rest and rest[0] is None:
        rest = []
    n = len(toarr(ip, st, args[0]).shape)
    perm = [num(x).as_int() % n for x in rest] if rest else None
    return transpose(ip, st, args[0], perm)


@model("numpy.swapaxes", "ndarray.swapaxes")
def h_swap(ip, st, args, kw, node):
    n = len(toarr(ip, st, args[0]).shape)
    i, j = num(args[1]).as_int() % n, num(args[2]).as_int() % n
    p = list(range(n))
    p[i], p[j] = p[j], p[i]
    return transpose(ip, st, args[0], p)


@model("numpy.moveaxis")
def h_move(ip, st, args, kw, node):
    n = len(toarr(ip, st, args[0]).shape)
    i, j = num(args[1]).as_int() % n, num(args[2]).as_int() % n
    p = [k for k in range(n) if k != i]
    p.insert(j, i)
    return transpose(ip, st, args[0], p)


@model("numpy.reshape", "ndarray.reshape")
def h_reshape(ip, st, args, kw, node):
    rest = args[1:]
    if len(rest) == 1 and isinstance(rest[0], (Tup, Ref)):
        rest = ip.concrete_items(rest[0], st)
    return reshape(ip, st, args[0], [num(x) for x in rest])


@model("ndarray.flatten", "ndarray.ravel", "numpy.ravel")
def h_flatten(ip, st, args, kw, node):
    return reshape(ip, st, args[0], [R(-1)])


@model("ndarray.copy", "numpy.copy")
def h_copy(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    if isinstance(av, Gather):
        return av
    return ip.mkarr(st, av)


@model("ndarray.astype")
def h_astype(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    dt = dtype_of(args[1])
    if dt == "i" and av.dtype == "f":
        return ip.mkarr(st, ArrVal(av.shape, lambda idx: lift(lambda e: e if A.is_int_valued(e) else
                                                              A.mk("trunc", (e,), integer=True), av.at(idx)), "i"))
    return ip.mkarr(st, ArrVal(av.shape, lambda idx: tonum(av.at(idx)) if dt != "b" else av.at(idx), dt))


@model("ndarray.fill")
def h_fill(ip, st, args, kw, node):
    e = num(args[1])
    ip.write_arr(st, args[0], lambda o: True, lambda o: e, node)
    return None


@model("ndarray.tolist")
def h_tolist(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    n = av.shape[0]
    k = n.as_int()
    if len(av.shape) != 1:
        raise Unsupported("tolist of a matrix")
    kd = "f" if av.dtype == "f" else "i"
    if k is not None:
        return ip.mklist(st, [Sc(av.at((R(j),)), kd) for j in range(k)])
    return ip.mksym(st, n, lambda j: Sc(av.at((R(j),)), kd))


@model("ndarray.item", "scalar.item", "scalar.copy", "scalar.astype")
def h_item(ip, st, args, kw, node):
    if isinstance(args[0], Sc):
        return args[0]
    av = toarr(ip, st, args[0])
    if len(args) > 1:
        return getitem(ip, args[0], args[1] if len(args) == 2 else Tup(args[1:]), st, node)
    return Sc(av.at(tuple(ZERO for _ in av.shape)), "f")


@model("scalar.is_integer")
def h_isint(ip, st, args, kw, node):
    return lift(lambda e: A.eq0(e - A.floor(e)), num(args[0]))


for _n in ("scalar.sum", "scalar.max", "scalar.min", "boolscalar.any", "boolscalar.all"):
    TABLE[_n] = lambda ip, st, a, k, n: a[0]
TABLE["scalar.all"] = TABLE["scalar.any"] = lambda ip, st, a, k, n: truth(ip, a[0], st)


@model("numpy.ones_like")
def h_ol(ip, st, args, kw, node):
    if isinstance(args[0], Sc):
        return Sc(RONE, "F")
    return like(RONE)(ip, st, args, kw, node)


@model("ndarray.sum", "numpy.sum", "numpy.nansum")
def h_sum(ip, st, args, kw, node):
    v = args[0]
    if isinstance(v, Sc):
        return v
    if isinstance(v, Gather):
        return gsum(ip, st, v)
    av = toarr(ip, st, v)
    ax = arg(args, kw, 1, "axis")
    keep = kw.get("keepdims", False)
    return reduce_sum(ip, st, av, axes_of(ax, len(av.shape)), keep is True)


def gsum(ip, st, g):
    m, s = g.mask, g.src
    av = ArrVal(s.shape, lambda idx: ite(m.at(idx), s.at(idx), ZERO), s.dtype)
    return reduce_sum(ip, st, av, list(range(len(s.shape))))


TABLE["gather.sum"] = lambda ip, st, a, k, n: gsum(ip, st, a[0])
TABLE["gather.copy"] = lambda ip, st, a, k, n: a[0]


@model("ndarray.prod", "numpy.prod")
def h_prod(ip, st, args, kw, node):
    if isinstance(args[0], Tup):
        r = RONE
        for x in args[0].items:
            r = mul(r, num(x))
        return Sc(r, "I")
    av = toarr(ip, st, args[0])
    return reduce_sum(ip, st, av, axes_of(arg(args, kw, 1, "axis"), len(av.shape)), op="prod")


@model("ndarray.mean", "numpy.mean")
def h_mean(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    ax = axes_of(arg(args, kw, 1, "axis"), len(av.shape))
    s = reduce_sum(ip, st, av, ax)
    return binop(ip, "Div", s, Sc(prod_shape([av.shape[k] for k in ax]), "i"), st, node)


for _n, _op in (("max", "amax"), ("min", "amin"), ("argmax", "argmax"), ("argmin", "argmin")):
    def _mk3(op):
        def h(ip, st, args, kw, node):
            if isinstance(args[0], Sc):
                return args[0]
            if isinstance(args[0], Gather):
                raise Unsupported("extremum of a masked selection")
            av = toarr(ip, st, args[0])
            return reduce_ext(ip, st, av, axes_of(arg(args, kw, 1, "axis"), len(av.shape)), op)
        return h
    TABLE["numpy." + _n] = TABLE["ndarray." + _n] = _mk3(_op)
TABLE["numpy.amax"] = TABLE["numpy.max"]
TABLE["numpy.amin"] = TABLE["numpy.min"]

for _n in ("any", "all"):
    def _mk4(op):
        def h(ip, st, args, kw, node):
            v = args[0]
            if isbool(v):
                return v
            if isinstance(v, Sc):
                return truth(ip, v, st)
            av = toarr(ip, st, v)
            if isinstance(av, Gather):
                raise Unsupported("any/all of a masked selection")
            return reduce_bool(ip, st, av, axes_of(arg(args, kw, 1, "axis"), len(av.shape)), op)
        return h
    TABLE["numpy." + _n] = TABLE["ndarray." + _n] = _mk4(_n)
TABLE["numpy.alltrue"] = TABLE["numpy.all"]


def _h_isclose(ip, st, args, kw, node):
    rt = arg(args, kw, 2, "rtol")
    at = arg(args, kw, 3, "atol")
    r = num(rt) if rt is not None else R(1) / 10 ** 5
    t = num(at) if at is not None else R(1) / 10 ** 8
    f = lambda x, y: A.lift(lambda d, b: A.ge0(t + r * b - d), A.absv(tonum(x) - tonum(y)) if isinstance(tonum(x), Rat) and isinstance(tonum(y), Rat)
                            else A.lift(lambda u, v: A.absv(u - v), tonum(x), tonum(y)), A.lift(A.absv, tonum(y)))
    return elementwise2(ip, st, args[0], args[1], f, "b")


TABLE["numpy.isclose"] = _h_isclose
TABLE["numpy.allclose"] = lambda ip, st, args, kw, node: TABLE["numpy.all"](ip, st, [_h_isclose(ip, st, args, kw, node)], {}, node)


def _h_array_equal(ip, st, args, kw, node):
    a, b = (None if x is None else toarr(ip, st, x) for x in args[:2])
    if a is None or b is None:
        return a is None and b is None
    if len(a.shape) != len(b.shape):
        return False
    c = True
    for x, y in zip(a.shape, b.shape):
        c = band(c, A.eq0(x - y))
    if c is False:
        return False
    idx = [A.fresh("mi", nonneg=True) for _ in a.shape]
    same = ArrVal(a.shape, lambda ix: A.lift(lambda x, y: A.eq0(x - y), tonum(a.at(ix)), tonum(b.at(ix))), "b")
    with A.assuming(c) as ok:
        return band(c, TABLE["numpy.all"](ip, st, [ip.mkarr(st, same)], {}, node)) if ok else False


TABLE["numpy.array_equal"] = _h_array_equal


@model("numpy.array_equal")
def h_aeq(ip, st, args, kw, node):
    a, b = args
    if a is None or b is None:
        return a is None and b is None
    x, y = toarr(ip, st, a), toarr(ip, st, b)
    if len(x.shape) != len(y.shape):
        return False
    c = True
    for p, q in zip(x.shape, y.shape):
        c = band(c, A.eq0(p - q))
    if c is False:
        return False
    r = compare(ip, "Eq", a, b, st) if c is True else Unknown("array_equal of different shapes")
    if isinstance(r, Unknown):
        return A._known(A.condatom("unk", r.reason))
    return band(c, TABLE["numpy.all"](ip, st, [r], {}, node))


@model("numpy.shape")
def h_shape(ip, st, args, kw, node):
    if args[0] is None:
        return Tup([])
    if isinstance(args[0], (Sc,)):
        return Tup([])
    return Tup([Sc(s, "i") for s in toarr(ip, st, args[0]).shape])


@model("numpy.ndim")
def h_ndim(ip, st, args, kw, node):
    return Sc(R(len(toarr(ip, st, args[0]).shape)), "i")


@model("numpy.size")
def h_size(ip, st, args, kw, node):
    return Sc(prod_shape(toarr(ip, st, args[0]).shape), "i")


@model("numpy.trace", "ndarray.trace")
def h_trace(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    off = arg(args, kw, 1, "offset")
    a1 = arg(args, kw, 2, "axis1", Sc(ZERO, "i"))
    a2 = arg(args, kw, 3, "axis2", Sc(RONE, "i"))
    n = len(av.shape)
    i, j = num(a1).as_int() % n, num(a2).as_int() % n
    if off is not None and not num(off).is_zero():
        raise Unsupported("trace offset")
    if not av.shape[i] == av.shape[j]:
        raise Unsupported("trace of a non-square matrix")
    letters = "abcdefgh"[:n]
    s = list(letters)
    s[j] = s[i]
    out = "".join(letters[k] for k in range(n) if k not in (i, j))
    return einsum(ip, st, "".join(s) + "->" + out, [av])


@model("numpy.diagonal", "ndarray.diagonal", "numpy.diag")
def h_diag(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    if len(args) > 1 or kw:
        a1 = num(arg(args, kw, 2, "axis1", Sc(ZERO, "i"))).as_int()
        a2 = num(arg(args, kw, 3, "axis2", Sc(RONE, "i"))).as_int()
        if len(av.shape) == 3 and {a1 % 3, a2 % 3} == {1, 2}:
            return einsum(ip, st, "aii->ai", [av])
        raise Unsupported("diagonal")
    if len(av.shape) == 2:
        return einsum(ip, st, "ii->i", [av])
    raise Unsupported("diag of a vector")


@model("numpy.einsum")
def h_einsum(ip, st, args, kw, node):
    if not isinstance(args[0], str):
        raise Unsupported("einsum without a subscript string")
    return einsum(ip, st, args[0], [toarr(ip, st, x) for x in args[1:]])


@model("numpy.dot", "ndarray.dot")
def h_dot(ip, st, args, kw, node):
    if isnum(args[0]) or isnum(args[1]):
        return binop(ip, "Mult", args[0], args[1], st, node)
    return matmul(ip, st, args[0], args[1])


@model("numpy.matmul")
def h_matmul(ip, st, args, kw, node):
    return matmul(ip, st, args[0], args[1])


@model("numpy.outer")
def h_outer(ip, st, args, kw, node):
    return einsum(ip, st, "i,j->ij", [ravel_av(ip, st, toarr(ip, st, x)) for x in args[:2]])


@model("numpy.subtract.outer")
def h_subouter(ip, st, args, kw, node):
    x, y = [ravel_av(ip, st, toarr(ip, st, v)) for v in args[:2]]
    return ip.mkarr(st, ArrVal([x.shape[0], y.shape[0]], lambda i: sub(x.at((i[0],)), y.at((i[1],))), "f"))


@model("numpy.add.outer")
def h_addouter(ip, st, args, kw, node):
    x, y = [ravel_av(ip, st, toarr(ip, st, v)) for v in args[:2]]
    return ip.mkarr(st, ArrVal([x.shape[0], y.shape[0]], lambda i: add(x.at((i[0],)), y.at((i[1],))), "f"))


@model("numpy.linalg.inv", "scipy.linalg.inv")
def h_inv(ip, st, args, kw, node):
    return matfun(ip, st, args[0], "minv", True)


@model("numpy.linalg.slogdet")
def h_slogdet(ip, st, args, kw, node):
    return Tup([matfun(ip, st, args[0], "detsign"), matfun(ip, st, args[0], "lndet")])


@model("numpy.linalg.det", "scipy.linalg.det")
def h_det(ip, st, args, kw, node):
    return matfun(ip, st, args[0], "det")


@model("numpy.broadcast_to")
def h_bto(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    sh = dims(ip, st, args[1])
    return ip.mkarr(st, ArrVal(bshape(av.shape, tuple(sh)), lambda idx: av.at(bidx(av.shape, idx)), av.dtype))


@model("numpy.meshgrid")
def h_mesh(ip, st, args, kw, node):
    vs = [ravel_av(ip, st, toarr(ip, st, x)) for x in args]
    ij = kw.get("indexing") == "ij"
    n = len(vs)
    order = list(range(n))
    if not ij and n >= 2:
        order[0], order[1] = 1, 0
    sh = [vs[order[k]].shape[0] for k in range(n)]
    out = []
    for q, v in enumerate(vs):
        pos = order.index(q)
        out.append(ip.mkarr(st, ArrVal(sh, lambda idx, v=v, pos=pos: v.at((idx[pos],)), v.dtype)))
    return ip.mklist(st, out)


@model("numpy.indices")
def h_indices(ip, st, args, kw, node):
    sh = dims(ip, st, args[0])
    return ip.mklist(st, [ip.mkarr(st, ArrVal(sh, lambda idx, k=k: idx[k], "i")) for k in range(len(sh))])


@model("numpy.tile")
def h_tile(ip, st, args, kw, node):
    raise Unsupported("numpy.tile")


@model("numpy.gradient")
def h_gradient(ip, st, args, kw, node):
    av = toarr(ip, st, args[0])
    h = args[1] if len(args) > 1 else Sc(RONE, "i")
    if len(av.shape) != 1:
        raise Unsupported("gradient of a matrix")
    n = av.shape[0]
    order = 1
    if "edge_order" in kw and set(kw) == {"edge_order"} and not isinstance(h, Arr):
        order = num(kw["edge_order"]).as_int()
    elif kw:
        order = None
    if order not in (1, 2):
        raise Unsupported("gradient with options")
    if isinstance(h, Arr):
        i = A.fresh("sv", nonneg=True)
        with A.facts(i, n - i - 1):
            body = A.binder("lam", i, (n,), av.at((i,)))
        hv = toarr(ip, st, h)
        j = A.fresh("sv", nonneg=True)
        hb = A.binder("lam", j, (hv.shape[0],), hv.at((j,)))
        return ip.mkarr(st, ArrVal(av.shape, lambda idx: A.mk("gradx", (body, hb, idx[0])), "f"))
    e = num(h)

    def fn(idx):
        i = idx[0]
        d = lambda x, y, c: A.lift(lambda p, q: (p - q) / (c * e), av.at((x,)), av.at((y,)))
        first, last = A.eq0(i), A.eq0(n - 1 - i)
        if order == 2:
            t = lambda x, y, z, c: A.lift(lambda p, q, r: (-3 * p + 4 * q - r) / (c * e), av.at((x,)), av.at((y,)), av.at((z,)))
            return gate(first, lambda: t(ZERO, RONE, R(2), 2), lambda: gate(last, lambda: t(n - 1, n - 2, n - 3, -2), lambda: d(i + 1, i - 1, 2)))
        return gate(first, lambda: d(RONE, ZERO, 1), lambda: gate(last, lambda: d(n - 1, n - 2, 1), lambda: d(i + 1, i - 1, 2)))
    ip.may_raise(st, A.lift(lambda x: A.gt0(order + 1 - x), n), "ValueError", node)
    return ip.mkarr(st, ArrVal(av.shape, fn, "f"))


def gate(c, hi, lo):
    if c is True:
        return hi()
    if c is False:
        return lo()
    with A.assuming(c) as ok:
        h = hi() if ok else None
    with A.assuming(A.bnot(c)) as ok:
        l = lo() if ok else None
    if h is None or l is None:
        return l if h is None else h
    return ite(c, h, l)


@model("numpy.vectorize")
def h_vectorize(ip, st, args, kw, node):
    raise Unsupported("numpy.vectorize")


@model("numpy.sort", "ndarray.sort")
def h_sort(ip, st, args, kw, node):
    raise Unsupported("sort of an array")


for _n in ("numpy.float64", "numpy.double", "float"):
    def _h_float(ip, st, args, kw, node):
        v = args[0] if args else Sc(ZERO, "f")
        if isinstance(v, Arr):
            av = ip.aval(st, v)
            if all(s == RONE for s in av.shape):
                return Sc(tonum(av.at(tuple(ZERO for _ in av.shape))), "f")
            raise Unsupported("float() of an array")
        if isinstance(v, str):
            from .interp import fconst
            try:
                return Sc(fconst(float(v)), "f")
            except ValueError:
                ip.may_raise(st, True, "ValueError", node)
                return Unknown("float of a string")
        if isinstance(v, Opq):
            c = A._known(A.condatom("raises", "ValueError", Opq(("float", v.key))))
            if ip.try_depth:
                ip.may_raise(st, c, "ValueError", node)
            return Opq(("float", v.key), "f")
        return Sc(num(v), "f")
    TABLE[_n] = _h_float


@model("int", "numpy.int64", "numpy.int32")
def h_int(ip, st, args, kw, node):
    v = args[0] if args else Sc(ZERO, "i")
    if isinstance(v, Opq):
        return Opq(("int", v.key), "i")
    if isinstance(v, str):
        return Sc(R(int(v)), "i")
    if isinstance(v, Arr):
        av = ip.aval(st, v)
        if not all(s == RONE for s in av.shape):
            raise Unsupported("int() of an array")
        v = Sc(tonum(av.at(tuple(ZERO for _ in av.shape))), "f")
    return Sc(lift(trunc, num(v)), "i")


def trunc(x):
    if A.is_int_valued(x):
        return x
    c = x.const()
    if c is not None:
        return R(int(c))
    if A.sign_of(x) in ("+", "0+") or A.decide_gt0(x, False) is True:
        return A.floor(x)
    x = x.canon()
    # round(y) is an integer already
    return A.mk("trunc", (x,), integer=True)


@model("round", "numpy.round", "numpy.rint", "numpy.around")
def h_round(ip, st, args, kw, node):
    if "decimals" in kw or "ndigits" in kw:
        args = list(args[:1]) + [kw[k] for k in ("decimals", "ndigits") if k in kw]
    if len(args) > 1:
        d = num(args[1]).as_int() if isinstance(args[1], Sc) and isinstance(args[1].e, Rat) else None
        if d is None:
            raise Unsupported("round with computed digits")
        p = R(Fr(10) ** d)

        def g(x):
            c = x.const()
            if c is not None:
                return R(Fr(round(c * Fr(10) ** d)) / Fr(10) ** d)
            if A.is_int_valued(x * p):
                return x
            return A.mk("round", (x * p,), integer=True, nonneg=A.sign_of(x) in ("+", "0+")) / p
        if isinstance(args[0], Arr):
            return elementwise1(ip, st, args[0], lambda x: lift(g, x))
        return Sc(lift(g, num(args[0])), "F")

    def f(x):
        if A.is_int_valued(x):
            return x
        return A.mk("round", (x,), integer=True, nonneg=A.sign_of(x) in ("+", "0+"))
    if isinstance(args[0], Arr):
        return elementwise1(ip, st, args[0], lambda x: lift(f, x))
    return Sc(lift(f, num(args[0])), "i")


@model("bool")
def h_bool(ip, st, args, kw, node):
    return truth(ip, args[0], st)


@model("len")
def h_len(ip, st, args, kw, node):
    v = args[0]
    if isinstance(v, Tup):
        return Sc(R(len(v.items)), "i")
    if isinstance(v, str):
        return Sc(R(len(v)), "i")
    if isinstance(v, Arr):
        sh = ip.aval(st, v).shape
        if not sh:
            ip.may_raise(st, True, "TypeError", node)
            return Unknown("len of a 0-d array")
        return Sc(sh[0], "i")
    if isinstance(v, Gather):
        return Sc(mask_count(v.mask), "i")
    if isinstance(v, Ref):
        c = st.heap[v.cell]
        if isinstance(c, ListVal):
            return Sc(R(len(c.items)), "i")
        if isinstance(c, DictVal):
            return Sc(R(len(c.d)), "i")
        if isinstance(c, SymList):
            if c.cond is None:
                return Sc(c.n, "i")
            i = A.fresh("sv", nonneg=True)
            return Sc(A.summation(i, c.n, tonum(c.cond(i))), "i")
    if isinstance(v, RangeV):
        return Sc(v.count(), "i")
    if isinstance(v, Opq):
        return Sc(A.mk("len", (v,), integer=True, nonneg=True), "i")
    if isinstance(v, Sc):
        ip.may_raise(st, True, "TypeError", node)
        return Unknown("len of a number")
    raise Unsupported("len of %r" % (v,))


@model("range")
def h_range(ip, st, args, kw, node):
    es = [num(a) for a in args]
    if any(isinstance(e, Phi) for e in es):
        def mkr(*q):
            return _mkrange(q)
        return lift(lambda *q: _mkrange(q), *es)
    return _mkrange(es)


def _mkrange(es):
    if len(es) == 1:
        return RangeV(ZERO, es[0], RONE)
    if len(es) == 2:
        return RangeV(es[0], es[1], RONE)
    return RangeV(*es)


def h_minmax(op):
    f = A.fmin if op == "min" else A.fmax

    def h(ip, st, args, kw, node):
        if "key" in kw or "default" in kw:
            raise Unsupported("min/max with key")
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.heap[v.cell], SymList):
                c = st.heap[v.cell]
                i = A.fresh("sv", nonneg=True)
                e = num(c.fn(i))
                cond = c.cond(i) if c.cond else True
                ne = exists(i, c.n, cond) if cond is not True else A.gt0(c.n)
                if ip.try_depth:
                    ip.may_raise(st, bnot(ne), "ValueError", node)
                return Sc(A.binder("a" + op, i, (c.n,), Tup2(cond, e)) if False else
                          ext_atom("a" + op, i, c.n, cond, e), "f")
            if isinstance(v, Arr):
                av = ip.aval(st, v)
                return reduce_ext(ip, st, av, [0], "a" + op) if len(av.shape) == 1 else \
                    Unknown("builtin max of a matrix")
            items = ip.concrete_items(v, st)
        else:
            items = args
        if not items:
            ip.may_raise(st, True, "ValueError", node)
            return Unknown("min of nothing")
        vals = []
        for x in items:
            if isinstance(x, Arr):
                av = ip.aval(st, x)
                if not all(s == RONE for s in av.shape):
                    raise Unsupported("builtin max over arrays")
                x = Sc(tonum(av.at(tuple(ZERO for _ in av.shape))), "F")
            vals.append(x)
        r = num(vals[0])
        k = kind_of(vals[0])
        for x in vals[1:]:
            r = lift(f, r, num(x))
            k = jkind("Add", k, kind_of(x))
        return Sc(r, k)
    return h


def ext_atom(op, i, n, cond, e):
    """extremum over {i < n : cond(i)} of e(i)"""
    d = 1 + max(A.depth_of(e), A.depth_of(cond) if isinstance(cond, Phi) else 0)
    bv = A.bvar(d)
    m = {A._single_atom(i).id: bv}
    nn = isinstance(e, Rat) and A.sign_of(e) in ("+", "0+")
    return A.mk(op, (d, n, A.subst(cond, m) if isinstance(cond, Phi) else cond, A.subst(e, m)), nonneg=nn)


def Tup2(*a):
    return a


TABLE["min"] = h_minmax("min")
TABLE["max"] = h_minmax("max")


@model("sum", "math.fsum")
def h_bsum(ip, st, args, kw, node):
    v = args[0]
    start = args[1] if len(args) > 1 else Sc(ZERO, "i")
    if isinstance(v, Ref) and isinstance(st.heap[v.cell], SymList):
        c = st.heap[v.cell]
        i = A.fresh("sv", nonneg=True)
        with A.facts(i, c.n - i - 1):
            x = c.fn(i)
        cond = c.cond(i) if c.cond else True
        if isinstance(x, Arr):
            av0 = ip.aval(st, x)
            if cond is not True:
                raise Unsupported("sum of filtered arrays")
            iid = A._single_atom(i).id

            def fn(idx):
                return A.summation(i, c.n, tonum(av0.at(idx)))
            r = ip.mkarr(st, ArrVal(av0.shape, fn, av0.dtype))
            return binop(ip, "Add", start, r, st, node)
        e = num(x)
        if cond is not True:
            e = ite(cond, e, ZERO)
        return Sc(add(num(start), A.summation(i, c.n, e)), kind_of(x))
    if isinstance(v, Arr):
        av = ip.aval(st, v)
        return binop(ip, "Add", start, reduce_sum(ip, st, av, [0]), st, node)
    r = start
    for x in ip.concrete_items(v, st):
        r = binop(ip, "Add", r, x, st, node)
    return r


@model("type")
def h_type(ip, st, args, kw, node):
    return typeof(ip, args[0], st)


@model("isinstance")
def h_isinstance(ip, st, args, kw, node):
    return isinst(ip, args[0], args[1], st)


@model("hasattr")
def h_hasattr(ip, st, args, kw, node):
    o, n = args
    if isinstance(o, Ref) and o.kind == "obj":
        c = st.heap[o.cell]
        v = c.attrs.get(n, MISSING)
        if isinstance(v, Phi):
            return lift(lambda x: x is not MISSING, v)
        if v is not MISSING:
            return True
        if isinstance(c.cls, ClassV):
            return c.cls.lookup(n)[0] is not None
        return False
    if isinstance(o, Arr):
        return n in ARR_METHODS or n in ("shape", "size", "ndim", "dtype", "T")
    if isinstance(o, Sc) and o.k in "if":
        return n in ("real", "imag", "conjugate", "is_integer")
    if isinstance(o, Tup) or isinstance(o, Ref):
        return n in ("__len__", "__iter__", "index", "count")
    raise Unsupported("hasattr")


@model("getattr")
def h_getattr(ip, st, args, kw, node):
    o, n = args[0], args[1]
    if not isinstance(n, str):
        return Opq(("getattr", vkey(o), vkey(n)))
    if len(args) > 2:
        if isinstance(o, Ref) and o.kind == "obj":
            c = st.heap[o.cell]
            v = c.attrs.get(n, MISSING)
            if isinstance(v, Phi):
                return lift(lambda x: args[2] if x is MISSING else x, v)
            if v is MISSING and (not isinstance(c.cls, ClassV) or c.cls.lookup(n)[0] is None):
                return args[2]
    return ip.getattr(o, n, st, node)


@model("setattr")
def h_setattr(ip, st, args, kw, node):
    ip.setattr(args[0], args[1], args[2], st, node)
    return None


@model("print")
def h_print(ip, st, args, kw, node):
    return None


@model("str", "repr")
def h_str(ip, st, args, kw, node):
    v = args[0] if args else ""
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, Sc) and isinstance(v.e, Rat) and v.k == "i" and v.e.as_int() is not None:
        return str(v.e.as_int())
    return SStr([("s", v)])


@model("callable")
def h_callable(ip, st, args, kw, node):
    return isinstance(args[0], (FuncV, BoundM, ClassV, Intr, BoundI))


@model("id")
def h_id(ip, st, args, kw, node):
    return Opq(("id", vkey(args[0])))


@model("list", "tuple")
def h_list(ip, st, args, kw, node, tup=False):
    if not args:
        return ip.mklist(st, [])
    v = args[0]
    if isinstance(v, Unknown):
        return v
    if isinstance(v, Opq):
        return Opq(("list", v.key))
    if isinstance(v, Phi):
        return ip.lift_st(lambda x, s: h_list(ip, s, [x], kw, node), v, st)
    if isinstance(v, Ref) and v.kind == "list":
        c = st.heap[v.cell]
        if isinstance(c, ListVal):
            return ip.mklist(st, list(c.items))
        return ip.mksym(st, c.n, c.fn, c.cond)
    n, item = ip.iterspace(v, st)
    if isinstance(n, int):
        return ip.mklist(st, [item(j) for j in range(n)])
    return ip.mksym(st, n, item)


TABLE["list"] = h_list


@model("tuple")
def h_tuple(ip, st, args, kw, node):
    if not args:
        return Tup([])
    r = h_list(ip, st, args, kw, node)
    if isinstance(r, Ref) and isinstance(st.heap[r.cell], ListVal):
        return Tup(st.heap[r.cell].items)
    return r


@model("dict")
def h_dict(ip, st, args, kw, node):
    d = {}
    if args:
        v = args[0]
        if isinstance(v, Ref) and v.kind == "dict":
            d.update(st.heap[v.cell].d)
        else:
            for t in ip.concrete_items(v, st):
                k, x = ip.unpack(t, 2, st)
                d[ip.tokey(k)] = x
    d.update(kw)
    return ip.mkdict(st, d)


@model("set")
def h_set(ip, st, args, kw, node):
    return h_tuple(ip, st, args, kw, node)


@model("enumerate")
def h_enum(ip, st, args, kw, node):
    from .interp import IterV
    n, item = ip.iterspace(args[0], st)
    s = num(arg(args, kw, 1, "start", Sc(ZERO, "i")))
    return IterV(n, lambda j: Tup([Sc(s + R(j), "i"), item(j)]))


@model("zip")
def h_zip(ip, st, args, kw, node):
    from .interp import IterV
    sp = [ip.iterspace(a, st) for a in args]
    ns = [n for n, _ in sp]
    if all(isinstance(n, int) for n in ns):
        n = min(ns)
    elif all(isinstance(n, Rat) for n in ns):
        n = ns[0]
        for m in ns[1:]:
            if not m == n:
                n = A.fmin(n, m)
    else:
        n = [x for x in ns if isinstance(x, int)][0]
    return IterV(n, lambda j: Tup([it(j) for _, it in sp]))


@model("reversed")
def h_reversed(ip, st, args, kw, node):
    from .interp import IterV
    v = args[0]
    if isinstance(v, RangeV):
        n = v.count()
        return RangeV(v.a + v.c * (n - 1), v.a - v.c, -v.c)
    n, item = ip.iterspace(v, st)
    if isinstance(n, int):
        return ip.mklist(st, [item(n - 1 - j) for j in range(n)])
    return ip.mksym(st, n, lambda j: item(n - 1 - j))


@model("map")
def h_map(ip, st, args, kw, node):
    f = args[0]
    vals = args[1:]
    from .interp import IterV, freeze, subst_val
    if isinstance(vals[0], Opq):
        return Opq(("map", vkey(f), vals[0].key))
    sp = [ip.iterspace(a, st) for a in vals]
    n = sp[0][0]
    if isinstance(n, int):
        return ip.mklist(st, [ip.call(f, [it(j) for _, it in sp], {}, st, node) for j in range(n)])
    i = A.fresh("ci", nonneg=True)
    with A.facts(i, n - i - 1):
        v = freeze(ip, st, ip.call(f, [it(i) for _, it in sp], {}, st, node))
    iid = A._single_atom(i).id
    return ip.mksym(st, n, lambda j: subst_val(v, {iid: R(j)}, ip, st))


@model("filter")
def h_filter(ip, st, args, kw, node):
    f, v = args
    if isinstance(v, str):
        # revision strings: result only feeds __version__
        return Opq(("filter", v))
    items = ip.concrete_items(v, st)
    out = []
    for x in items:
        c = truth(ip, ip.call(f, [x], {}, st, node) if f is not None else x, st)
        if c is True:
            out.append(x)
        elif c is not False:
            raise Unsupported("gated filter")
    return ip.mklist(st, out)


def sort_items(ip, st, items):
    items = [x for x in items]
    if len(items) <= 1:
        return items
    if len(items) == 2:
        a, b = num(items[0]), num(items[1])
        k = jkind("Add", kind_of(items[0]), kind_of(items[1]))
        return [Sc(lift(A.fmin, a, b), k), Sc(lift(A.fmax, a, b), k)]
    cs = [num(x).const() if isinstance(num(x), Rat) else None for x in items]
    if all(c is not None for c in cs):
        return [x for _, x in sorted(zip(cs, items), key=lambda t: t[0])]
    raise Unsupported("sort of %d symbolic items" % len(items))


@model("sorted")
def h_sorted(ip, st, args, kw, node):
    if kw.get("key") is not None:
        raise Unsupported("sorted with key")
    it = sort_items(ip, st, ip.concrete_items(args[0], st))
    if kw.get("reverse", False) is True:
        it = it[::-1]
    return ip.mklist(st, it)


@model("any", "all")
def h_anyall(ip, st, args, kw, node):
    raise Unsupported("any/all")


def _anyall(op):
    def h(ip, st, args, kw, node):
        v = args[0]
        if isinstance(v, Arr):
            return TABLE["numpy." + op](ip, st, args, kw, node)
        if isinstance(v, Ref) and isinstance(st.heap[v.cell], SymList):
            c = st.heap[v.cell]
            i = A.fresh("sv", nonneg=True)
            with A.facts(i, c.n - i - 1):
                e = truth(ip, c.fn(i), st)
                k = c.cond(i) if c.cond else True
            if op == "any":
                return exists(i, c.n, band(k, e))
            return bnot(exists(i, c.n, band(k, bnot(e))))
        r = op == "all"
        for x in ip.concrete_items(v, st):
            t = truth(ip, x, st)
            r = band(r, t) if op == "all" else bor(r, t)
        return r
    return h


TABLE["any"] = _anyall("any")
TABLE["all"] = _anyall("all")


@model("divmod")
def h_divmod(ip, st, args, kw, node):
    return Tup([binop(ip, "FloorDiv", args[0], args[1], st, node), binop(ip, "Mod", args[0], args[1], st, node)])


# -- list / dict / str methods -----------------------------------------------------

@model("list.append")
def l_append(ip, st, args, kw, node):
    o, v = args
    c = st.heap[o.cell]
    if isinstance(c, ListVal):
        st.heap[o.cell] = ListVal(c.items + [v])
    else:
        if c.cond is not None:
            raise Unsupported("append to a filtered list")
        n = c.n
        st.heap[o.cell] = SymList(n + 1, lambda j: ip.merge(A.eq0(R(j) - n), v, c.fn(j), st))
    ip.effect(st, o.cell, "append", node)
    return None


@model("list.extend")
def l_extend(ip, st, args, kw, node):
    ip.list_extend(st, args[0], args[1], node)
    return None


@model("list.insert")
def l_insert(ip, st, args, kw, node):
    c = st.heap[args[0].cell]
    it = list(c.items)
    it.insert(num(args[1]).as_int(), args[2])
    st.heap[args[0].cell] = ListVal(it)
    ip.effect(st, args[0].cell, "insert", node)
    return None


@model("list.pop")
def l_pop(ip, st, args, kw, node):
    o = args[0]
    c = st.heap[o.cell]
    k = num(args[1]).as_int() if len(args) > 1 else -1
    ip.effect(st, o.cell, "pop", node)
    if isinstance(c, ListVal):
        it = list(c.items)
        if not it:
            ip.may_raise(st, True, "IndexError", node)
            return Unknown("pop from an empty list")
        v = it.pop(k)
        st.heap[o.cell] = ListVal(it)
        return v
    if k == -1:
        v = c.fn(c.n - 1)
        st.heap[o.cell] = SymList(c.n - 1, c.fn, c.cond)
        return v
    if k == 0:
        v = c.fn(ZERO)
        st.heap[o.cell] = SymList(c.n - 1, lambda j: c.fn(R(j) + 1), c.cond)
        return v
    raise Unsupported("pop")


@model("list.sort")
def l_sort(ip, st, args, kw, node):
    o = args[0]
    c = st.heap[o.cell]
    if kw.get("key") is not None:
        raise Unsupported("sort with key")
    if not isinstance(c, ListVal):
        raise Unsupported("sort of a symbolic list")
    it = sort_items(ip, st, c.items)
    if kw.get("reverse", False) is True:
        it = it[::-1]
    st.heap[o.cell] = ListVal(it)
    ip.effect(st, o.cell, "sort", node)
    return None


@model("list.reverse")
def l_reverse(ip, st, args, kw, node):
    o = args[0]
    c = st.heap[o.cell]
    if isinstance(c, ListVal):
        st.heap[o.cell] = ListVal(c.items[::-1])
    else:
        n = c.n
        st.heap[o.cell] = SymList(n, lambda j: c.fn(n - 1 - R(j)), c.cond)
    ip.effect(st, o.cell, "reverse", node)
    return None


@model("list.copy")
def l_copy(ip, st, args, kw, node):
    return h_list(ip, st, [args[0]], {}, node)


@model("copy.copy", "copy.deepcopy")
def h_copycopy(ip, st, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        return ip.mkarr(st, ip.aval(st, v))
    if isinstance(v, Ref) and v.kind == "list":
        return h_list(ip, st, [v], {}, node)
    if isinstance(v, Ref):
        return Ref(ip.newcell(st, st.heap[v.cell], v.kind), v.kind)
    return v


@model("dict.get")
def d_get(ip, st, args, kw, node):
    d = st.heap[args[0].cell].d
    k = ip.tokey(args[1])
    default = args[2] if len(args) > 2 else None
    v = d.get(k, MISSING)
    if isinstance(v, Phi):
        return lift(lambda x: default if x is MISSING else x, v)
    return default if v is MISSING else v


@model("dict.update")
def d_update(ip, st, args, kw, node):
    o = args[0]
    d = dict(st.heap[o.cell].d)
    if len(args) > 1:
        d.update(st.heap[args[1].cell].d)
    d.update(kw)
    st.heap[o.cell] = DictVal(d)
    ip.effect(st, o.cell, "update", node)
    return None


@model("dict.pop")
def d_pop(ip, st, args, kw, node):
    o = args[0]
    d = dict(st.heap[o.cell].d)
    v = d.pop(ip.tokey(args[1]), args[2] if len(args) > 2 else MISSING)
    st.heap[o.cell] = DictVal(d)
    ip.effect(st, o.cell, "pop", node)
    return v


@model("dict.clear")
def d_clear(ip, st, args, kw, node):
    st.heap[args[0].cell] = DictVal({})
    ip.effect(st, args[0].cell, "clear", node)
    return None


@model("list.clear")
def l_clear(ip, st, args, kw, node):
    st.heap[args[0].cell] = ListVal([])
    ip.effect(st, args[0].cell, "clear", node)
    return None


@model("dict.items")
def d_items(ip, st, args, kw, node):
    d = st.heap[args[0].cell].d
    return Tup([Tup([ip.fromkey(k), v]) for k, v in d.items()])


@model("dict.keys")
def d_keys(ip, st, args, kw, node):
    return Tup([ip.fromkey(k) for k in st.heap[args[0].cell].d])


@model("dict.values")
def d_values(ip, st, args, kw, node):
    return Tup(list(st.heap[args[0].cell].d.values()))


@model("dict.copy")
def d_copy(ip, st, args, kw, node):
    return ip.mkdict(st, st.heap[args[0].cell].d)


@model("str.join")
def s_join(ip, st, args, kw, node):
    if isinstance(args[1], Opq):
        return Opq(("join", vkey(args[0]), args[1].key), "s")
    items = ip.concrete_items(args[1], st)
    r = ""
    for j, x in enumerate(items):
        if j:
            r = concat(r, args[0])
        r = concat(r, x)
    return r


@model("str.format")
def s_format(ip, st, args, kw, node):
    from .interp import mkstr
    f = args[0]
    parts, pos, auto = [], 0, 0
    for m in re.finditer(r"\{\{|\}\}|\{(\w*)(?:!\w)?(?::([^}]*))?\}", f):
        parts.append(f[pos:m.start()])
        pos = m.end()
        if m.group(0) in ("{{", "}}"):
            parts.append(m.group(0)[0])
            continue
        n = m.group(1)
        if n == "":
            v = args[1 + auto]
            auto += 1
        elif n.isdigit():
            v = args[1 + int(n)]
        else:
            v = kw[n]
        parts.append(v if isinstance(v, str) and not m.group(2) else (m.group(2) or "s", v))
    parts.append(f[pos:])
    return mkstr(parts)


for _n in ("split", "strip", "lower", "upper", "replace", "rstrip", "lstrip", "isdigit", "startswith", "endswith",
           "encode", "splitlines", "find", "count", "isalpha", "title", "zfill", "ljust", "rjust", "partition"):
    def _mks(nm):
        def h(ip, st, args, kw, node):
            if all(isinstance(a, str) for a in args):
                r = getattr(args[0], nm)(*args[1:])
                if isinstance(r, list):
                    return ip.mklist(st, r)
                if isinstance(r, (bool, str)):
                    return r
                if isinstance(r, int):
                    return Sc(R(r), "i")
            return Opq((nm,) + tuple(vkey(a) for a in args))
        return h
    TABLE["str." + _n] = _mks(_n)


# -- numexpr, scipy -----------------------------------------------------------------

@model("numexpr.evaluate")
def h_ne(ip, st, args, kw, node):
    from .interp import St
    ex = args[0]
    if not isinstance(ex, str):
        raise Unsupported("numexpr with a computed expression")
    loc = arg(args, kw, 1, "local_dict")
    tree = ast.parse(ex.strip().replace("\n", " "), mode="eval").body
    env = dict(st.env) if loc is None else {k: v for k, v in st.heap[loc.cell].d.items() if isinstance(k, str)}
    for n in FUNCS:
        env.setdefault(n, Intr("numexpr." + n))
    env.setdefault("sum", Intr("numpy.sum"))
    s2 = St(env, st.heap, st.frame, st.pc)
    saved = st.frame.cur
    r = ip.eval(tree, s2)
    st.frame.cur = saved
    return r


def bound_real(name="q"):
    return A.fresh(name, integer=False, pos=True)


def integral(ip, st, f, a, b, node, extra=()):
    x = bound_real()
    v = ip.call(f, [Sc(x, "f")] + list(extra), {}, st, node)
    if isinstance(v, Unknown):
        return v
    if isinstance(v, Tup):
        raise Unsupported("integrand returns a tuple")
    if isinstance(v, Arr):
        av = ip.aval(st, v)
        if not all(s == RONE for s in av.shape):
            raise Unsupported("array-valued integrand")
        e = av.at(tuple(ZERO for _ in av.shape))
    else:
        e = num(v)
    return integrate(x, num(a), num(b), e)


def integrate(x, a, b, e):
    """normal form of a definite integral: constants are pulled out, sums split"""
    if isinstance(a, Phi) or isinstance(b, Phi):
        return lift(lambda p, q: integrate(x, p, q, e), a, b)
    vat = A._single_atom(x)
    if isinstance(e, Phi):
        f = A._free_cond(e, vat.id)
        if f is not None:
            return lift(lambda c: integrate(x, a, b, A.cofactor(e, f, c)), Phi(f, True, False))
        return A.binder("integral", x, (a, b), e)
    e = e.canon()
    if e.is_zero():
        return ZERO
    dep_den = {}
    ind_den = {}
    for fac, k in e.den.items():
        (dep_den if vat.id in A._deep_ids_poly(fac) else ind_den)[fac] = k
    out = ZERO
    # group monomials by their x-independent factor
    groups = {}
    for m, c in e.num.items():
        ind = tuple((i, p) for i, p in m if vat.id not in A.deep_ids_atom(i))
        dep = tuple((i, p) for i, p in m if vat.id in A.deep_ids_atom(i))
        groups.setdefault(ind, {})[dep] = c
    for ind, d in groups.items():
        body = Rat(d, dep_den).canon()
        c0 = None
        # scale the body to a primitive numerator
        cont, mono, q = A.content_mono(body.num)
        body = body * R(1 / cont)
        out = out + Rat({ind: cont}, ind_den) * A.binder("integral", x, (a, b), body)
    return out


@model("scipy.integrate.quad")
def h_quad(ip, st, args, kw, node):
    f, a, b = arg(args, kw, 0, "func"), arg(args, kw, 1, "a"), arg(args, kw, 2, "b")
    if "weight" in kw:
        raise Unsupported("weighted quad")
    ex = kw.get("args", args[3] if len(args) > 3 else None)
    extra = []
    if isinstance(ex, Tup):
        extra = list(ex.items)
    elif ex is not None:
        extra = [ex]
    for k in kw:
        if k not in ("func", "a", "b", "args", "epsabs", "epsrel", "limit", "points"):
            raise Unsupported("quad option %s" % k)
    v = integral(ip, st, f, a, b, node, extra)
    if isinstance(v, Unknown):
        return v
    ip.events.append(("quad", st.pc, (v,), ip.loc(st, node)))
    return Tup([Sc(v, "f"), Sc(A.mk("quaderr", (v,), nonneg=True), "f")])


@model("super")
def h_super(ip, st, args, kw, node):
    fr = st.frame
    cls = None
    for c in ip.class_of_frame(fr):
        cls = c
    raise Unsupported("super()")


@model("iter", "next", "vars", "input", "exec", "complex", "slice", "issubclass")
def h_un(ip, st, args, kw, node):
    raise Unsupported("builtin")


@model("eval")
def h_eval(ip, st, args, kw, node):
    v = args[0]
    ip.events.append(("eval", st.pc, v, ip.loc(st, node)))
    if isinstance(v, str):
        try:
            return ip.eval(ast.parse(v, mode="eval").body, st)
        except SyntaxError:
            raise Unsupported("eval")
    return Opq(("eval", vkey(v)))


@model("open")
def h_open(ip, st, args, kw, node):
    r = Opq(("file",) + tuple(vkey(a) for a in args) + (ip._cell,))
    ip._cell += 1
    ip.events.append(("open", st.pc, (args, kw, r), ip.loc(st, node)))
    return r


@model("numpy.savetxt")
def h_savetxt(ip, st, args, kw, node):
    ip.events.append(("savetxt", st.pc, (args, kw), ip.loc(st, node)))
    return None


@model("os.path.exists", "os.path.isfile", "os.path.lexists")
def h_exists(ip, st, args, kw, node):
    v = args[0]
    return A._known(A.condatom("pathexists", v if isinstance(v, (Opq, SStr)) else str(vkey(v))))


@model("numpy.random.rand")
def h_rand(ip, st, args, kw, node):
    raise Unsupported("random")
