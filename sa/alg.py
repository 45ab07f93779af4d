"""Normal forms for the value-numbering domain.

A scalar abstract value is a rational function (class Rat) over interned atoms;
a *gated* value is a reduced ordered decision diagram (class Phi) over condition
atoms with arbitrary leaves.  Two expressions that are equal in the theory
    field axioms + exp/log/power laws + (-1)^n parity + lgamma shift + finite sums
receive the same normal form whatever way they were written.

Nothing in here evaluates the analysed program: there are no numeric
environments, only symbols.
"""
from fractions import Fraction as Fr
from functools import lru_cache
import math
import sys

sys.setrecursionlimit(20000)

# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------

_intern = {}
_atoms = []          # id -> Atom
_shape_cb = {}       # head -> rebuild function(args) -> Rat


class Atom:
    __slots__ = ("id", "head", "args", "key", "pos", "nonneg", "integer", "poly")

    def __repr__(self):
        return show_atom(self)


def _argkey(a):
    if isinstance(a, Rat):
        return ("R",) + a.key()
    if isinstance(a, Phi):
        return ("P", a.cond.id, _argkey(a.hi), _argkey(a.lo))
    if isinstance(a, tuple):
        return ("T",) + tuple(_argkey(x) for x in a)
    if isinstance(a, CondAtom):
        return ("C", a.id)
    k = getattr(a, "alg_key", None)
    if k is not None:
        return ("K", k() if callable(k) else k)
    if isinstance(a, (str, int, bool, type(None), Fr)):
        return (type(a).__name__, a)
    return ("O", id(a))


def mkatom(head, args=(), pos=False, nonneg=False, integer=False, poly=None):
    key = (head,) + tuple(_argkey(a) for a in args)
    at = _intern.get(key)
    if at is None:
        at = Atom()
        at.id = len(_atoms)
        at.head, at.args, at.key = head, tuple(args), key
        at.pos, at.nonneg, at.integer, at.poly = pos, pos or nonneg, integer, poly
        _intern[key] = at
        _atoms.append(at)
    elif not args and (at.pos, at.nonneg, at.integer) != (pos, pos or nonneg, integer) and (pos or nonneg or integer):
        raise ValueError("symbol %s declared twice with different kinds" % head)
    return at


def atom_of(i):
    return _atoms[i]


# --------------------------------------------------------------------------
# polynomials: dict {mono: Fr}; mono = tuple of (atom id, exponent) sorted
# --------------------------------------------------------------------------

ONE = ()


def _mono_mul(a, b):
    """product of monomials; returns (sign/coef Fr, mono, expand) where expand
    is a list of (atom id, int power) of polynomial atoms to be re-expanded."""
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n == 0:
            d.pop(i, None)
        else:
            d[i] = n
    return tuple(sorted(d.items()))


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def p_scale(a, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in a.items()}


def _needs_fix(m):
    for i, e in m:
        at = _atoms[i]
        if at.head == "neg1" or at.head == "ind":
            if e != 1:
                return True
        elif at.poly is not None:
            if not (0 < e < 1):
                return True
        elif at.head == "abs":
            if e.denominator == 1 if isinstance(e, Fr) else True:
                if e % 2 == 0:
                    return True
        elif at.head == "int":
            if not (0 < e < 1):
                return True
    return False


def p_mul(a, b):
    """product; result is a Rat-ready pair (poly, list of den factors)"""
    r = {}
    extra = None
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            if m and _needs_fix(m):
                if extra is None:
                    extra = Rat({}, {})
                extra = extra + _fix_mono(m, c1 * c2)
                continue
            n = r.get(m, 0) + c1 * c2
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
    if extra is None:
        return r, None
    return r, extra


def _fix_mono(m, c):
    """monomial with out-of-range exponents -> Rat"""
    keep = []
    res = None
    for i, e in m:
        at = _atoms[i]
        e = Fr(e)
        if at.head == "neg1":
            if e.denominator != 1:
                keep.append((i, e))
            elif e % 2 == 1:
                keep.append((i, Fr(1)))
        elif at.head == "ind":
            keep.append((i, Fr(1)))
        elif at.poly is not None:
            n = math.floor(e)
            f = e - n
            if f:
                keep.append((i, f))
            if n:
                base = Rat(dict(at.poly), {})
                t = base ** n
                res = t if res is None else res * t
        elif at.head == "abs" and e.denominator == 1 and e % 2 == 0:
            t = at.args[0] ** int(e)
            res = t if res is None else res * t
        elif at.head == "int":
            n = math.floor(e)
            f = e - n
            if f:
                keep.append((i, f))
            c = c * Fr(at.args[0]) ** n
        else:
            keep.append((i, e))
    r = Rat({tuple(sorted(keep)): c}, {})
    if res is not None:
        r = r * res
    return r


# --------------------------------------------------------------------------
# sympy-backed factorisation and exact division
# --------------------------------------------------------------------------

_fac_cache = {}


def _to_ring(polys):
    """common polynomial ring for a list of polys with exponents >= 0"""
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    ids = {}
    for p in polys:
        for m in p:
            for i, e in m:
                ids[i] = math.lcm(ids.get(i, 1), Fr(e).denominator)
    gens = sorted(ids)
    if not gens:
        gens = [-1]
        ids = {-1: 1}
    R = ring(["x%d" % (i if i >= 0 else 999999999) for i in gens], QQ)[0]
    pos = {g: n for n, g in enumerate(gens)}
    out = []
    for p in polys:
        d = {}
        for m, c in p.items():
            ex = [0] * len(gens)
            for i, e in m:
                ex[pos[i]] = int(e * ids[i])
            d[tuple(ex)] = QQ(c.numerator, c.denominator)
        out.append(R.from_dict(d))

    def back(el):
        r = {}
        for ex, c in el.terms():
            m = tuple((gens[n], Fr(e, ids[gens[n]])) for n, e in enumerate(ex) if e)
            r[m] = Fr(int(c.numerator), int(c.denominator))
        return r
    return R, out, back


def _pkey(p):
    return tuple(sorted(p.items()))


def content_mono(p):
    """p = c * mono * q with q primitive: returns (c, mono, q)"""
    if len(p) == 1:
        (m, c), = p.items()
        return c, m, {ONE: Fr(1)}
    lo = None
    for m in p:
        d = dict(m)
        if lo is None:
            lo = d
        else:
            nl = {}
            for i in set(lo) | set(d):
                v = min(lo.get(i, 0), d.get(i, 0))
                if v:
                    nl[i] = v
            lo = nl
    # parity atoms square to one, never pull them out
    lo = {i: e for i, e in lo.items() if _atoms[i].head not in ("neg1", "ind")}
    mono = tuple(sorted(lo.items()))
    inv = tuple((i, -e) for i, e in mono)
    q = {}
    for m, c in p.items():
        q[_mono_mul(m, inv)] = c
    g = None
    l = 1
    for c in q.values():
        g = c.numerator if g is None else math.gcd(g, c.numerator)
        l = math.lcm(l, c.denominator)
    cont = Fr(abs(g), l)
    lead = q[max(q)]
    if lead < 0:
        cont = -cont
    q = {m: c / cont for m, c in q.items()}
    return cont, mono, q


def factor_poly(q):
    """primitive multi-term poly -> (const, [(primitive irreducible poly, exp)])"""
    k = _pkey(q)
    r = _fac_cache.get(k)
    if r is not None:
        return r
    R, (el,), back = _to_ring([q])
    try:
        c, fl = el.factor_list()
    except Exception:
        c, fl = 1, [(el, 1)]
    const = Fr(int(R.domain.convert(c).numerator), int(R.domain.convert(c).denominator)) if c != 1 else Fr(1)
    out = []
    for f, e in fl:
        b = back(f)
        cc, mm, qq = content_mono(b)
        const *= cc ** e
        if mm:
            out.append(({mm: Fr(1)}, e))
        if len(qq) > 1 or ONE not in qq:
            out.append((qq, e))
        elif qq != {ONE: Fr(1)}:
            const *= qq[ONE] ** e
    _fac_cache[k] = (const, out)
    return const, out


def try_div(num, f):
    """exact division of Laurent poly num by primitive poly f, or None"""
    c, mono, q = content_mono(num)
    R, (a, b), back = _to_ring([q, f])
    try:
        qu, rem = divmod(a, b)
    except Exception:
        return None
    if rem:
        return None
    r = back(qu)
    return {_mono_mul(m, mono): v * c for m, v in r.items()}


# --------------------------------------------------------------------------
# rational functions
# --------------------------------------------------------------------------

class Rat:
    """num / prod(den factors); num Laurent poly, den {primitive irreducible
    multi-term poly key: exponent}"""
    __slots__ = ("num", "den", "_key", "_canon")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._key = None
        self._canon = False

    # -- arithmetic
    def __add__(self, o):
        o = R(o)
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            return Rat(p_add(self.num, o.num), self.den)
        den = dict(self.den)
        for f, e in o.den.items():
            if den.get(f, 0) < e:
                den[f] = e
        a = self._lift(den)
        b = o._lift(den)
        r = a + b
        return Rat(r.num, _dmul(den, r.den)) if r.den else Rat(r.num, den)

    def _lift(self, den):
        r = Rat(self.num, {})
        for f, e in den.items():
            k = e - self.den.get(f, 0)
            for _ in range(k):
                r = r * Rat(dict(f), {})
        return r

    __radd__ = __add__

    def __neg__(self):
        return Rat(p_scale(self.num, Fr(-1)), self.den)

    def __sub__(self, o):
        return self + (-R(o))

    def __rsub__(self, o):
        return R(o) + (-self)

    def __mul__(self, o):
        o = R(o)
        if not self.num or not o.num:
            return ZERO
        # cheap structural cancellation: whole numerator against a den factor
        n1, n2, d1, d2 = self.num, o.num, self.den, o.den
        if d2 and len(n1) > 1:
            n1, d2 = _cancel_whole(n1, d2)
        if d1 and len(n2) > 1:
            n2, d1 = _cancel_whole(n2, d1)
        if len(n1) * len(n2) > CUT_MUL:
            if len(n1) > CUT_INV:
                n1 = shared(n1)
            if len(n2) > CUT_INV:
                n2 = shared(n2)
        p, extra = p_mul(n1, n2)
        den = _dmul(d1, d2) if (d1 or d2) else {}
        r = Rat(p, den)
        if extra is not None:
            e = Rat(extra.num, _dmul(extra.den, den) if (extra.den or den) else {})
            r = r + e
        return r

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            return mk("unk", ("division by zero",))
        if len(self.num) > CUT_INV:
            return Rat(shared(self.num), self.den).inv()
        c, mono, q = content_mono(self.num)
        r = Rat({tuple((i, -e) for i, e in mono): 1 / c}, {})
        if r.num and _needs_fix(next(iter(r.num))):
            m = next(iter(r.num))
            r = _fix_mono(m, r.num[m])
        if len(q) > 1 or ONE not in q:
            const, fl = factor_poly(q)
            den = {}
            for f, e in fl:
                if len(f) == 1:
                    m = next(iter(f))
                    r = r * Rat({tuple((i, -x * e) for i, x in m): Fr(1)}, {})
                else:
                    k = _pkey(f)
                    den[k] = den.get(k, 0) + e
            r = r * (1 / const)
            r = Rat(r.num, _dmul(r.den, den) if r.den else den)
        for f, e in self.den.items():
            for _ in range(e):
                r = r * Rat(dict(f), {})
        return r

    def __truediv__(self, o):
        return self * R(o).inv()

    def __rtruediv__(self, o):
        return R(o) * self.inv()

    def __pow__(self, n):
        if isinstance(n, Rat):
            return power(self, n)
        n = Fr(n)
        if n.denominator != 1:
            return power(self, R(n))
        n = int(n)
        if n < 0:
            return self.inv() ** (-n)
        r = RONE
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r

    # -- canonical form
    def canon(self):
        if self._canon:
            return self
        num, den = self.num, self.den
        if not num:
            den = {}
        else:
            nd = {}
            for f, e in den.items():
                while e:
                    q = try_div(num, dict(f))
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e:
                    nd[f] = e
            den = nd
        r = Rat(num, den)
        r._canon = True
        self.num, self.den, self._canon = num, den, True
        return r

    def key(self):
        if self._key is None:
            c = self.canon()
            self._key = (tuple(sorted(c.num.items())), tuple(sorted(c.den.items())))
        return self._key

    def __eq__(self, o):
        if not isinstance(o, Rat):
            if isinstance(o, (int, Fr)):
                o = R(o)
            else:
                return NotImplemented
        if self.num == o.num and self.den == o.den:
            return True
        d = self - o
        return not d.num

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        return not self.num

    def const(self):
        """Fraction if constant else None"""
        if not self.num:
            return Fr(0)
        c = self if not self.den else self.canon()
        if c.den:
            return None
        if len(c.num) == 1 and ONE in c.num:
            return c.num[ONE]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def atoms(self, out=None):
        if out is None:
            out = set()
        for m in self.num:
            for i, _ in m:
                out.add(i)
        for f in self.den:
            for m, _ in f:
                for i, _ in m:
                    out.add(i)
        return out

    def __repr__(self):
        return show(self)


# Large polynomials are shared: a numerator of more than CUT terms that is about to be
# multiplied out becomes one atom naming its (content-free) normal form.
CUT_INV = 150
CUT_MUL = 20000


def shared(p):
    """monomial c*mono*atom for a large polynomial"""
    c, mono, q = content_mono(p)
    s = _psign(q)
    at = mkatom("cut", (Rat(q, {}),), pos=s == "+", nonneg=s in ("+", "0+"))
    m = _mono_mul(mono, ((at.id, Fr(1)),))
    return {m: c}


def _cancel_whole(n, den):
    c, mono, q = content_mono(n)
    k = _pkey(q)
    if k in den:
        d = dict(den)
        d[k] -= 1
        if not d[k]:
            del d[k]
        return {mono: c}, d
    return n, den


def _dmul(a, b):
    r = dict(a)
    for f, e in b.items():
        r[f] = r.get(f, 0) + e
    return r


def R(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, Atom):
        return Rat({((x.id, Fr(1)),): Fr(1)}, {})
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fr(repr(x))
    f = Fr(x)
    return Rat({ONE: f} if f else {}, {})


ZERO = R(0)
RONE = R(1)
PI = R(mkatom("pi", (), pos=True))


def mk(head, args=(), **kw):
    return R(mkatom(head, args, **kw))


def sym(name, *args, pos=False, nonneg=False, integer=False):
    return mk(name, args, pos=pos, nonneg=nonneg, integer=integer)


# --------------------------------------------------------------------------
# properties of values
# --------------------------------------------------------------------------

def is_int_valued(r):
    r = r.canon()
    if r.den:
        return False
    for m, c in r.num.items():
        if c.denominator != 1:
            return False
        for i, e in m:
            if not _atoms[i].integer or Fr(e).denominator != 1 or e < 0:
                return False
    return True


def sign_of(r):
    """'+', '0+', '-', '0-', '0' or None from coefficient signs"""
    if not r.num:
        return "0"
    r = r if not r.den else r.canon()
    s = _psign(r.num)
    if s is None:
        return None
    for f, e in r.den.items():
        t = _psign(dict(f))
        if t is None or t not in ("+", "-"):
            if e % 2 == 0:
                continue
            if t in ("0+",):
                t = "+"       # a denominator is nonzero where defined
            elif t == "0-":
                t = "-"
            else:
                return None
        if t == "-" and e % 2:
            s = {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[s]
    return s


def _msign(m):
    strict = True
    for i, e in m:
        at = _atoms[i]
        if at.pos:
            continue
        if at.nonneg or at.poly is not None:
            strict = False
            continue
        if Fr(e).denominator == 1 and e % 2 == 0:
            strict = False
            continue
        return None
    return "+" if strict else "0+"


def _psign(p):
    pos = neg = True
    strict = False
    for m, c in p.items():
        s = _msign(m)
        if s is None:
            return None
        if c > 0:
            neg = False
        else:
            pos = False
        if s == "+":
            strict = True
    if pos:
        return "+" if strict else "0+"
    if neg:
        return "-" if strict else "0-"
    return None


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------

def _primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _big(n):
    return n > 10 ** 12


def power(b, e):
    """b ** e"""
    b, e = R(b), R(e)
    ec = e.const()
    if ec is not None and ec.denominator == 1:
        return b ** int(ec)
    bc = b.const()
    if bc == 1:
        return RONE
    if bc == -1:
        return neg1pow(e)
    if bc is not None and bc < 0:
        return neg1pow(e) * power(R(-bc), e)
    if ec is not None:
        return _fracpow(b, ec)
    if bc == 0:
        return ZERO if sign_of(e) == "+" else mk("pow", (ZERO, e))
    return exp(e * log(b))


def _constpow(c, e):
    """positive rational constant to a fractional power"""
    r = RONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        fac = {n: 1} if _big(n) else _primes(n)
        for p, k in fac.items():
            x = e * k * s
            i = math.floor(x)
            f = x - i
            r = r * R(Fr(p) ** i)
            if f:
                r = r * Rat({((mkatom("int", (p,), pos=True).id, f),): Fr(1)}, {})
    return r


def _polyatom(f):
    k = _pkey(f)
    return mkatom("poly", (_PK(k),), nonneg=True, poly=k)


class _PK:
    def __init__(self, k):
        self.k = k

    def alg_key(self):
        return self.k


def _fracpow(b, e):
    """b ** e for constant non-integer e (principal branch, b taken positive)"""
    b = b.canon()
    if not b.num:
        return ZERO
    c, mono, q = content_mono(b.num)
    r = RONE
    if c < 0:
        # negative content: keep the sign inside the base
        if len(q) == 1 and ONE in q:
            return mk("pow", (b, R(e)))
        c = -c
        q = p_scale(q, Fr(-1))
        # sign not extractable: treat as a unit
        const, fl = Fr(1), [(q, 1)]
    elif len(q) == 1 and ONE in q:
        const, fl = Fr(1), []
    else:
        const, fl = factor_poly(q)
        if const < 0:
            const, fl = Fr(1), [(q, 1)]
    r = r * _constpow(c * const, e)
    for i, x in mono:
        r = r * Rat({((i, x * e),): Fr(1)}, {}) if not _needs_fix(((i, x * e),)) else r * _fix_mono(((i, x * e),), Fr(1))
    for f, k in list(fl) + [(dict(f), -k) for f, k in b.den.items()]:
        if len(f) == 1:
            m, = f
            for i, x in m:
                mm = ((i, x * e * k),)
                r = r * (_fix_mono(mm, Fr(1)) if _needs_fix(mm) else Rat({mm: Fr(1)}, {}))
            continue
        at = _polyatom(f)
        mm = ((at.id, e * k),)
        r = r * (_fix_mono(mm, Fr(1)) if _needs_fix(mm) else Rat({mm: Fr(1)}, {}))
    return r


def sqrt(x):
    return power(x, R(Fr(1, 2)))


def neg1pow(e):
    """(-1) ** e for an integer-valued e, reduced modulo 2"""
    e = e.canon()
    if not is_int_valued(e):
        # try: common constant denominator etc. -> opaque
        return mk("neg1x", (e,))
    r = RONE
    par = {}
    for m, c in e.num.items():
        m2 = tuple((i, Fr(1)) for i, _ in m)     # n^k = n (mod 2)
        par[m2] = (par.get(m2, 0) + int(c)) % 2
    for m, c in par.items():
        if c:
            if m == ONE:
                r = -r
            else:
                at = mkatom("neg1", (Rat({m: Fr(1)}, {}),))
                r = r * R(at)
    return r


def _whole_part(x):
    """quotient of the numerator by a denominator factor linear in some atom, or None"""
    for f, e in x.den.items():
        if e != 1 or len(f) < 2:
            continue
        fd = dict(f)
        for m0 in sorted(m for m in fd if len(m) == 1 and m[0][1] == 1):
            v, c0 = m0[0][0], fd[m0]
            if any(i == v for m in fd if m != m0 for i, _ in m):
                continue
            if not any(i == v and Fr(k).denominator == 1 and k >= 1 for m in x.num for i, k in m):
                continue
            num, q = dict(x.num), {}
            while True:
                top = next((m for m in num if any(i == v and Fr(k).denominator == 1 and k >= 1 for i, k in m)), None)
                if top is None:
                    break
                c = num.pop(top) / c0
                rest = tuple((i, k - 1 if i == v else k) for i, k in top if not (i == v and k == 1))
                q[rest] = q.get(rest, 0) + c
                for m, d in fd.items():
                    if m == m0:
                        continue
                    t = _mono_mul(rest, m)
                    num[t] = num.get(t, 0) - c * d
                    if num[t] == 0:
                        del num[t]
            q = {m: c for m, c in q.items() if c}
            if not q:
                continue
            den = {g: k for g, k in x.den.items() if g != f}
            return Rat(q, den)
    return None


def exp(x):
    x = R(x).canon()
    r = RONE
    if not x.num:
        return RONE
    if x.den:
        q = _whole_part(x)
        if q is not None:
            return exp(q) * exp(x - q)
    for m, c in x.num.items():
        if not x.den and len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].head == "log":
            r = r * power(_atoms[m[0][0]].args[0], R(c))
            continue
        if not x.den:
            # n*log(b) with integer symbolic n is kept as exp(n log b)
            arg = Rat({m: Fr(1)}, {})
        else:
            arg = Rat({m: Fr(1)}, x.den)
        at = mkatom("exp", (arg,), pos=True)
        r = r * Rat({((at.id, c),): Fr(1)}, {})
    return r


def _logatom(i):
    at = _atoms[i]
    if at.head == "exp":
        return at.args[0]
    if at.head == "int":
        return _logint(at.args[0])
    if at.poly is not None:
        return mk("log", (Rat(dict(at.poly), {}),))
    return mk("log", (R(at),))


def _logint(n):
    if n == 1:
        return ZERO
    r = ZERO
    for p, k in ({n: 1} if _big(n) else _primes(n)).items():
        r = r + k * mk("log", (R(p),), pos=True)
    return r


def log(x):
    x = R(x).canon()
    if not x.num:
        return mk("log", (ZERO,))
    c, mono, q = content_mono(x.num)
    fl = []
    if not (len(q) == 1 and ONE in q):
        const, fl = factor_poly(q)
        c = c * const
    if c < 0:
        # flip a multi-term factor of odd multiplicity
        for n, (f, e) in enumerate(fl):
            if len(f) > 1 and e % 2:
                fl = list(fl)
                fl[n] = (p_scale(f, Fr(-1)), e)
                c = -c
                break
        else:
            return mk("log", (x,))
    r = _logint(c.numerator) - _logint(c.denominator)
    for i, e in mono:
        r = r + _logatom(i) * R(e)
    for f, e in fl:
        if len(f) == 1:
            m, = f
            for i, x2 in m:
                r = r + _logatom(i) * R(x2 * e)
        else:
            r = r + R(e) * mk("log", (Rat(f, {}),))
    for f, e in x.den.items():
        r = r - R(e) * mk("log", (Rat(dict(f), {}),))
    return r


def absv(x):
    x = R(x).canon()
    s = sign_of(x)
    if s in ("+", "0+", "0"):
        return x
    if s in ("-", "0-"):
        return -x
    if len(x.num) > 1 and is_int_valued(x) and all(_msign(m) for m in x.num):
        P, N = _split(x)
        return P + N - 2 * fmin(P, N)
    c, mono, q = content_mono(x.num)
    r = R(abs(c))
    unk = RONE
    for i, e in mono:
        at = _atoms[i]
        t = Rat({((i, e),): Fr(1)}, {})
        if at.nonneg or (Fr(e).denominator == 1 and e % 2 == 0):
            r = r * t
        elif at.head == "neg1":
            pass
        else:
            unk = unk * t
    q = {tuple((i, e) for i, e in m if True): v for m, v in q.items()}
    unk = unk * Rat(q, {})
    for f, e in x.den.items():
        s = _psign(dict(f))
        t = Rat(dict(f), {}) ** (-e)
        if s in ("+", "0+"):
            r = r * t
        elif s in ("-", "0-"):
            r = r * (t if e % 2 == 0 else -t)
        else:
            unk = unk * t
    if unk == RONE:
        return r
    unk = unk.canon()
    # strip parity factors
    if len(unk.num) == 1:
        m, = unk.num
        if any(_atoms[i].head == "neg1" for i, _ in m):
            m2 = tuple((i, e) for i, e in m if _atoms[i].head != "neg1")
            unk = Rat({m2: abs(unk.num[m])}, unk.den)
            if unk == RONE:
                return r
            return r * absv(unk)
    if unk.num[max(unk.num)] < 0:
        unk = -unk
    at = mkatom("abs", (unk,), nonneg=True, integer=is_int_valued(unk))
    return r * R(at)


def lgamma(x):
    """log Gamma with integer shifts pulled out: lgamma(y+n) = lgamma(y)+sum log"""
    x = R(x).canon()
    c = x.num.get(ONE, Fr(0)) if not x.den else Fr(0)
    n = math.floor(c)
    base = x - R(n)
    if x.const() is not None:
        n = n - 1
        base = x - R(n)      # keep positive integers at lgamma(1)=0
        if base == RONE:
            r = ZERO
        else:
            r = mk("lgamma", (base,))
    else:
        # keep the canonical base with constant part in [1, 2)
        n = n - 1
        base = x - R(n)
        r = mk("lgamma", (base,))
    if abs(n) > 60:
        return mk("lgamma", (x,))
    if n >= 0:
        for j in range(n):
            r = r + log(base + R(j))
    else:
        for j in range(1, -n + 1):
            r = r - log(base - R(j))
    return r


def _split(u):
    """u = P - N with disjoint positive-coefficient parts (no denominators)"""
    P, N = {}, {}
    for m, c in u.num.items():
        if c > 0:
            P[m] = c
        else:
            N[m] = -c
    return Rat(P, {}), Rat(N, {})


def fmin(a, b):
    a, b = R(a), R(b)
    if a == b:
        return a
    d = decide_gt0(a - b, strict=False)
    if d is True:
        return b
    d2 = decide_gt0(b - a, strict=False)
    if d2 is True:
        return a
    for p, q in ((a, b), (b, a)):
        # min(min(x, y), y)
        for m, c in p.num.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and not p.den:
                at = _atoms[m[0][0]]
                if at.head == "min":
                    base = p - R(at)
                    if q == base + at.args[0] or q == base + at.args[1]:
                        return p
    u = (a - b).canon()
    if u.den:
        x, y = sorted((a, b), key=lambda r: repr(r.key()))
        return _minatom(x, y)
    P, N = _split(u)
    g = Fr(0)
    for c in u.num.values():
        g = c if g == 0 else Fr(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator),
                                g.denominator * c.denominator)
    g = abs(g)
    base = b - N
    P, N = P * R(1 / g), N * R(1 / g)
    x, y = sorted((P, N), key=lambda r: repr(r.key()))
    return base + R(g) * _minatom(x, y)


def _minatom(x, y):
    i = is_int_valued(x) and is_int_valued(y)
    nn = sign_of(x) in ("+", "0+", "0") and sign_of(y) in ("+", "0+", "0")
    ps = sign_of(x) == "+" and sign_of(y) == "+"
    return mk("min", (x, y), integer=i, nonneg=nn, pos=ps)


def floor(x):
    x = R(x).canon()
    c = x.const()
    if c is not None:
        return R(math.floor(c))
    if is_int_valued(x):
        return x
    if not x.den:
        ip, rest = {}, {}
        for m, c in x.num.items():
            if all(_atoms[i].integer and Fr(e).denominator == 1 and e > 0 for i, e in m):
                k = Fr(math.floor(c))
                if k:
                    ip[m] = k
                if c - k:
                    rest[m] = c - k
            else:
                rest[m] = c
        if ip:
            return Rat(ip, {}) + floor(Rat(rest, {}))
    return mk("floor", (x,), integer=True, nonneg=sign_of(x) in ("+", "0+", "0"))


def fmax(a, b):
    a, b = R(a), R(b)
    if a == b:
        return a
    d = decide_gt0(a - b, strict=False)
    if d is True:
        return a
    if decide_gt0(b - a, strict=False) is True:
        return b
    return a + b - fmin(a, b)


# --------------------------------------------------------------------------
# finite sums
# --------------------------------------------------------------------------

_bv = [0]


def fresh(name="v", integer=True, pos=False, nonneg=False):
    _bv[0] += 1
    return mk(name, ("#%d" % _bv[0],), integer=integer, pos=pos, nonneg=nonneg)


def depth_of(r):
    """largest index of a bound variable occurring in r"""
    d = 0
    for at in all_atoms(r):
        if at.head == "bv":
            d = max(d, at.args[0])
    return d


BINDERS = {"sum", "prod", "integral", "amax", "amin", "argmax", "argmin", "lam", "first"}


def indicator(v):
    """gated value -> polynomial in idempotent indicator atoms"""
    if isinstance(v, Phi):
        i = mk("ind", (Phi(v.cond, True, False),), nonneg=True)
        return i * indicator(v.hi) + (RONE - i) * indicator(v.lo)
    return R(v)


def binder(op, var, extra, body):
    """op-atom binding var in body; extra: tuple of arguments outside the
    scope of var"""
    vat = _single_atom(var)
    d = 1 + max(depth_of(body), 0)
    bv = bvar(d)
    return mk(op, (d,) + tuple(extra) + (subst(body, {vat.id: bv}),))


def bvar(d):
    return mk("bv", (d,), integer=True, nonneg=True)


def summation(var, n, body):
    """sum_{var=0}^{n-1} body ; var is an atom-valued Rat (a fresh symbol)"""
    vat = _single_atom(var)
    if isinstance(n, Phi):
        return lift(lambda m: summation(var, m, body), n)
    if isinstance(body, Phi):
        if vat.id not in deep_ids_cond(body.cond):
            return lift(lambda c: summation(var, n, body.hi if c else body.lo),
                        Phi(body.cond, True, False))
        nc = n.const()
        if nc is None or nc > 12:
            f = _free_cond(body, vat.id)
            if f is not None:
                return lift(lambda c: summation(var, n, cofactor(body, f, c)),
                            Phi(f, True, False))
            body = indicator(body)
    else:
        body = R(body)
    if isinstance(body, Rat):
        if body.is_zero():
            return ZERO
    nc = n.const()
    if nc is not None and nc.denominator == 1 and 0 <= nc <= 12:
        r = ZERO
        for j in range(int(nc)):
            r = lift(lambda x, y: x + y, r, subst(body, {vat.id: R(j)}))
        return r
    body = body.canon()
    dep_den = any(vat.id in _deep_ids_poly(f) for f in body.den)
    out = ZERO
    if dep_den:
        groups = [(RONE, body)]
    else:
        groups = []
        den = Rat({ONE: Fr(1)}, body.den) if body.den else RONE
        for m, c in body.num.items():
            ind, dep = [], []
            for i, e in m:
                (dep if vat.id in deep_ids_atom(i) else ind).append((i, e))
            groups.append((Rat({tuple(ind): c}, {}) * den, Rat({tuple(dep): Fr(1)}, {})))
    for k, b in groups:
        if b == RONE:
            out = out + k * n
            continue
        d = 1 + depth_of(b)
        bv = mk("bv", (d,), integer=True, nonneg=True)
        b2 = subst(b, {vat.id: bv})
        out = out + k * mk("sum", (d, n, b2))
    return out


def _single_atom(r):
    (m, c), = r.num.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1 and not r.den
    return _atoms[m[0][0]]


_deep_cache = {}


def deep_ids_atom(i):
    """ids of all atoms occurring in atom i (inclusive, transitively)"""
    r = _deep_cache.get(i)
    if r is None:
        s = {i}
        at = _atoms[i]
        for a in at.args:
            _deep_arg(a, s)
        if at.poly is not None:
            for m, _ in at.poly:
                for j, _ in m:
                    s |= deep_ids_atom(j)
        r = frozenset(s)
        _deep_cache[i] = r
    return r


def _deep_arg(a, s):
    if isinstance(a, Rat):
        for j in a.atoms():
            s |= deep_ids_atom(j)
    elif isinstance(a, Phi):
        _deep_cond(a.cond, s)
        _deep_arg(a.hi, s)
        _deep_arg(a.lo, s)
    elif isinstance(a, tuple):
        for x in a:
            _deep_arg(x, s)
    elif isinstance(a, CondAtom):
        _deep_cond(a, s)


def _deep_cond(c, s):
    for a in c.args:
        _deep_arg(a, s)


def deep_ids_cond(c):
    s = set()
    _deep_cond(c, s)
    return s


def conds_of(v, out=None):
    """condition atoms of a gated value, in order"""
    if out is None:
        out = []
    if isinstance(v, Phi):
        if v.cond not in out:
            out.append(v.cond)
        conds_of(v.hi, out)
        conds_of(v.lo, out)
    return out


def _free_cond(v, i):
    for c in conds_of(v):
        if i not in deep_ids_cond(c):
            return c
    return None


def cofactor(v, c, pol):
    """v with condition atom c set to pol"""
    if isinstance(v, Phi):
        if v.cond is c:
            return v.hi if pol else v.lo
        return _node(v.cond, cofactor(v.hi, c, pol), cofactor(v.lo, c, pol))
    return v


def _deep_ids_poly(f):
    s = set()
    for m, _ in f:
        for i, _ in m:
            s |= deep_ids_atom(i)
    return s


def deep_ids(v):
    s = set()
    _deep_arg(v, s)
    return s


def all_atoms(v):
    return [_atoms[i] for i in deep_ids(v)]


# --------------------------------------------------------------------------
# gated values
# --------------------------------------------------------------------------

class CondAtom:
    __slots__ = ("id", "kind", "args", "key")

    def __repr__(self):
        return show_cond(self)


_cond_intern = {}
_conds = []


def condatom(kind, *args):
    key = (kind,) + tuple(_argkey(a) for a in args)
    c = _cond_intern.get(key)
    if c is None:
        c = CondAtom()
        c.id, c.kind, c.args, c.key = len(_conds), kind, args, key
        _cond_intern[key] = c
        _conds.append(c)
    return c


class Phi:
    """if cond then hi else lo (reduced, ordered by cond.id)"""
    __slots__ = ("cond", "hi", "lo", "_h")

    def __init__(self, cond, hi, lo):
        self.cond, self.hi, self.lo = cond, hi, lo
        self._h = None

    def __repr__(self):
        return "{%r ? %r : %r}" % (self.cond, self.hi, self.lo)

    def __eq__(self, o):
        return same(self, o)

    def __hash__(self):
        return hash((self.cond.id, 7))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Phi) or isinstance(b, Phi):
        if not (isinstance(a, Phi) and isinstance(b, Phi)):
            return False
        return a.cond is b.cond and same(a.hi, b.hi) and same(a.lo, b.lo)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    f = getattr(a, "same_as", None)
    if f is not None:
        return f(b)
    try:
        return bool(a == b)
    except Exception:
        return False


def top(v):
    return v.cond if isinstance(v, Phi) else None


def cof(v, c, pol):
    if isinstance(v, Phi) and v.cond is c:
        return v.hi if pol else v.lo
    return v


def _node(c, hi, lo):
    if same(hi, lo):
        return hi
    return Phi(c, hi, lo)


def lift(fn, *args):
    """apply fn to the leaves of gated arguments"""
    ts = [a.cond for a in args if isinstance(a, Phi)]
    if not ts:
        return fn(*args)
    c = min(ts, key=lambda x: x.id)
    with assume(c, True) as ok:
        hi = lift(fn, *[cof(a, c, True) for a in args]) if ok else None
    with assume(c, False) as ok2:
        lo = lift(fn, *[cof(a, c, False) for a in args]) if ok2 else None
    if not ok:
        return lo
    if not ok2:
        return hi
    return _node(c, hi, lo)


def ite(c, a, b):
    """c: gated boolean"""
    if c is True:
        return a
    if c is False:
        return b
    return lift(lambda x, y, z: y if x is True else z, c, a, b) \
        if _bool_leaf(c) else None


def _bool_leaf(c):
    return True


def literals(c):
    """condition atoms implied by the gated boolean c: list of (atom, pol)"""
    out = []
    if not isinstance(c, Phi):
        return out
    for a in conds_of(c):
        if cofactor(c, a, False) is False:
            out.append((a, True))
        elif cofactor(c, a, True) is False:
            out.append((a, False))
    return out


class assuming:
    """context: the literals implied by gated boolean c hold"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.stack = []
        ok = self.c is not False
        for a, p in literals(self.c):
            if FACTS.atoms.get(a.id) == p:
                continue
            x = assume(a, p)
            if not x.__enter__():
                ok = False
                x.__exit__()
                break
            self.stack.append(x)
        return ok

    def __exit__(self, *e):
        for x in reversed(self.stack):
            x.__exit__()
        return False


def bnot(c):
    return lift(lambda x: not x, c)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return lift(lambda x, y: x and y, a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def rawand(a, b):
    """conjunction of path conditions, not simplified by the current facts"""
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    c = min((x.cond for x in (a, b)), key=lambda y: y.id)
    hi = rawand(cof(a, c, True), cof(b, c, True))
    lo = rawand(cof(a, c, False), cof(b, c, False))
    return _node(c, hi, lo)


def rawnot(a):
    if isinstance(a, Phi):
        return Phi(a.cond, rawnot(a.hi), rawnot(a.lo))
    return not a


def rawor(a, b):
    return rawnot(rawand(rawnot(a), rawnot(b)))


def prune(v):
    """drop gates decided by the current facts"""
    if not isinstance(v, Phi) or not (FACTS.atoms or FACTS.nn):
        return v
    d = decide_atom(v.cond)
    if d is not None:
        return prune(v.hi if d else v.lo)
    hi, lo = prune(v.hi), prune(v.lo)
    if hi is v.hi and lo is v.lo:
        return v
    return _node(v.cond, hi, lo)


def cond(c):
    """gated boolean of a condition atom"""
    return Phi(c, True, False)


# -- facts: path/scenario assumptions used to decide comparisons -------------

class Facts:
    def __init__(self):
        self.nn = []         # Rat >= 0
        self.atoms = {}      # cond id -> bool
        self.eqs = []
        self.tok = ()


FACTS = Facts()


class assume:
    """context: condition atom c has polarity pol; yields False if refuted"""

    def __init__(self, c, pol):
        self.c, self.pol = c, pol

    def __enter__(self):
        self.n = len(FACTS.nn)
        self.had = self.c.id in FACTS.atoms
        d = decide_atom(self.c)
        if d is not None and d != self.pol:
            self.skip = True
            return False
        self.skip = False
        self.tok = FACTS.tok
        FACTS.tok = (self.tok, self.c.id, self.pol)
        if not self.had:
            FACTS.atoms[self.c.id] = self.pol
        FACTS.nn.extend(fact_of(self.c, self.pol))
        return True

    def __exit__(self, *a):
        del FACTS.nn[self.n:]
        if not self.skip:
            FACTS.tok = self.tok
            if not self.had:
                FACTS.atoms.pop(self.c.id, None)
        return False


class facts:
    """context: extra nonnegativity facts"""

    def __init__(self, *nn):
        self.nn = nn

    def __enter__(self):
        self.n = len(FACTS.nn)
        self.tok = FACTS.tok
        FACTS.tok = (self.tok,) + tuple(R(x).key() for x in self.nn)
        FACTS.nn.extend(R(x) for x in self.nn)

    def __exit__(self, *a):
        del FACTS.nn[self.n:]
        FACTS.tok = self.tok


def fact_of(c, pol):
    """list of Rat known >= 0 when c has polarity pol"""
    if c.kind == "gt0":
        p = c.args[0]
        if pol:
            return [p - 1] if is_int_valued(p) else [p]
        return [-p]
    if c.kind == "eq0" and pol:
        return [c.args[0], -c.args[0]]
    if c.kind == "eq0" and is_int_valued(c.args[0]):
        p = c.args[0]
        if decide_gt0(p, False) is True:
            return [p - 1]
        if decide_gt0(-p, False) is True:
            return [-p - 1]
    return []


_nnmemo = {}


def _nonneg_now(p, depth):
    nn = FACTS.nn
    if not nn:
        return _nonneg_rec(p, 0, (), {})
    sig = frozenset(f.key() for f in nn)
    k = (p.key(), depth, sig)
    r = _nnmemo.get(k)
    if r is None:
        if len(_nnmemo) > 200000:
            _nnmemo.clear()
        seen, fs = set(), []
        for f in nn:
            if not f.den and f.key() not in seen:
                seen.add(f.key())
                fs.append(f)
        r = _nnmemo[k] = _nonneg_rec(p, depth, fs, {})
    return r


def _nonneg_rec(p, depth, facts_, seen):
    s = sign_of(p)
    if s in ("+", "0+", "0"):
        return True
    if s is None and len(p.num) < 8 and sign_of(p + 1) == "+" and is_int_valued(p):
        return True
    if depth == 0:
        return False
    # eliminate a negative-coefficient monomial using a fact that has it with
    # a negative... fact f >= 0 ; p - t f with t > 0 chosen to cancel the term
    p = p.canon()
    if p.den:
        return False
    negs = [(m, c) for m, c in p.num.items() if c < 0 or _msign(m) is None]
    if not negs:
        return False
    for m, c in negs[:3]:
        for f in facts_:
            fc = f.num.get(m)
            if fc is None or (fc > 0) != (c > 0):
                continue
            q = p - f * R(c / fc)
            k = q.key()
            if seen.get(k, -1) >= depth - 1:
                continue
            seen[k] = depth - 1
            if _nonneg_rec(q, depth - 1, facts_, seen):
                return True
    return False


_mb = [0]


def _min_bound(p, strict):
    """signs of a linear occurrence of min(a, b): c*min >= c*a, c*b for c < 0, one of them for c > 0"""
    if p.den or _mb[0] > 2:
        return None
    for m, c in p.num.items():
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].head == "min":
            at = _atoms[m[0][0]]
            if any(at.id in (i for i, _ in m2) for m2 in p.num if m2 != m):
                continue
            rest = p - R(at) * R(c)
            _mb[0] += 1
            try:
                d = [decide_gt0(rest + R(c) * R(x), strict) for x in at.args]
            finally:
                _mb[0] -= 1
            if c < 0:
                if True in d:
                    return True
                if d == [False, False]:
                    return False
            else:
                if d == [True, True]:
                    return True
                if False in d:
                    return False
    return None


def decide_gt0(p, strict=True):
    """True if p > 0 (p >= 0 if not strict) follows, False if the negation
    follows, None if unknown"""
    p = R(p)
    c = p.const()
    if c is not None:
        return c > 0 if strict else c >= 0
    s = _infinite(p)
    if s:
        return s > 0
    s = sign_of(p)
    if strict:
        if s == "+":
            return True
        if s in ("-", "0-", "0"):
            return False
    else:
        if s in ("+", "0+", "0"):
            return True
        if s == "-":
            return False
    d = _min_bound(p, strict)
    if d is not None:
        return d
    isint = is_int_valued(p)
    if strict and isint:
        if _nonneg_now(p - 1, 4):
            return True
    if strict and not isint:
        pass
    if not strict and _nonneg_now(p, 4):
        return True
    # negations: p <= 0 (strict) / p < 0 (non strict)
    if strict:
        if _nonneg_now(-p, 4):
            return False
    elif isint and _nonneg_now(-p - 1, 4):
        return False
    return None


def decide_atom(c):
    d = FACTS.atoms.get(c.id)
    if d is not None:
        return d
    if c.kind == "exists":
        for i, pol in FACTS.atoms.items():
            o = _conds[i]
            if o.kind == "exists" and o.args[0] == c.args[0] and o.args[1] == c.args[1]:
                if not pol and band(c.args[2], bnot(o.args[2])) is False:
                    return False
                if pol and band(o.args[2], bnot(c.args[2])) is False:
                    return True
                if not pol and band(bnot(o.args[2]), bnot(c.args[2])) is False and \
                        isinstance(c.args[1], Rat) and decide_gt0(c.args[1]) is True:
                    return True
        return None
    d = _by_exists(c)
    if d is not None:
        return d
    if c.kind == "gt0":
        return decide_gt0(c.args[0])
    if c.kind == "eq0":
        p = c.args[0]
        k = p.const()
        if k is not None:
            return k == 0
        if decide_gt0(p) is True or decide_gt0(-p) is True:
            return False
        if decide_gt0(p, False) is True and decide_gt0(-p, False) is True:
            return True
    return None


_in_ex = [False]


def _by_exists(c):
    """instantiate a refuted existential: (not exists j<n: B(j)) and 0<=w<n
    refutes B(w)"""
    if _in_ex[0]:
        return None
    neg = [_conds[i] for i, pol in FACTS.atoms.items() if not pol and _conds[i].kind == "exists"]
    if not neg:
        return None
    _in_ex[0] = True
    try:
        cand = []
        for i in deep_ids_cond(c):
            for a in _atoms[i].args:
                if isinstance(a, Rat) and is_int_valued(a) and a not in cand:
                    cand.append(a)
        for ex in neg:
            d, n, body = ex.args
            for w in cand:
                if not isinstance(n, Rat):
                    continue
                if decide_gt0(w, False) is not True or decide_gt0(n - w) is not True:
                    continue
                inst = subst(body, {_bvid(d): w})
                if isinstance(inst, Phi) and inst.cond is c:
                    if inst.hi is True and inst.lo is False:
                        return False
                    if inst.hi is False and inst.lo is True:
                        return True
    finally:
        _in_ex[0] = False
    return None


def _scale_pos(p):
    """divide by a positive rational / known-positive monomial"""
    p = p.canon()
    if not p.num:
        return p
    for f, e in list(p.den.items()):
        s = _psign(dict(f))
        for _ in range(e):
            if s in ("+", "0+"):
                p = p * Rat(dict(f), {})
            elif s in ("-", "0-"):
                p = -(p * Rat(dict(f), {}))
            elif e % 2 == 0:
                p = p * Rat(dict(f), {})
    p = p.canon()
    c, mono, q = content_mono(p.num)
    r = Rat(q, p.den)
    if c < 0:
        r = -r
    keep = tuple((i, e) for i, e in mono if not _atoms[i].pos)
    if keep:
        r = r * Rat({keep: Fr(1)}, {})
    return r


def gt0(p):
    """gated boolean p > 0"""
    p = R(p)
    d = decide_gt0(p)
    if d is not None:
        return d
    isint = is_int_valued(p)
    if not isint:
        p = _scale_pos(p)
        # canonical polarity not attempted for reals: p>0 and -p>0 differ at 0
        return _known(condatom("gt0", p.canon()))
    # integers: p>0 <=> not (1-p > 0); choose the polarity with positive lead
    n = {m: c for m, c in p.num.items() if m != ONE}
    g = 0
    for c in n.values():
        g = math.gcd(g, int(c))
    if g > 1:
        # g*q + c0 > 0  <=> q > -c0/g <=> q + ceil... : q >= floor(-c0/g)+1
        c0 = p.num.get(ONE, Fr(0))
        lo = math.floor(-c0 / g) + 1
        q = Rat({m: c / g for m, c in n.items()}, {})
        p = q - lo + 1
    lead = p.num[max(m for m in p.num if m != ONE)]
    if lead > 0:
        return _known(condatom("gt0", p.canon()))
    return bnot(_known(condatom("gt0", (1 - p).canon())))


def _known(c):
    d = FACTS.atoms.get(c.id)
    if d is None and c.kind in ("gt0",):
        d = _by_exists(c)
    if d is not None:
        return d
    return cond(c)


def ge0(p):
    p = R(p)
    d = decide_gt0(p, strict=False)
    if d is not None:
        return d
    if is_int_valued(p):
        return gt0(p + 1)
    return bnot(gt0(-p))


def _infinite(p):
    """sign of an expression that is +-inf plus finite terms, else 0"""
    s = 0
    for m, c in p.num.items():
        hit = [e for i, e in m if _atoms[i].head == "inf"]
        if not hit:
            continue
        if s or len(m) != 1 or hit[0] != 1:
            return 0
        s = 1 if c > 0 else -1
    if s and any(_atoms[i].head == "inf" for f in p.den for m, c in f for i, e in m):
        return 0
    return s if not p.den else 0


def eq0(p):
    p = R(p)
    if p.is_zero():
        return True
    if _infinite(p):
        return False
    c = p.const()
    if c is not None:
        return c == 0
    p = _scale_pos(p).canon()
    if p.num[max(p.num)] < 0:
        p = (-p).canon()
    ca = condatom("eq0", p)
    d = decide_atom(ca)
    if d is not None:
        return d
    return cond(ca)


# --------------------------------------------------------------------------
# substitution / rebuilding
# --------------------------------------------------------------------------

REBUILD = {}


def _rb(head):
    def deco(f):
        REBUILD[head] = f
        return f
    return deco


REBUILD["exp"] = lambda at, a: exp(a[0])
REBUILD["log"] = lambda at, a: log(a[0])
REBUILD["abs"] = lambda at, a: absv(a[0])
REBUILD["neg1"] = lambda at, a: neg1pow(a[0])
REBUILD["lgamma"] = lambda at, a: lgamma(a[0])
REBUILD["min"] = lambda at, a: fmin(a[0], a[1])
REBUILD["pow"] = lambda at, a: power(a[0], a[1])


@_rb("sum")
def _rb_sum(at, a):
    v = fresh("sv", nonneg=True)
    bv = mk("bv", (at.args[0],), integer=True, nonneg=True)
    d, n, body = a
    return summation(v, n, subst_one(body, _single_atom(bv).id, v))


def _rb_binder(at, a):
    v = fresh("sv", nonneg=True)
    return binder(at.head, v, a[1:-1], subst(a[-1], {_bvid(at.args[0]): v}))


for _h in BINDERS - {"sum"}:
    REBUILD[_h] = _rb_binder
REBUILD["ind"] = lambda at, a: indicator(lift(lambda c: RONE if c else ZERO, a[0]))
REBUILD["floor"] = lambda at, a: floor(a[0])
REBUILD["cut"] = lambda at, a: a[0]
REBUILD["log1"] = lambda at, a: log(a[0])


def subst_one(r, i, v):
    return subst(r, {i: v})


def subst(v, mp, fn=None):
    """replace atoms (by id) in v by Rats; fn(atom, newargs) may override the
    rebuilding of an application (return None to keep the default)"""
    cache = {}
    keys = set(mp)

    def s_atom(i):
        r = cache.get(i)
        if r is not None:
            return r
        if i in mp:
            r = mp[i]
        else:
            at = _atoms[i]
            if fn is None and keys.isdisjoint(deep_ids_atom(i)):
                r = R(at)
            elif at.poly is not None:
                r = mk_polyroot(s_poly(dict(at.poly)))
            elif not at.args:
                r = None
                if fn is not None:
                    r = fn(at, ())
                if r is None:
                    r = R(at)
            elif at.head in BINDERS and any(
                    _bvid(at.args[0]) in deep_ids(x) for x in mp.values() if isinstance(x, (Rat, Phi))):
                # capture-avoiding: rename the bound variable first
                w = fresh("sv", nonneg=True)
                body = subst(at.args[-1], {_bvid(at.args[0]): w})
                body = s_arg(body)
                ex = tuple(s_arg(x) for x in at.args[1:-1])
                if at.head == "sum":
                    r = summation(w, ex[0], body)
                else:
                    r = binder(at.head, w, ex, body)
            else:
                args = tuple(s_arg(a) for a in at.args)
                r = None
                if fn is not None:
                    r = fn(at, args)
                if r is None:
                    r = rebuild(at, args)
        cache[i] = r
        return r

    def s_arg(a):
        if isinstance(a, Rat):
            return s_rat(a)
        if isinstance(a, Phi):
            return s_phi(a)
        if isinstance(a, tuple):
            return tuple(s_arg(x) for x in a)
        f = getattr(a, "alg_subst", None)
        if f is not None:
            return f(s_arg, mp, fn)
        return a

    def s_poly(p):
        tot = ZERO
        for m, c in p.items():
            t = R(c)
            for i, e in m:
                b = s_atom(i)
                if isinstance(b, Phi):
                    t = lift(lambda x, y: x * power(y, R(e)), t, b)
                else:
                    bb = b if e == 1 else power(b, R(e))
                    t = lift(lambda x: x * bb, t)
            tot = lift(lambda x, y: x + y, tot, t)
        return tot

    def s_rat(r):
        if fn is None:
            hit = False
            for i in r.atoms():
                if not keys.isdisjoint(deep_ids_atom(i)):
                    hit = True
                    break
            if not hit:
                return r
        n = s_poly(r.num)
        for f, e in r.den.items():
            d = s_poly(dict(f))
            n = lift(lambda x, y: x / (y ** e), n, d)
        return n

    def s_phi(v):
        if isinstance(v, Phi):
            c = s_cond(v.cond)
            return ite(c, s_phi(v.hi), s_phi(v.lo))
        if isinstance(v, Rat):
            return s_rat(v)
        return s_arg(v)

    def s_cond(c):
        args = tuple(s_arg(a) for a in c.args)
        if c.kind == "gt0":
            return lift(gt0, args[0])
        if c.kind == "eq0":
            return lift(eq0, args[0])
        return _known(condatom(c.kind, *args))

    return s_phi(v)


def _bvid(d):
    return mkatom("bv", (d,), integer=True, nonneg=True).id


def mk_polyroot(p):
    """value whose power is taken by the caller (polynomial atom base)"""
    return p


def _isb(v):
    if isinstance(v, Phi):
        return _isb(v.hi)
    return isinstance(v, bool)


def rebuild(at, args):
    f = REBUILD.get(at.head)
    if f is not None:
        if at.head == "ind":
            return f(at, args)
        if at.head in BINDERS:
            if any(isinstance(a, Phi) for a in args[1:-1] if not _isb(a)):
                k = len(args) - 2
                return lift(lambda *a: f(at, (args[0],) + a + (args[-1],)), *args[1:-1])
            return f(at, args)
        if any(isinstance(a, Phi) for a in args):
            return lift(lambda *a: f(at, a), *args)
        return f(at, args)
    return R(mkatom(at.head, args, pos=at.pos, nonneg=at.nonneg, integer=at.integer))


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------

def show_atom(at):
    if at.poly is not None:
        return "(%s)" % show(Rat(dict(at.poly), {}))
    if at.head == "int":
        return str(at.args[0])
    if at.head == "neg1":
        return "(-1)^(%s)" % show(at.args[0])
    if at.head == "ind":
        return "[%s]" % show_cond(at.args[0].cond)
    if at.head == "sum":
        return "sum[b%d<%s](%s)" % (at.args[0], show(at.args[1]), show(at.args[2]))
    if at.head == "bv":
        return "b%d" % at.args[0]
    if not at.args:
        return at.head
    return "%s(%s)" % (at.head, ", ".join(show(a) for a in at.args))


_budget = [None]


def _show_poly(p):
    out = []
    ts = list(p.items())
    if _budget[0] is None or len(ts) < 60:
        ts.sort(key=lambda t: repr(t[0]))
    for m, c in ts:
        if _budget[0] is not None:
            _budget[0] -= 1
            if _budget[0] < 0:
                out.append("...")
                break
        fs = []
        for i, e in m:
            s = show_atom(_atoms[i])
            if e != 1:
                s += "^%s" % (e if Fr(e).denominator == 1 and e > 0 else "(%s)" % e)
            fs.append(s)
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append("*".join(fs))
    return " + ".join(out) if out else "0"


def show(v):
    if isinstance(v, Rat):
        s = _show_poly(v.num)
        for f, e in v.den.items():
            s = "[%s]/(%s)%s" % (s, _show_poly(dict(f)), "" if e == 1 else "^%d" % e)
        return s
    if isinstance(v, Phi):
        return "{%s ? %s : %s}" % (show_cond(v.cond), show(v.hi), show(v.lo))
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    return repr(v) if not isinstance(v, str) else v


def show_cond(c):
    if c.kind == "gt0":
        return "%s > 0" % show(c.args[0])
    if c.kind == "eq0":
        return "%s == 0" % show(c.args[0])
    return "%s(%s)" % (c.kind, ", ".join(show(a) for a in c.args))


def clip(v, n=400):
    _budget[0] = n
    try:
        s = show(v)
    finally:
        _budget[0] = None
    return s if len(s) <= n else s[:n] + " ..."
