"""Random interpretation of value numbers (Gulwani & Necula style).

Two value graphs with different normal forms are told apart (or not) by giving
every symbol and every uninterpreted function a random value.  This evaluates
terms of the abstract domain, never the analysed program; it is only consulted
when the normal forms differ, to keep an incomplete rewrite system from raising
an alarm.
"""
import hashlib
import random
import time
import mpmath
from mpmath import mpf
from fractions import Fraction as Fr
from . import alg as A
from .alg import Rat, Phi
from .values import *

mpmath.mp.dps = 40

OPAQUE = {"unk", "ca", "me"}
OPAQUE_COND = {"unk", "cab"}


class Reject(Exception):
    pass


class Undecidable(Exception):
    pass


def _canon_num(x):
    x = mpf(x)
    if x == mpmath.nint(x):
        return "i%d" % int(mpmath.nint(x))
    return mpmath.nstr(x, 18)


def _lone(r):
    """the atom r consists of, if it is a single one"""
    if not isinstance(r, Rat) or r.den or len(r.num) != 1:
        return None
    (m, c), = r.num.items()
    return A._atoms[m[0][0]] if len(m) == 1 else None


_FV = {}
_PLAIN = (str, int, bool, type(None), Fr)


def _bvs(i):
    """depths of the bound variables which occur in atom i, None where it has arguments of an unknown kind"""
    if i in _FV:
        return _FV[i]
    at = A._atoms[i]
    out = set()
    if at.head == "bv":
        out.add(at.args[0])

    def walk(a):
        if isinstance(a, Rat):
            for j in a.atoms():
                if not down(j):
                    return False
            return True
        if isinstance(a, Phi):
            return all(walk(x) for x in a.cond.args) and walk(a.hi) and walk(a.lo)
        if isinstance(a, tuple):
            return all(walk(x) for x in a)
        if isinstance(a, A.CondAtom):
            return all(walk(x) for x in a.args)
        return isinstance(a, _PLAIN)

    def down(j):
        s = _bvs(j)
        if s is None:
            return False
        out.update(s)
        return True
    ok = at.head == "bv" or all(walk(a) for a in at.args)
    if ok and at.poly is not None:
        ok = all(down(j) for m, _ in at.poly for j, _ in m)
    _FV[i] = r = tuple(sorted(out)) if ok else None
    return r


class Interp:
    def __init__(self, seed, lo=0, hi=6, spread=None, zeros=()):
        self.spread = spread
        self.zeros = zeros          # heads of non-negative symbols which are zero half of the time
        self.scale = {}             # head -> decimal exponent
        self.heads = set()          # heads of the real symbols met
        self.tested = set()         # heads of non-negative symbols compared with zero
        self.rng = random.Random(seed)
        self.seed = seed
        self.env = {}
        self.bv = {}
        self.hi = hi
        self.memo = {}
        self.hit = set()
        self.budget = 400000
        self.fix = {}               # integer symbol -> value
        self.ints = {}              # integer symbols met
        self.lim = 0                # longest sum evaluated, where larger than usual
        self.absmat = False         # functions of matrices as uninterpreted ones
        self.guards = None          # (kind, term) -> (smallest, largest) margin met

        self.gobj = {}
        self.deadline = None

    def guard(self, key, x, obj=None):
        if obj is not None:
            self.gobj[key] = obj
        g = self.guards.get(key)
        self.guards[key] = (x, x) if g is None else (min(g[0], x), max(g[1], x))

    def h(self, *key):
        return hashlib.md5(("%d|" % self.seed + "|".join(map(str, key))).encode()).digest()

    def rnd(self, key, at):
        d = self.h(*key)
        u = int.from_bytes(d[:8], "big") / 2.0 ** 64
        if at.integer:
            if len(key) == 1:
                if key[0] in self.fix:
                    return self.fix[key[0]]
                self.ints[key[0]] = 1 if at.pos else (0 if at.nonneg else None)
            lo = 1 if at.pos else (0 if at.nonneg else -4)
            return mpf(lo + int(u * (self.hi - lo + 1)))
        x = mpf(0.25) + mpf(int(u * 10 ** 12)) / 10 ** 12 * mpf(2)
        if key[0] in self.zeros and not at.pos and d[15] & 1:
            return mpf(0)
        if self.spread:
            lo, hi = self.spread
            x *= mpf(10) ** (lo + (hi - lo) * int.from_bytes(d[10:14], "big") / 2.0 ** 32)
        self.heads.add(key[0])
        if key[0] in self.scale:
            x *= mpf(10) ** self.scale[key[0]]
        if at.nonneg or at.pos:
            return x
        return x if d[9] & 1 else -x

    def argval(self, a):
        if isinstance(a, (Rat, Phi)):
            v = self.ev(a)
            if isinstance(v, bool):
                return str(v)
            if isinstance(v, mpf):
                return _canon_num(v)
            return repr(v)
        if isinstance(a, tuple):
            return "(" + ",".join(self.argval(x) for x in a) + ")"
        if isinstance(a, Sc):
            return self.argval(a.e)
        if isinstance(a, Tup):
            return "t(" + ",".join(self.argval(x) for x in a.items) + ")"
        if isinstance(a, (str, int, bool, type(None), Fr)):
            return repr(a)
        k = getattr(a, "rnd_key", None)
        if k is not None:
            return k(self)
        return repr(A._argkey(a))

    def ev(self, v):
        if isinstance(v, Phi):
            while isinstance(v, Phi):
                c = v.cond
                r = self.cond(c)
                if len(self.hit) < 4000:
                    self.hit.add((id(c), r))
                v = v.hi if r else v.lo
            return self.ev(v)
        if isinstance(v, Rat):
            n = self.poly(v.num)
            for f, e in v.den.items():
                d = self.poly(dict(f))
                if abs(d) <= mpf(10) ** -25 * self.mag:
                    raise Reject("pole")
                n = n / d ** e
            return n
        if isinstance(v, Sc):
            return self.ev(v.e)
        return v

    def poly(self, p):
        s = mag = mpf(0)
        for m, c in p.items():
            t = mpf(c.numerator) / c.denominator
            for i, e in m:
                b = self.atom(i)
                if isinstance(e, Fr) and e.denominator != 1:
                    if b < 0:
                        raise Reject("root of a negative number")
                    t *= mpmath.power(b, mpf(e.numerator) / e.denominator)
                else:
                    if b == 0 and e < 0:
                        raise Reject("pole")
                    t *= b ** int(e)
            s += t
            mag += abs(t)
        self.mag = mag
        return s

    def atom(self, i):
        at = A._atoms[i]
        if at.head == "bv":
            return self.bv[at.args[0]]
        key = i
        if self.bv:
            key = _bvs(i)
            if key is not None:
                key = (i,) + tuple(self.bv.get(d) for d in key)
        if key in self.memo:
            return self.memo[key]
        self.budget -= 1
        if self.budget < 0 or (self.deadline is not None and not self.budget & 255 and time.time() > self.deadline):
            raise Reject("budget")
        v = self._atom(at)
        if key is not None and len(self.memo) < 300000:
            self.memo[key] = v
        return v

    def _atom(self, at):
        h, a = at.head, at.args
        if at.poly is not None:
            return self.poly(dict(at.poly))
        if h in OPAQUE:
            raise Undecidable(h)
        f = FN.get(h) if a or h == "pi" else None
        if f is not None and not (self.absmat and h in ("det", "lndet", "detsign", "minv")):
            return f(self, at)
        if not a:
            return self.rnd((h,), at)
        return self.rnd((h,) + tuple(self.argval(x) for x in a), at)

    def cond(self, c):
        if c.kind in ("gt0", "eq0"):
            at = _lone(c.args[0])
            if at is not None and at.nonneg and not at.pos and not at.integer and at.head not in FN:
                self.tested.add(at.head)
        if c.kind == "gt0":
            x = self.ev(c.args[0])
            if abs(x) < mpf(10) ** -25:
                x = mpf(0)
            if self.guards is not None:
                self.guard(("gt0", id(c)), x, c)
            return x > 0
        if c.kind == "eq0":
            x = self.ev(c.args[0])
            if self.guards is not None:
                self.guard(("eq0", id(c)), abs(x), c)
            return abs(x) < mpf(10) ** -25
        if c.kind in OPAQUE_COND:
            raise Undecidable(c.kind)
        if c.kind == "exists":
            d, n, body = c.args
            return any(self.bound(d, j, body) is True for j in range(self.count(n)))
        dg = self.h(c.kind, *[self.argval(x) for x in c.args])
        return bool(dg[0] & 1)

    def count(self, n, lim=60):
        x = self.ev(n)
        k = int(mpmath.nint(x))
        if abs(x - k) > mpf(10) ** -20:
            raise Reject("non-integer trip count")
        if k > max(lim, self.lim if lim >= 60 else 0):
            raise Reject("long sum")
        return max(k, 0)

    def bound(self, d, j, body):
        had = self.bv.get(d)
        self.bv[d] = mpf(j)
        try:
            return self.ev(body)
        finally:
            if had is None:
                del self.bv[d]
            else:
                self.bv[d] = had


def _min(I, at):
    x, y = I.ev(at.args[0]), I.ev(at.args[1])
    if I.guards is not None:
        I.guard(("min", at.id), x - y)
    return min(x, y)


def _lg(x):
    if x <= 0:
        raise Reject("log domain")
    return mpmath.log(x)


def _sum(I, at):
    d, n, body = at.args
    return mpmath.fsum(I.bound(d, j, body) for j in range(I.count(n)))


def _prod(I, at):
    d, n, body = at.args
    return mpmath.fprod(I.bound(d, j, body) for j in range(I.count(n)))


def _ext(op, arg=False):
    def f(I, at):
        d, n, body = at.args[0], at.args[1], at.args[-1]
        pred = at.args[2] if len(at.args) == 4 else True
        vs = [(j, I.bound(d, j, body)) for j in range(I.count(n)) if pred is True or I.bound(d, j, pred) is True]
        if not vs:
            raise Reject("empty extremum")
        m = op(v for j, v in vs)
        return mpf(next(j for j, v in vs if v == m)) if arg else m
    return f


def _first(I, at):
    d, n, body = at.args
    for j in range(I.count(n)):
        if I.bound(d, j, body) is True:
            return mpf(j)
    raise Reject("no first index")


NODES = [mpf("0.0694318442029737"), mpf("0.330009478207572"), mpf("0.669990521792428"), mpf("0.930568155797026")]


def _integral(I, at):
    d, body = at.args[0], at.args[-1]
    ex = at.args[1:-1]
    ks = "|".join(I.argval(x) for x in ex)
    s = mpf(0)
    for j, x in enumerate(NODES):
        w = mpf(int.from_bytes(I.h("w", ks, j)[:6], "big")) / 2 ** 48 + mpf(1) / 2
        s += w * I.bound(d, x + mpf(j) / 7, body)
    return s


def _lam(I, at):
    d, body = at.args[0], at.args[-1]
    ks = "|".join(I.argval(x) for x in at.args[1:-1])
    vs = [I.argval_num(I.bound(d, x, body)) if hasattr(I, "argval_num") else _canon_num(I.bound(d, x, body))
          for x in (0, 1, 2)]
    return I.rnd(("lam", ks) + tuple(vs), at)


def _lam_at(v):
    try:
        at = A._single_atom(v)
    except Exception:
        at = None
    return at if at is not None and at.head == "lam" else None


def _matrix(I, at):
    """entries of the matrix argument (n, rows) of a matrix function"""
    n = I.count(at.args[0], 8)
    if n == 0:
        raise Reject("empty matrix")
    o = _lam_at(at.args[1])
    if o is None:
        raise Reject("matrix")
    d, rows = o.args[0], o.args[-1]
    M = mpmath.matrix(n, n)
    for a in range(n):
        had = I.bv.get(d)
        I.bv[d] = mpf(a)
        try:
            x = rows
            while isinstance(x, Phi):
                x = x.hi if I.cond(x.cond) else x.lo
            i = _lam_at(x)
            if i is None:
                if isinstance(x, Rat) and x.is_zero():
                    continue
                raise Reject("matrix row")
            for b in range(n):
                M[a, b] = I.bound(i.args[0], b, i.args[-1])
        finally:
            if had is None:
                del I.bv[d]
            else:
                I.bv[d] = had
    return M


def _det(I, at):
    v = mpmath.det(_matrix(I, at))
    if abs(v) < mpf(10) ** -20:
        raise Reject("singular matrix")
    return v


def _inv(I, at):
    M = _matrix(I, at)
    if abs(mpmath.det(M)) < mpf(10) ** -20:
        raise Reject("singular matrix")
    a, b = int(mpmath.nint(I.ev(at.args[2]))), int(mpmath.nint(I.ev(at.args[3])))
    if not (0 <= a < M.rows and 0 <= b < M.rows):
        raise Reject("index")
    return mpmath.inverse(M)[a, b]


def _bind(I, ids, vals, thunk):
    """evaluate with symbols bound; the atom memo of the outer context is kept apart"""
    saved = I.memo
    I.memo = {k: v for k, v in I.memo.items() if isinstance(k, tuple) and isinstance(k[0], str)}
    old = {k: I.env.get(k) for k in ids}
    for k, v in zip(ids, vals):
        I.env[k] = v
    try:
        return thunk()
    finally:
        for k, v in old.items():
            if v is None:
                I.env.pop(k, None)
            else:
                I.env[k] = v
        rec = {k: v for k, v in I.memo.items() if isinstance(k, tuple) and isinstance(k[0], str)}
        I.memo = saved
        I.memo.update(rec)


def _split(I, at, skip, nidx):
    """(index values, parameter ids, parameter values) of a recurrence atom"""
    from .loops import PARAMS
    vals = [I.ev(x) for x in at.args[skip:]]
    ps = PARAMS.get(at.args[0]) or ()
    return vals[:nidx], [A._single_atom(x).id for x in ps], vals[nidx:]


def _ra(I, at):
    from .loops import RECDEFS
    D = RECDEFS[at.args[0]]
    idx, pid, pv = _split(I, at, 1, len(D.index))
    key = ("ra", at.args[0]) + tuple(_canon_num(x) for x in idx + pv)
    if key in I.memo:
        return I.memo[key]
    ids = [A._single_atom(q).id for q in D.index]
    r = _bind(I, ids + pid, idx + pv,
              lambda: I.ev(D.step) if D.region is True or I.ev(D.region) is True else I.ev(D.init))
    I.memo[key] = r
    return r


def _rec(I, at):
    from .loops import rec_info
    f = rec_info(at.args[0])
    if f is None:
        raise Undecidable("recurrence")
    q, e, iid, init = f
    t = I.count(at.args[1], 400)
    idx, pid, pv = _split(I, at, 2, len(q))
    key = ("rec", at.args[0], t) + tuple(_canon_num(x) for x in idx + pv)
    if key in I.memo:
        return I.memo[key]
    ids = [A._single_atom(x).id for x in q]
    if t == 0:
        r = _bind(I, ids + pid, idx + pv, lambda: I.ev(init(tuple(q))))
    else:
        r = _bind(I, ids + pid + [iid], idx + pv + [mpf(t - 1)], lambda: I.ev(e))
    I.memo[key] = r
    return r


def _trips(I, at):
    from .loops import RECDEFS
    _, c, L = RECDEFS[at.args[0]]
    _, pid, pv = _split(I, at, 1, 0)
    for i in range(401):
        if _bind(I, pid + [L.iid], pv + [mpf(i)], lambda: I.ev(c)) is not True:
            return mpf(i)
    raise Reject("long loop")


def _cf(I, at):
    """b(0) + 1/(b(1) + 1/(... b(n-1)))"""
    d, n, body = at.args
    vs = [I.bound(d, j, body) for j in range(I.count(n, 400))]
    if not vs:
        raise Reject("empty fraction")
    r = vs[-1]
    for v in reversed(vs[:-1]):
        if r == 0:
            raise Reject("pole")
        r = v + 1 / r
    return r


def _trunc(x):
    return mpmath.floor(x) if x >= 0 else mpmath.ceil(x)


FN = {
    "exp": lambda I, at: mpmath.exp(I.ev(at.args[0])),
    "log": lambda I, at: _lg(I.ev(at.args[0])),
    "log1": lambda I, at: _lg(I.ev(at.args[0])),
    "abs": lambda I, at: abs(I.ev(at.args[0])),
    "neg1": lambda I, at: mpf(1 - 2 * (int(mpmath.nint(I.ev(at.args[0]))) % 2)),
    "lgamma": lambda I, at: mpmath.loggamma(I.ev(at.args[0])).real if I.ev(at.args[0]) > 0 else _rej(),
    "min": _min,
    "floor": lambda I, at: mpmath.floor(I.ev(at.args[0])),
    "round": lambda I, at: mpmath.nint(I.ev(at.args[0])),
    "sign": lambda I, at: mpmath.sign(I.ev(at.args[0])),
    "sin": lambda I, at: mpmath.sin(I.ev(at.args[0])), "cos": lambda I, at: mpmath.cos(I.ev(at.args[0])),
    "trunc": lambda I, at: _trunc(I.ev(at.args[0])),
    "pow": lambda I, at: mpmath.power(I.ev(at.args[0]), I.ev(at.args[1])),
    "int": lambda I, at: mpf(at.args[0]),
    "pi": lambda I, at: mpmath.pi + 0,
    "ind": lambda I, at: mpf(1) if I.ev(at.args[0]) is True else mpf(0),
    "sum": _sum, "prod": _prod, "amax": _ext(max), "amin": _ext(min),
    "argmax": _ext(max, True), "argmin": _ext(min, True), "first": _first,
    "integral": _integral, "lam": _lam, "ra": _ra, "rs": _rec, "rit": _rec, "trips": _trips, "cf": _cf,
    "cut": lambda I, at: I.ev(at.args[0]),
    "det": _det, "lndet": lambda I, at: mpmath.log(abs(_det(I, at))), "detsign": lambda I, at: mpmath.sign(_det(I, at)),
    "minv": _inv,
    "LNI": lambda I, at: lni(I.ev(at.args[0]), I.ev(at.args[1])),
    "LNK": lambda I, at: lnk(I.ev(at.args[0]), I.ev(at.args[1])),
}


def lni(l, x):
    """log of sqrt(pi/2x) I_{l+1/2}(x)"""
    if x <= 0:
        raise Reject("bessel domain")
    return mpmath.log(mpmath.besseli(l + mpf(1) / 2, x)) + mpmath.log(mpmath.pi / (2 * x)) / 2


def lnk(l, x):
    if x <= 0:
        raise Reject("bessel domain")
    return mpmath.log(mpmath.besselk(l + mpf(1) / 2, x)) + mpmath.log(mpmath.pi / (2 * x)) / 2


def _rej():
    raise Reject("domain")


_orig_atom = Interp.atom


def _atom_env(self, i):
    if i in self.env:
        return self.env[i]
    return _orig_atom(self, i)


Interp.atom = _atom_env


def close(x, y, tol=16, floor=45):
    if isinstance(x, mpf) and isinstance(y, mpf):
        if mpmath.isnan(x) or mpmath.isnan(y):
            raise Reject("nan")
        return abs(x - y) <= mpf(10) ** -tol * (mpf(10) ** -floor + abs(x) + abs(y))
    if isinstance(x, (bool, mpf)) and isinstance(y, (bool, mpf)):
        return x == y
    return A.same(x, y)


def opaque_in(v):
    r = has_unk(v)
    if r:
        return r
    if isinstance(v, (Rat, Phi)):
        for at in A.all_atoms(v):
            if at.head in OPAQUE:
                return "unsolved recurrence (%s)" % at.head
    return None


SPREAD = (None, (-2, 3), (-6, 1), None, (-3, 17), None)


def distinguish(a, b, facts=(), assume=True, tries=60, want=9, seed=1):
    """('differ', witness) | ('agree', n) | ('unknown', reason)"""
    ok = idle = 0
    seen, cover, zeros = set(), set(), set()
    full = tries >= 60
    searches = 2
    base = []
    start = time.time()
    reason = "no sample satisfied the assumptions"
    for t in range(4 * tries if full and isinstance(a, Phi) else tries):
        # symbols of order one, then over a few and over many decades: a difference may be
        # invisible while one of the terms is negligible
        spread = SPREAD[t % 6]
        try:
            for u in range(40):
                I = Interp(seed * 1000003 + t + 7919 * u, hi=3 + t % 6, spread=spread, zeros=zeros if t % 2 else ())
                if all(I.ev(f) >= 0 for f in facts) and I.ev(assume) is True:
                    break
            else:
                continue
            x, y = I.ev(a), I.ev(b)
            if I.tested - zeros:
                zeros = zeros | I.tested
                idle = 0
            if not close(x, y):
                if not (isinstance(x, mpf) and isinstance(y, mpf)):
                    return "differ", "%s vs %s" % (show_num(x), show_num(y))
                # rule out cancellation in the evaluation itself
                J = Interp(I.seed, hi=I.hi, spread=spread, zeros=I.zeros)
                with mpmath.workdps(160):
                    x, y = J.ev(a), J.ev(b)
                    if not close(x, y, floor=90):
                        return "differ", "%s vs %s" % (show_num(x), show_num(y))
            elif full and searches and isinstance(x, mpf) and isinstance(y, mpf) and (x or y):
                # a difference far below rounding: see whether it grows for symbols of other magnitude
                searches -= 1
                st = magnify(a, b, facts, assume, I)
                if st is not None:
                    return st
            ok += 1
            seen.add(spread)
            # as long as new branches of the value show up, go on
            idle = 0 if I.hit - cover else idle + 1
            cover |= I.hit
            if zeros and t < 24:
                continue
            if full:
                base.append(I)
            if ok >= want and (len(seen) > 3 or t > 40) and (idle >= 12 or not cover or time.time() > start + 15):
                return (full and cross(a, b, facts, assume, base)) or ("agree", ok)
        except Reject as r:
            reason = str(r)
            continue
        except Undecidable as u:
            reason = "opaque term " + str(u)
            continue
        except (ZeroDivisionError, ValueError, OverflowError) as u:
            reason = str(u)
            continue
        except TypeError as u:
            return "unknown", "not comparable: %s" % u
    if ok >= 2:
        return (full and cross(a, b, facts, assume, base)) or ("agree", ok)
    return "unknown", reason


SPENT = [0.0]


def cross(a, b, facts, assume, base, limit=15, total=90):
    """tests that only one of the two values makes, with the same outcome in every sample: look for
    symbols (other magnitudes, larger integers) for which the outcome is the other one"""
    start = time.time()
    if SPENT[0] > total or not base:
        return None

    mode = {"abs": False}

    def run(I0, fix, scale, full=0, key=None, obj=None):
        I = Interp(I0.seed, hi=I0.hi, spread=I0.spread, zeros=I0.zeros)
        I.fix, I.scale, I.lim, I.guards = fix, scale, 12000 if full else 2500, {}
        I.budget = 3000000 if full else 60000
        I.deadline = time.time() + (full or 5)
        I.absmat = mode["abs"]
        try:
            if not (all(I.ev(f) >= 0 for f in facts) and I.ev(assume) is True):
                return None
            I.guards = {}
            if key is not None:
                x = I.ev(obj.args[0])
                m = x - I.ev(obj.args[1]) if key[0] == "min" else abs(x) if key[0] == "eq0" else x
                if key[0] == "gt0" and abs(m) < mpf(10) ** -25:
                    m = mpf(0)
                return None, None, {key: (m, m)}, {}, I
            x = I.ev(a)
            ga, I.guards = I.guards, {}
            I.memo = {}
            y = I.ev(b)
            gb = I.guards
        except (Reject, Undecidable, ZeroDivisionError, ValueError, OverflowError, TypeError, KeyError, RecursionError):
            return None
        return x, y, ga, gb, I
    try:
        span, n = {}, 0
        both = None
        for I0 in base[-6:]:
            r = run(I0, {}, {})
            if r is None:
                continue
            n += 1
            both = (set(r[2]) | (both[0] if both else set()), set(r[3]) | (both[1] if both else set()))
            for g in (r[2], r[3]):
                for k, (lo, hi) in g.items():
                    o = span.get(k, (lo, hi))
                    span[k] = (min(o[0], lo), max(o[1], hi))
            last = (I0, r)
            if time.time() > start + limit:
                return None
        if not n:
            return None
        foreign = [k for k in both[0] ^ both[1]
                   if (k[0] == "eq0" and span[k][0] > 0) or (k[0] != "eq0" and (span[k][0] > 0 or span[k][1] <= 0))]
        foreign.sort(key=lambda k: (("min", "gt0", "eq0").index(k[0]) if k[0] in ("min", "gt0", "eq0") else 3, str(k)))
        for k in foreign[:12]:
            I0, r = last
            for I0 in base[-6:]:
                r = run(I0, {}, {})
                if r is not None and (k in r[2] or k in r[3]):
                    break
            else:
                continue
            mode["abs"] = False
            st = _flip(run, k, I0, r, start + limit)
            if st is not None:
                return st
            # matrices of the size needed are too large: with uninterpreted functions of matrices, provided
            # that these do not tell the values apart by themselves
            mode["abs"] = True
            rs = [q for q in (run(I1, {}, {}) for I1 in base[-6:]) if q is not None]
            if len(rs) < 2 or not any(at.head in ("det", "lndet", "detsign", "minv") for v in (a, b) for at in A.all_atoms(v)):
                continue
            if all(isinstance(q[0], mpf) and isinstance(q[1], mpf) and close(q[0], q[1]) for q in rs):
                r = run(I0, {}, {})
                st = _flip(run, k, I0, r, start + 2 * limit) if r is not None and (k in r[2] or k in r[3]) else None
                if st is not None:
                    return st
        return None
    finally:
        SPENT[0] += time.time() - start


def _flip(run, k, I0, r, until):
    """follow the margin of one test to the other side, symbol by symbol"""
    up = k[0] != "eq0" and r[2].get(k, r[3].get(k))[1] <= 0     # the margin has to grow
    obj = A._atoms[k[1]] if k[0] == "min" else r[4].gobj.get(k)
    q = run(I0, {}, {}, key=k, obj=obj) if obj is not None else None
    if q is not None:
        q[4].heads |= r[4].heads if len(r[4].heads) < 12 else set()
        q[4].ints.update(r[4].ints)
        r = q
        quick = dict(key=k, obj=obj)
    else:
        quick = {}

    def margin(r):
        g = r[2].get(k) or r[3].get(k)
        return None if g is None else (g[1] if up else -g[0])

    def done(r):
        m = margin(r)
        return m is not None and (m > 0 if up else m >= -mpf(10) ** -25)

    def verdict(fix, scale, secs=100):
        with mpmath.workdps(120):
            q = run(I0, fix, scale, secs)
            if q is None:
                return None
            x, y = q[0], q[1]
            try:
                if isinstance(x, mpf) and isinstance(y, mpf):
                    if close(x, y, tol=9, floor=110):
                        return None
                elif close(x, y):
                    return None
            except Reject:
                return None
            at = ["%s=%s" % (h, mpmath.nstr(v, 8)) for h, v in sorted(fix.items())] + [
                "%s scaled by 10^%s" % (h, mpmath.nstr(e, 5)) for h, e in sorted(scale.items())]
            return "differ", "%s vs %s (for %s)" % (show_num(x), show_num(y), ", ".join(at))
    fix, scale, best, tried = {}, {}, r, []
    for n in range(4):
        moved = False
        steps = []
        ints = sorted(set(r[4].ints) | set(fix))
        for h in ints:
            cur = fix.get(h)
            if cur is None:
                at = Interp(I0.seed, hi=I0.hi, spread=I0.spread, zeros=I0.zeros)
                lo = r[4].ints[h]
                u = int.from_bytes(at.h(h)[:8], "big") / 2.0 ** 64
                low = 1 if lo == 1 else (0 if lo == 0 else -4)
                cur = mpf(low + int(u * (I0.hi - low + 1)))
            steps.append(("i", h, cur))
        for h in sorted(best[4].heads):
            steps.append(("s", h, scale.get(h, 0)))
        for kind, h, cur in steps:
            cands = []
            m0 = margin(best)
            if kind == "i":
                q = run(I0, dict(fix, **{h: cur + 1}), scale, **quick)
                m1 = margin(q) if q is not None else None
                if m1 is not None and m0 is not None and m1 != m0:
                    z = cur - m0 / (m1 - m0)
                    for c in (mpmath.ceil(z), mpmath.floor(z), mpmath.ceil(z) + 1, mpmath.floor(z) - 1):
                        if r[4].ints.get(h) is None or c >= r[4].ints[h]:
                            cands.append(c)
                cands += [mpf(20), mpf(100), mpf(1000)]
            else:
                cands = [cur + e for e in (-1, 1, -3, 3, -8, 8, -16, 16) if abs(cur + e) <= 40]
            for c in cands:
                if time.time() > until:
                    return None
                f2, s2 = (dict(fix, **{h: c}), scale) if kind == "i" else (fix, dict(scale, **{h: c}))
                q = run(I0, f2, s2, **quick)
                if q is None:
                    continue
                m = margin(q)
                if m is None:
                    continue
                if done(q):
                    st = None
                    if kind == "s":
                        # just beyond the threshold first: sums stay short, rounding stays small
                        lo, hi = mpf(cur), mpf(c)
                        for j in range(7):
                            mid = (lo + hi) / 2
                            q = run(I0, fix, dict(scale, **{h: mid}), **quick)
                            if q is not None and margin(q) is not None and done(q):
                                hi = mid
                            else:
                                lo = mid
                        st = verdict(fix, dict(scale, **{h: hi}))
                    st = st or verdict(f2, s2, 15 if kind == "s" else 100)
                    if st is None and not tried:
                        # reached, yet without a consequence: other magnitudes of the remaining symbols
                        tried.append(1)
                        full = run(I0, f2, s2, 10)
                        for g in sorted(full[4].heads) if full is not None and len(full[4].heads) < 9 else ():
                            for e in (-20, 20):
                                if g != h and st is None and time.time() < until:
                                    q = run(I0, f2, dict(s2, **{g: e}), **quick)
                                    if q is not None and done(q):
                                        st = verdict(f2, dict(s2, **{g: e}), 60)
                    if st is not None:
                        return st
                    continue
                if m > margin(best):
                    best, fix, scale, moved = q, f2, s2, True
        if not moved:
            return None
    return None


def magnify(a, b, facts, assume, I0, limit=20):
    """scale the symbols head by head as long as the relative difference of a and b grows"""
    start = time.time()

    def rel(scale):
        I = Interp(I0.seed, hi=I0.hi, spread=I0.spread, zeros=I0.zeros)
        I.scale = scale
        try:
            if not (all(I.ev(f) >= 0 for f in facts) and I.ev(assume) is True):
                return None
            x, y = I.ev(a), I.ev(b)
        except (Reject, Undecidable, ZeroDivisionError, ValueError, OverflowError, TypeError):
            return None
        if not (isinstance(x, mpf) and isinstance(y, mpf)) or mpmath.isnan(x) or mpmath.isnan(y) or not x + y:
            return None
        return abs(x - y) / (abs(x) + abs(y)), x, y, I.heads
    with mpmath.workdps(160):
        best = rel({})
        # (differences of the size of a rounded literal are left alone)
        if best is None or not mpf(10) ** -90 < best[0] < mpf(10) ** -20:
            return None
        scale = {}
        for n in range(3):
            grew = False
            for h in sorted(best[3]):
                for e in (-16, -8, -4, 4, 8, 16):
                    if time.time() > start + limit:
                        return None
                    s = dict(scale)
                    s[h] = s.get(h, 0) + e
                    if abs(s[h]) > 40:
                        continue
                    r = rel(s)
                    if r is not None and r[0] > 10 * best[0]:
                        best, scale, grew = r, s, True
            if best[0] > mpf(10) ** -12:
                return "differ", "%s vs %s" % (mpmath.nstr(best[1], 12), mpmath.nstr(best[2], 12))
            if not grew:
                return None
    return None


def show_num(x):
    return mpmath.nstr(x, 12) if isinstance(x, mpf) else repr(x)


def evaluate(v, env, seed=1, hi=6):
    """value of a value graph with the given symbols fixed: (value, None) or (None, reason)"""
    J = Interp(seed, hi=hi)
    for k, x in env.items():
        J.env[A._single_atom(k).id] = mpf(x) if not isinstance(x, Fr) else mpf(x.numerator) / x.denominator
    try:
        return J.ev(v), None
    except (Reject, Undecidable, ZeroDivisionError, ValueError, OverflowError, TypeError) as e:
        return None, "%s: %s" % (type(e).__name__, e)


def select_leaf(v, env, seed=1):
    J = Interp(seed)
    for k, x in env.items():
        J.env[A._single_atom(k).id] = mpf(x)
    while isinstance(v, Phi):
        v = v.hi if J.cond(v.cond) else v.lo
    return v
