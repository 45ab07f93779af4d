"""C14-C17: translation coefficients and Gaunt coefficients."""
from ..model import *
from .. import evalr
from . import prop
from .bessel import bessel_contracts, lni, lnk
from .scatter import Mat, ASSUME, ln_odd

PI = A.mk("pi")
MODS = ("bessel_sk", "materials", "helper_functions", "cython_gaunt", "translation")


def gaunt_contract(w):
    """cython_gaunt.gaunt -> uninterpreted coefficients GNT(l1, l2, m, i), one for every second l'' (decided by C16)"""
    def h(ip, args, kw, st, node):
        l1, l2, m = [x.e for x in args[:3]]
        n = A.lift(lambda a, b, d: (a + b - d) / 2 + 1, l1, l2, A.absv(l1 - l2))
        return ip.mkarr(st, ArrVal([n], lambda ix: A.mk("GNT", (l1, l2, m, ix[0]))))
    w.ip.contracts["cython_gaunt.gaunt"] = h


class TSetup:
    def __init__(self, ck, ext, k="symbolic"):
        self.ck = ck
        self.w = World(ck, *MODS)
        bessel_contracts(self.w)
        gaunt_contract(self.w)
        self.st = self.w.state()
        self.ext = ext
        self.N = posint("N")
        self.q = index("q")
        self.L = pos("L")
        self.m = index("m")
        self.med = Mat(self.w, self.st, "a")
        if k == "zero":
            self.k = self.w.ip.mkarr(self.st, ArrVal([R(1)], lambda i: A.ZERO, "i"))
        else:
            self.k = self.w.ip.mkarr(self.st, ArrVal([self.N], lambda i: A.mk("k", i, pos=True)))
        self.kq = A.mk("k", (self.q,), pos=True)

    def make(self, lmax, lss, m=None):
        K = self.w.get("translation", "translation")
        return self.w.call(self.st, K, Sc(lmax, "i"), Sc(lss, "i"), Sc(self.m if m is None else m, "i"), self.med.ref,
                           Sc(self.L), self.k, Sc(R(self.ext), "i"))

    def x(self):
        return self.kq * self.L * self.med.n(self.kq)


def coefficient(s, l1, l2, lo, n, kind):
    """sum over l'' of the translation coefficient times the unscaled radial function; lo = |l1-l2|, n terms"""
    i = A.fresh("i", nonneg=True)
    lpp = lo + 2 * i
    x = s.x()
    p1, p2 = l1 * (l1 + 1), l2 * (l2 + 1)
    g = A.mk("GNT", (l1, l2, s.m, i))
    B = A.exp((lnk if s.ext else lni)(lpp, x))
    c = A.neg1pow(s.m) * A.sqrt(PI) * g * A.sqrt((2 * lpp + 1) / (p1 * p2)) * B
    c = c * (-2 / PI if s.ext else A.neg1pow(lpp))
    ee = (p1 + p2 - lpp * (lpp + 1)) * c
    em = 2 * s.m * x * c
    v = {"EEab": ee, "EEba": ee * A.neg1pow(lpp), "EMab": em, "EMba": -em * A.neg1pow(lpp)}[kind]
    return A.summation(i, n, v)


KINDS = ("EEab", "EEba", "EMab", "EMba")


@prop("C14", "Value graph of the translation coefficients for symbolic angular momenta, order, distance, wavenumber array "
      "and medium, both for exterior and interior geometry; Gaunt coefficients and radial functions uninterpreted.",
      "coefficient times its scale factor has the normal form of the Gaunt sum, for both orderings of l1 and l2; the scale "
      "is the radial function of the extreme l''; entry (i, j) of the table belongs to l1 = lmin+i, l2 = lmin+j",
      ASSUME + ("Gaunt coefficients are those decided by C16",))
def c14(ck):
    for ext in (1, 0):
        geo = "exterior" if ext else "interior"
        for order in ("l1 >= l2", "l1 < l2"):
            def one():
                s = TSetup(ck, ext)
                if order == "l1 >= l2":
                    l2, d = posint("l2"), index("d")
                    l1, n = l2 + d, l2 + 1
                else:
                    l1, d = posint("l1"), posint("dp")
                    l2, n = l1 + d, l1 + 1
                a, b = index("ax"), index("bx")
                o = s.make(l1 + a, l2 + b)
                f = s.w.ip.getattr(o, "get_vl1l2", s.st)
                wh = s.w.where(f)
                ff = (s.N - s.q - 1, n - 1 - s.m)
                with A.facts(*ff):
                    v = s.w.call(s.st, f, Sc(l1, "i"), Sc(l2, "i"))
                    tag = "%s, %s" % (geo, order)
                    returns(ck, tag + ": returns", s.st, where=wh)
                    v = s.w.ip.items(v, s.st) if hasattr(s.w.ip, "items") else s.st.heap[v.cell].items
                    sc = s.w.at(s.st, v[4], s.q)
                    want = lnk(l1 + l2, s.x()) if ext else lni(d, s.x())
                    ck.eq(tag + ": scale", sc, want, wh, ff)
                    for p, kind in enumerate(KINDS):
                        got = A.lift(lambda x, y: x * A.exp(y), s.w.at(s.st, v[p], s.q), sc)
                        ck.eq("%s: %s" % (tag, kind), got, coefficient(s, l1, l2, d, n, kind), wh, ff)
            ck.run("coefficient " + geo, one)
    for ext in (1, 0):
        geo = "exterior" if ext else "interior"
        for mcase in ("m = 0", "m >= 1"):
            for order in ("l1 >= l2", "l1 < l2"):
                def table():
                    s = TSetup(ck, ext)
                    if mcase == "m = 0":
                        s.m = A.ZERO
                        lmin = A.RONE
                    else:
                        s.m = lmin = posint("mp")
                    i, j, d = index("i"), index("j"), index("d")
                    if order == "l1 >= l2":
                        i = j + d
                        n = lmin + j + 1
                    else:
                        d = posint("dp")
                        j = i + d
                        n = lmin + i + 1
                    a, b = index("ax"), index("bx")
                    l1, l2 = lmin + i, lmin + j
                    o = s.make(l1 + a, l2 + b)
                    f = s.w.ip.getattr(o, "trans_ab", s.st)
                    wh = s.w.where(f)
                    v = s.w.call(s.st, f)
                    tag = "table of %s coefficients, %s, %s" % (geo, mcase, order)
                    ff = (s.N - s.q - 1,)
                    with A.facts(*ff):
                        returns(ck, tag + ": returns", s.st, where=wh)
                        v = s.st.heap[v.cell].items
                        sh = s.w.shape(s.st, v[0])
                        ck.truth(tag + ": one row per l1, one column per l2", isinstance(sh, tuple) and len(sh) == 3 and all(
                            A.same(x, y) for x, y in zip(sh, (s.N, i + a + 1, j + b + 1))), wh, "shape %r" % (sh,))
                        sc = s.w.at(s.st, v[4], s.q, i, j)
                        want = lnk(l1 + l2, s.x()) if ext else lni(d, s.x())
                        ck.eq(tag + ": scale", sc, want, wh, ff)
                        for p, kind in enumerate(KINDS):
                            got = A.lift(lambda x, y: x * A.exp(y), s.w.at(s.st, v[p], s.q, i, j), sc)
                            ck.eq("%s: %s" % (tag, kind), got, coefficient(s, l1, l2, d, n, kind), wh, ff)
                ck.run("table of coefficients " + geo, table)


def lnf(n):
    return A.lgamma(n + 1)


def ln_gaunt_max(l, lp, m):
    """ln of the coefficient with l'' = l + l', from the 3j symbols of maximal coupling"""
    L = l + lp
    return (lnf(2 * l) + lnf(2 * lp) + 2 * lnf(L) - lnf(l) - lnf(lp) - lnf(2 * L)
            - (lnf(l - m) + lnf(lp + m) + lnf(l + m) + lnf(lp - m)) / 2
            + (A.log(2 * l + 1) + A.log(2 * lp + 1) - A.log(4 * PI)) / 2 - A.log(2 * L + 1) / 2)


def ln_gaunt_min(lg, ls, m):
    """ln of the modulus of the coefficient with l'' = lg - ls: maximal coupling of ls and l'' to lg"""
    p = lg - ls
    # sqrt((2lg+1)(2ls+1)(2p+1)/4pi) 3j(ls p lg; 0 0 0) 3j(ls p lg; m 0 -m)
    return ((A.log(2 * lg + 1) + A.log(2 * ls + 1) + A.log(2 * p + 1) - A.log(4 * PI)) / 2
            + lnf(2 * ls) + lnf(2 * p) - lnf(2 * lg + 1) + lnf(lg) - lnf(ls) - lnf(p)
            + (lnf(lg + m) + lnf(lg - m) - lnf(ls + m) - lnf(ls - m)) / 2 - lnf(p))


@prop("C15", "Value graph of the zero-frequency translation table for symbolic angular momenta, order and distance, compared "
      "with the leading power of the finite-frequency coefficient (closed-form Gaunt coefficient of extreme l'').",
      "sign and logarithm of every entry equal the leading-order coefficient, for both orderings of l1 and l2",
      ASSUME)
def c15(ck):
    for ext in (1, 0):
        geo = "exterior" if ext else "interior"
        for mcase in ("m = 0", "m >= 1"):
            for order in ("l1 >= l2", "l1 < l2"):
                def table():
                    s = TSetup(ck, ext, "zero")
                    s.m = lmin = posint("mp")
                    if mcase == "m = 0":
                        s.m, lmin = A.ZERO, A.RONE
                    i, j, d = index("i"), index("j"), index("d")
                    if order == "l1 >= l2":
                        i = j + d
                    else:
                        d = posint("dp")
                        j = i + d
                    a, b = index("ax"), index("bx")
                    l1, l2 = lmin + i, lmin + j
                    m = s.m
                    o = s.make(l1 + a, l2 + b)
                    f = s.w.ip.getattr(o, "trans_ab", s.st)
                    wh = s.w.where(f)
                    v = s.w.call(s.st, f)
                    tag = "static %s table, %s, %s" % (geo, mcase, order)
                    returns(ck, tag + ": returns", s.st, where=wh)
                    v = s.st.heap[v.cell].items
                    sh = s.w.shape(s.st, v[1])
                    ck.truth(tag + ": one row per l1, one column per l2", isinstance(sh, tuple) and len(sh) == 2 and all(
                        A.same(x, y) for x, y in zip(sh, (i + a + 1, j + b + 1))), wh, "shape %r" % (sh,))
                    p1, p2 = l1 * (l1 + 1), l2 * (l2 + 1)
                    if ext:
                        p = l1 + l2
                        # (2/pi)(pi/2) (2p-1)!! x^-(p+1), l1p + l2p - p(p+1) = -2 l1 l2
                        ln = (A.log(PI) / 2 + ln_gaunt_max(l1, l2, m) + (A.log(2 * p + 1) - A.log(p1) - A.log(p2)) / 2
                              + A.log(2 * l1 * l2) + ln_odd(p))
                    else:
                        lg, ls = (l1, l2) if order == "l1 >= l2" else (l2, l1)
                        p = d
                        # x^p/(2p+1)!!, lg(lg+1) + ls(ls+1) - p(p+1) = 2 ls (lg+1)
                        ln = (A.log(PI) / 2 + ln_gaunt_min(lg, ls, m) + (A.log(2 * p + 1) - A.log(p1) - A.log(p2)) / 2
                              + A.log(2 * ls * (lg + 1)) - ln_odd(p + 1))
                    ck.eq(tag + ": logarithm", s.w.at(s.st, v[1], i, j), ln, wh)
                    ck.eq(tag + ": sign", s.w.at(s.st, v[0], i, j), A.neg1pow(m) if ext else A.RONE, wh)
                ck.run("static table " + geo, table)


def wigner3j(a, b, c, x, y, z):
    """Racah's formula, exact up to the working precision"""
    import mpmath
    f = mpmath.factorial
    if x + y + z or c < abs(a - b) or c > a + b or abs(x) > a or abs(y) > b or abs(z) > c:
        return mpmath.mpf(0)
    t = sum((-1) ** k / (f(k) * f(a + b - c - k) * f(a - x - k) * f(b + y - k) * f(c - b + x + k) * f(c - a - y + k))
            for k in range(max(0, b - c - x, a - c + y), min(a + b - c, a - x, b + y) + 1))
    d = f(a + b - c) * f(a - b + c) * f(b + c - a) / f(a + b + c + 1)
    n = f(a + x) * f(a - x) * f(b + y) * f(b - y) * f(c + z) * f(c - z)
    return (-1) ** (a - b - z) * mpmath.sqrt(d * n) * t


def gaunt_exact(l, lp, m, p):
    """integral of three spherical harmonics (l'' 0), (l m), (l' -m)"""
    import mpmath
    return (mpmath.sqrt((2 * l + 1) * (2 * lp + 1) * (2 * p + 1) / (4 * mpmath.pi))
            * wigner3j(l, lp, p, 0, 0, 0) * wigner3j(l, lp, p, m, -m, 0))


GPOINTS = ((1, 1, 0), (1, 1, 1), (2, 1, 1), (1, 2, 0), (3, 3, 2), (5, 2, 1), (2, 6, 2), (7, 7, 0), (8, 5, 4), (12, 9, 7),
           (4, 15, 3), (20, 20, 1), (17, 3, 3))


@prop("C16", "Value graph of the Gaunt routine (Cython source) for symbolic angular momenta and order; the downward loop is "
      "summarised as a recurrence.",
      "top value, second value and recurrence step have the normal form of the published recurrence (Xu 1996); the extracted "
      "recurrence agrees with the 3j symbols (Racah formula) at sample points; more than min(l, l') of projection gives zeros",
      ("floating-point rounding is not modelled", "C integers do not overflow"))
def c16(ck):
    import mpmath
    from .. import loops as LP
    for sign in (1, -1):
        for order in ("l >= l'", "l < l'"):
            def one():
                w = World(ck, "cython_gaunt")
                st = w.state()
                f = w.get("cython_gaunt", "gaunt")
                wh = w.where(f).replace(".py", ".pyx")
                lo, i = posint("lo"), index("i")
                d = index("d") if order == "l >= l'" else posint("dp")
                m = sign * index("m")
                if order == "l >= l'":
                    l, lp = lo + d, lo
                else:
                    l, lp = lo, lo + d
                tag = "%s, %s" % (order, "m >= 0" if sign > 0 else "m <= 0")
                with A.facts(lo - sign * m):
                    v = w.call(st, f, Sc(l, "i"), Sc(lp, "i"), Sc(m, "i"))
                    returns(ck, tag + ": returns", st, where=wh)
                    sh = w.shape(st, v)
                    ck.truth(tag + ": one coefficient per second l''", isinstance(sh, tuple) and len(sh) == 1
                             and A.same(sh[0], lo + 1), wh, "shape %r" % (sh,))
                    top = w.at(st, v, lo)
                    ck.eq(tag + ": coefficient of maximal l''", top, A.exp(ln_gaunt_max(l, lp, m)), wh, (lo - sign * m,))

                def a(j):
                    return A.lift(lambda g: g * A.sqrt(2 * (d + 2 * j) + 1), w.at(st, v, j))

                def al(p):
                    return (p * p - (l + lp + 1) ** 2) * (p * p - (l - lp) ** 2) / (4 * p * p - 1)
                ff = (lo - sign * m, lo - 1)
                with A.facts(*ff):
                    P = l + lp - 2
                    second = A.lift(lambda x, y: x * (A.sqrt(2 * P + 1) / (A.sqrt(2 * P + 5))) * (2 * P + 5) - y * (
                        2 * P + 5) * (2 * (P + 2) - 3) * (l * lp - m * m * (2 * (P + 2) - 1)) / (
                        (2 * l - 1) * (2 * lp - 1) * (P + 2)), w.at(st, v, lo - 1), top)
                    ck.eq(tag + ": second coefficient", second, A.ZERO, wh, ff)
                ff = (lo - sign * m, lo - 2 - i)
                with A.facts(*ff):
                    p = d + 2 * i
                    step = A.lift(lambda x, y, z: al(p + 1) * x - (4 * m * m + al(p + 2) + al(p + 3)) * y + al(p + 4) * z,
                                  LP.resolve(LP.unfold(a(i))), LP.resolve(a(i + 1)), LP.resolve(a(i + 2)))
                    ck.eq(tag + ": recurrence step for every l''", step, A.ZERO, wh, ff)
                    x = w.at(st, v, i)
                for L, Lp, M in GPOINTS if sign > 0 else GPOINTS[::3]:
                    if (L >= Lp) != (order == "l >= l'"):
                        continue
                    low = min(L, Lp)
                    pts = [{lo: mpmath.mpf(low), d: mpmath.mpf(abs(L - Lp)), sign * m: mpmath.mpf(M), i: mpmath.mpf(j)}
                           for j in range(0, low - 1)]
                    if not pts:
                        continue
                    ck.approx("%s: 3j symbols at l=%d, l'=%d, |m|=%d" % (tag, L, Lp, M), x, lambda env: gaunt_exact(
                        L, Lp, sign * M, abs(L - Lp) + 2 * int(env[i])) , pts, 1e-12, wh)
            ck.run("Gaunt coefficients " + order, one)

            def short(lo):
                """the loop unrolled: min(l, l') given, the difference and the order symbolic"""
                w = World(ck, "cython_gaunt")
                st = w.state()
                f = w.get("cython_gaunt", "gaunt")
                wh = w.where(f).replace(".py", ".pyx")
                d = index("d") if order == "l >= l'" else posint("dp")
                m = sign * index("m")
                l, lp = (lo + d, R(lo)) if order == "l >= l'" else (R(lo), lo + d)
                tag = "%s, %s, min(l, l') = %d" % (order, "m >= 0" if sign > 0 else "m <= 0", lo)
                ff = (lo - sign * m,)
                with A.facts(*ff):
                    v = w.call(st, f, Sc(l, "i"), Sc(lp, "i"), Sc(m, "i"))
                    sh = w.shape(st, v)
                    ck.truth(tag + ": one coefficient per second l''", isinstance(sh, tuple) and len(sh) == 1
                             and A.same(sh[0], R(lo + 1)), wh, "shape %r" % (sh,))
                    ck.eq(tag + ": coefficient of maximal l''", w.at(st, v, R(lo)), A.exp(ln_gaunt_max(l, lp, m)), wh, ff)
                    a = [A.lift(lambda g: g * A.sqrt(2 * (d + 2 * j) + 1), w.at(st, v, R(j))) for j in range(lo + 1)]

                    def al(p):
                        return (p * p - (l + lp + 1) ** 2) * (p * p - (l - lp) ** 2) / (4 * p * p - 1)
                    P = l + lp
                    ck.eq(tag + ": second coefficient", a[lo - 1], A.lift(lambda y: y * (2 * P - 3) * (l * lp - m * m * (2 * P - 1)) / (
                        (2 * l - 1) * (2 * lp - 1) * P), a[lo]), wh, ff)
                    for i in range(lo - 1):
                        p = d + 2 * i
                        step = A.lift(lambda x, y, z: al(p + 1) * x - (4 * m * m + al(p + 2) + al(p + 3)) * y + al(p + 4) * z,
                                      a[i], a[i + 1], a[i + 2])
                        ck.eq("%s: recurrence step %d" % (tag, i), step, A.ZERO, wh, ff)
            for lo in (1, 2, 3, 4):
                ck.run("short tables of Gaunt coefficients " + order, lambda: short(lo))

            def zero():
                w = World(ck, "cython_gaunt")
                st = w.state()
                f = w.get("cython_gaunt", "gaunt")
                lo, i, e = posint("lo"), index("i"), posint("e")
                d = index("d") if order == "l >= l'" else posint("dp")
                l, lp = (lo + d, lo) if order == "l >= l'" else (lo, lo + d)
                v = w.call(st, f, Sc(l, "i"), Sc(lp, "i"), Sc(sign * (lo + e), "i"))
                wh = w.where(f).replace(".py", ".pyx")
                tag = "%s, %s" % (order, "m > min(l, l')" if sign > 0 else "-m > min(l, l')")
                returns(ck, tag + ": returns", st, where=wh)
                with A.facts(lo - i):
                    ck.eq(tag + ": coefficients vanish", w.at(st, v, i), A.ZERO, wh, (lo - i,), total=True)
            ck.run("Gaunt coefficients of impossible projections", zero)
