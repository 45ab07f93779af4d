"""C33: what a geometry and a thermodynamic calculation are set up with."""
from ..model import *
from .. import evalr
from . import prop
from .scatter import Mat

ASSUME = ("floating-point rounding is not modelled",)
MODS = ("thermodynamics", "geometry", "scattering", "stratified_sphere_scattering", "materials", "translation", "matrix_balancing")


def always(ck, name, wh, cond, facts=()):
    """a condition holds for every value of its symbols"""
    with A.facts(*facts):
        bad = A.bnot(cond)
        if bad is False:
            return ck.holds(name, wh, "decided by sign analysis")
        r = has_unk(bad)
        if r:
            return ck.undecided(name, wh, r)
    for t in range(60):
        J = evalr.Interp(7919 * ck.seed + t)
        try:
            if all(J.ev(A.ge0(f)) is True for f in facts) and J.ev(bad) is True:
                return ck.violated(name, wh, "fails when %s" % A.clip(bad, 300))
        except Exception:
            continue
    return ck.undecided(name, wh, "condition %s" % A.clip(cond, 200))


class Conf:
    def __init__(self, ck):
        self.ck = ck
        self.w = World(ck, *MODS)
        self.st = self.w.state()
        self.rs, self.gap = pos("rs"), pos("gap")
        self.m = {c: Mat(self.w, self.st, c) for c in "abcde"}

    def arrangement(self, ext, order, t=A.RONE):
        """radii and centre distance with smaller radius rs and surface distance gap, all lengths times t"""
        rs, gap = self.rs * t, self.gap * t
        x = pos("extra") * t
        rg = rs + x if ext else rs + gap + x
        L = rs + rg + gap if ext else x
        return ((rs, rg) if order else (rg, rs)) + (L,)

    def radius(self, v, layers):
        if not layers:
            return Sc(v)
        return self.w.ip.mklist(self.st, [Sc(v / 2), Sc(v)])

    def geom(self, ext=1, order=1, t=A.RONE, layers="", **kw):
        r1, r2, L = self.arrangement(ext, order, t)
        m = {c: x.ref for c, x in self.m.items()}
        lst = lambda *v: self.w.ip.mklist(self.st, list(v))
        m1 = lst(m["a"], m["d"], m["c"]) if "1" in layers else m["a"]
        m2 = lst(m["b"], m["e"], m["c"]) if "2" in layers else m["b"]
        K = self.w.get("geometry", "SphereSphere")
        return self.w.call(self.st, K, self.radius(r1, "1" in layers), self.radius(r2, "2" in layers), Sc(L), m1, m2, m["c"], **kw)

    def attr(self, o, name):
        return self.w.ip.getattr(o, name, self.st)


ARR = [(ext, order) for ext in (1, 0) for order in (1, 0)]


def label(ext, order):
    return "%s, %s sphere first" % ("exterior" if ext else "interior", "smaller" if order else "larger")


def estimate(c, prec, off):
    """multipole order needed at smaller radius rs and surface distance gap"""
    x = A.exp(3 - R("0.33") * A.log(prec) / A.log(R(10))) * c.rs / c.gap / 13
    return A.ite(A.ge0(c.gap - 30 * c.rs), A.RONE, A.fmax(A.floor(x) + off, A.RONE))


def cutoff(c, lmax):
    """number of Matsubara frequencies needed at scaled temperature dT"""
    gap, rs = c.gap, c.rs
    lt = gap * pos("dT")
    pre = A.ite(A.ge0(rs - 2 * gap), R("0.1") + R("2.21") * A.exp(-rs / gap), R("0.4"))
    off = A.ite(A.ge0(lt - 7), A.RONE, R(5))
    return A.lift(lambda p, o: A.fmax(A.floor(p * lmax / lt * (A.exp(-2 * lt) * (gap + rs) / rs + 1 + lt / lmax) + o), A.RONE), pre, off)


def integer(ck, tag, wh, v):
    if isinstance(v, Unknown):
        return ck.undecided(tag, wh, v.reason)
    if not isinstance(v, Sc):
        return ck.violated(tag, wh, "is %r" % (v,))
    return ck.truth(tag, v.k in ("i", "I"), wh, "is not an integer")


@prop("C33", "Truncation orders, number of Matsubara frequencies, number of temperatures and zero-frequency treatment of a "
      "configuration with symbolic radii, distance, precision, offset, temperatures; solid, layered and coated spheres; "
      "both arrangements and both orders of the spheres.",
      "given values are taken over unchanged; automatic ones are integers >= 1 and the same estimate from smaller radius and "
      "surface distance in every arrangement; unknown evaluation types and geometries are rejected",
      ASSUME)
def c33(ck):
    orders(ck)
    explicit(ck)
    frequencies(ck)
    evaluation(ck)
    zero(ck)


def orders(ck):
    def fn():
        c = Conf(ck)
        w, st = c.w, c.st
        f = w.get("geometry", "get_lmax")
        wh = w.where(f)
        prec, off = pos("prec"), index("off")
        for ext, order in ARR:
            r1, r2, L = c.arrangement(ext, order)
            v = w.call(st, f, Sc(r1), Sc(r2), Sc(L), Sc(prec), Sc(off, "i"))
            tag = "get_lmax, " + label(ext, order)
            integer(ck, tag + ": integer", wh, v)
            if not isinstance(v, Sc):
                continue
            always(ck, tag + ": at least 1", wh, A.lift(lambda x: A.ge0(x - 1), v.e))
            ck.eq(tag + ": estimate from smaller radius, surface distance, precision and offset", v.e, estimate(c, prec, off), wh)
            t = pos("t")
            r1, r2, L = c.arrangement(ext, order, t)
            v2 = w.call(st, f, Sc(r1), Sc(r2), Sc(L), Sc(prec), Sc(off, "i"))
            if isinstance(v2, Sc):
                ck.eq(tag + ": unchanged by the unit of length", v2.e, v.e, wh)
    ck.run("get_lmax", fn)

    def obj():
        c = Conf(ck)
        w, st = c.w, c.st
        wh = w.where(w.get("geometry", "SphereSphere"))
        prec, off = pos("prec"), index("off")
        f = w.get("geometry", "get_lmax")
        r1, r2, L = c.arrangement(1, 1)
        want = w.call(st, f, Sc(r1), Sc(r2), Sc(L), Sc(prec), Sc(off, "i"))
        for ext, order in ARR:
            for layers in ("", "1", "2", "12"):
                o = c.geom(ext, order, layers=layers, precision=Sc(prec), l_offset=Sc(off, "i"))
                tag = "automatic orders, %s%s" % (label(ext, order), ", layers on sphere %s" % layers if layers else "")
                lm = c.attr(o, "lmax")
                ck.eq(tag + ": lmax for the outer radii, given precision and offset", lm, want.e, wh)
                ls = c.attr(o, "lssmax")
                integer(ck, tag + ": lssmax is an integer", wh, ls)
                a, b, _ = c.arrangement(ext, order)
                big, small = (b, a) if order else (a, b)
                ck.eq(tag + ": lssmax in the ratio of the outer radii", ls, A.lift(lambda x: A.floor(big / small * x), want.e), wh)
                # the ratio is at least 1, so is lssmax/lmax
        o = c.geom(1, 1, lmax=Sc(posint("lg"), "i"))
        ls = c.attr(o, "lssmax")
        if isinstance(ls, Sc):
            a, b, _ = c.arrangement(1, 1)
            ck.eq("given lmax, automatic lssmax", ls, A.floor(b / a * posint("lg")), wh)
    ck.run("automatic orders", obj)


def explicit(ck):
    def go():
        c = Conf(ck)
        w, st = c.w, c.st
        wh = w.where(w.get("geometry", "SphereSphere"))
        lm, ls = posint("lg"), posint("lsg")
        for ext, order in ARR:
            for layers in ("", "12"):
                o = c.geom(ext, order, layers=layers, lmax=Sc(lm, "i"), lssmax=Sc(ls, "i"))
                tag = "given orders, %s%s" % (label(ext, order), ", layered" if layers else "")
                ck.eq(tag + ": lmax", c.attr(o, "lmax"), lm, wh)
                ck.eq(tag + ": lssmax", c.attr(o, "lssmax"), ls, wh)
        o = c.geom(1, 1, lssmax=Sc(ls, "i"))
        ck.eq("given lssmax, automatic lmax", c.attr(o, "lssmax"), ls, wh)
    ck.run("given orders", go)

    def coated():
        c = Conf(ck)
        w, st = c.w, c.st
        K = w.get("geometry", "CoatedSphereSphere")
        wh = w.where(K)
        lm, ls = posint("lg"), posint("lsg")
        m = {k: x.ref for k, x in c.m.items()}
        r1, r2, L = c.arrangement(1, 1)
        args = lambda a, b: [Sc(r1 / 2), Sc(r1), m["a"], m["d"], Sc(r2 / 2), Sc(r2), m["b"], m["e"], Sc(L), m["c"], a, b]
        o = w.call(st, K, *args(Sc(lm, "i"), Sc(ls, "i")))
        ck.eq("coated, given orders: lmax", c.attr(o, "lmax"), lm, wh)
        ck.eq("coated, given orders: lssmax", c.attr(o, "lssmax"), ls, wh)
        o = w.call(st, K, *args("automatic", "automatic"))
        o2 = c.geom(1, 1)
        ck.eq("coated, automatic lmax as for solid spheres of the outer radii", c.attr(o, "lmax"), c.attr(o2, "lmax"), wh)
        ck.eq("coated, automatic lssmax as for solid spheres of the outer radii", c.attr(o, "lssmax"), c.attr(o2, "lssmax"), wh)
    ck.run("coated", coated)


def frequencies(ck):
    def finite(c, o, nmax="automatic", t=A.RONE, cls="finiteT"):
        return c.w.call(c.st, c.w.get("thermodynamics", cls), Sc(pos("dT") / t), nmax, Sc(pos("Tmax") / t), o)

    def go():
        c = Conf(ck)
        lm = posint("lg")
        wh = c.w.where(c.w.get("thermodynamics", "finiteT"))
        for ext, order in ARR:
            for layers in ("", "12"):
                kw = dict(lmax=Sc(lm, "i"), lssmax=Sc(lm, "i"))
                f = finite(c, c.geom(ext, order, layers=layers, **kw))
                v = c.attr(f, "nmax")
                tag = "automatic frequency cut-off, %s%s" % (label(ext, order), ", layered" if layers else "")
                integer(ck, tag + ": integer", wh, v)
                if not isinstance(v, Sc):
                    continue
                always(ck, tag + ": at least 1", wh, A.lift(lambda x: A.ge0(x - 1), v.e))
                ck.eq(tag + ": estimate from smaller radius, surface distance, temperature and lmax", v.e, cutoff(c, lm), wh)
                t = pos("t")
                if not layers:
                    v2 = c.attr(finite(c, c.geom(ext, order, t=t, **kw), t=t), "nmax")
                    if isinstance(v2, Sc):
                        ck.eq(tag + ": unchanged by the unit of length", v2.e, v.e, wh)
                n = posint("ng")
                for cls in ("finiteT", "oneRoundtrip"):
                    v3 = c.attr(finite(c, c.geom(ext, order, layers=layers, **kw), Sc(n, "i"), cls=cls), "nmax")
                    ck.eq(tag.replace("automatic", "given") + ", " + cls, v3, n, wh)
    ck.run("frequency cut-off", go)

    def wrong():
        c = Conf(ck)
        K = c.w.get("thermodynamics", "finiteT")
        st = c.w.state()
        o = c.w.ip.mkobj(st, "Other", {"mat1": c.m["a"].ref, "mat2": c.m["b"].ref, "r1": Sc(pos("rs")), "r2": Sc(pos("rs")),
                                       "L": Sc(4 * pos("rs")), "lmax": Sc(posint("lg"), "i")}, label="other")
        c.w.ip.call(K, [Sc(pos("dT")), Sc(posint("ng"), "i"), Sc(pos("Tmax")), o], {}, st)
        ck.truth("an object that is not a geometry is rejected", st.dead and "TypeError" in {n for _, n, _ in st.frame.raises},
                 c.w.where(K), "accepted")
    ck.run("not a geometry", wrong)


def evaluation(ck):
    def go():
        for ev, head in (("lndet", "LNDET"), ("trace", "TRACE"), (None, "LNDET")):
            c = Conf(ck)
            w, st = c.w, c.st

            def h(head):
                def f(ip, args, kw, st, node):
                    x = NP.toarr(ip, st, args[1])
                    return ip.mkarr(st, ArrVal(list(x.shape), lambda ix: A.lift(lambda k: A.mk(head, (k,)), x.at(ix))))
                return f
            w.ip.contracts["geometry.SphereSphere.mSumme"] = h("LNDET")
            w.ip.contracts["geometry.SphereSphere.mSum_roundtrips"] = h("TRACE")
            o = c.geom(1, 1, **({} if ev is None else {"evaluation": ev}))
            N, q = posint("N"), index("q")
            k = w.ip.mkarr(st, ArrVal([N], lambda i: A.mk("k", (i[0],), pos=True)))
            f = c.attr(o, "mSumme")
            with A.facts(N - q - 1):
                v = w.call(st, f, k)
                ck.eq("evaluation %s" % ev, w.at(st, v, q), A.mk(head, (A.mk("k", (q,), pos=True),)),
                      w.where(w.get("geometry", "SphereSphere")), (N - q - 1,))
    ck.run("evaluation", go)

    def wrong():
        c = Conf(ck)
        K = c.w.get("geometry", "SphereSphere")
        st = c.w.state()
        m = [c.m[x].ref for x in "abc"]
        r1, r2, L = c.arrangement(1, 1)
        c.w.ip.call(K, [Sc(r1), Sc(r2), Sc(L)] + m, {"evaluation": "determinant"}, st)
        ck.truth("an unknown evaluation is rejected", st.dead and "ValueError" in {n for _, n, _ in st.frame.raises}, c.w.where(K), "accepted")
    ck.run("unknown evaluation", wrong)


def zero(ck):
    """the closed zero-frequency form is used for two solid spheres only"""
    def go():
        def elementwise(h):
            def f(ip, args, kw, st, node):
                x = NP.toarr(ip, st, args[1])
                return ip.mkarr(st, ArrVal(list(x.shape), lambda ix: A.lift(lambda k: A.mk(h, (k,)), x.at(ix))))
            return f
        for kind in ("solid", "layers 1", "layers 2", "layers 12", "coated"):
            for an in (None, True, False):
                c = Conf(ck)
                w, st = c.w, c.st
                w.ip.contracts["geometry.SphereSphere.mSumme"] = elementwise("MS")
                w.ip.contracts["geometry.SphereSphere.mSumme_k0"] = lambda ip, args, kw, st, node: Sc(A.sym("MS0"), "F")
                lm = Sc(posint("lg"), "i")
                if kind == "coated":
                    m = {x: y.ref for x, y in c.m.items()}
                    r1, r2, L = c.arrangement(1, 1)
                    o = w.call(st, w.get("geometry", "CoatedSphereSphere"), Sc(r1 / 2), Sc(r1), m["a"], m["d"], Sc(r2 / 2), Sc(r2), m["b"],
                               m["e"], Sc(L), m["c"], lm, lm)
                else:
                    o = c.geom(1, 1, layers=kind[7:], lmax=lm, lssmax=lm)
                F = w.get("thermodynamics", "finiteT")
                t = w.call(st, F, Sc(pos("dT")), Sc(posint("ng"), "i"), Sc(pos("Tmax")), o, **({} if an is None else {"analytic_n0": an}))
                f = c.attr(t, "F_alle")
                N = posint("N")
                k = w.ip.mkarr(st, ArrVal([N + 1], lambda i: A.ite(A.eq0(i[0]), A.ZERO, A.mk("k", (i[0] - 1,), pos=True))))
                v = w.call(st, f, k)
                closed = kind == "solid" and an is not False
                tag = "zero frequency, %s, analytic_n0 %s" % (kind, an)
                got = w.at(st, v, A.ZERO)
                if closed:
                    ck.eq(tag, got, A.sym("MS0") / 2, w.where(f))
                else:
                    # a numerical limit: half the sum at one small positive wavenumber
                    ck.eq(tag, got, A.mk("MS", (R("1e-10"),)) / 2, w.where(f))
    ck.run("zero frequency", go)
