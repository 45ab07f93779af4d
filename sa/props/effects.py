"""C23: what a caller passes in is left as it was."""
from ..model import *
from . import prop
from .geo import GSetup
from .sums import Sums, Thermo
from .scatter import Setup, Mat
from .bessel import MOD as BESSEL
from .pfa import Plates
from .trans import TSetup

ASSUME = ("floating-point rounding is not modelled",)


class Guard:
    """contents of argument arrays, lists and objects before a call"""

    def __init__(self, w, st, **vals):
        self.w, self.st = w, st
        self.snap = {n: (v, self.take(v)) for n, v in vals.items()}

    def take(self, v):
        if isinstance(v, Arr):
            av = self.w.ip.aval(self.st, v)
            return ArrVal(av.shape, av.at, av.dtype)
        if isinstance(v, Ref):
            c = self.st.heap[v.cell]
            if isinstance(c, ListVal):
                return list(c.items), [self.take(x) if isinstance(x, Ref) and isinstance(self.st.heap.get(x.cell), ListVal) else None for x in c.items]
            if isinstance(c, ObjVal):
                return dict(c.attrs)
        raise Unsupported("argument %r" % (v,))

    def check(self, ck, tag, wh, ff=()):
        for n, (v, old) in self.snap.items():
            self.one(ck, "%s: %s" % (tag, n), v, old, wh, ff)

    def one(self, ck, tag, v, old, wh, ff):
        st = self.st
        if st.dead:
            return ck.undecided(tag, wh, ck.dead or "the call never returns")
        if isinstance(v, Arr):
            new = self.w.ip.aval(st, v)
            ix = tuple(A.fresh("e", nonneg=True) for _ in old.shape)
            fx = tuple(ff) + tuple(s - i - 1 for s, i in zip(old.shape, ix))
            with A.facts(*fx):
                if len(new.shape) != len(old.shape) or not all(A.same(a, b) for a, b in zip(new.shape, old.shape)):
                    return ck.violated(tag, wh, "shape changed to %r" % (new.shape,))
                return ck.eq(tag, new.at(ix), old.at(ix), wh, fx, how="entries after the call equal those before")
        c = st.heap[v.cell]
        if isinstance(c, ListVal):
            items, inner = old
            same = len(c.items) == len(items) and all(a is b or A.same(a, b) for a, b in zip(c.items, items))
            if not same:
                return ck.violated(tag, wh, "list changed from %d to %d items or other items" % (len(items), len(c.items)))
            for x, o in zip(items, inner):
                if o is not None:
                    y = st.heap[x.cell].items
                    if len(y) != len(o[0]) or not all(a is b or A.same(a, b) for a, b in zip(y, o[0])):
                        return ck.violated(tag, wh, "an inner list changed")
            return ck.holds(tag, wh, "items after the call are those before")
        if isinstance(c, ObjVal):
            for k in set(old) | set(c.attrs):
                a, b = old.get(k), c.attrs.get(k)
                if k not in old or k not in c.attrs or not (a is b or A.same(a, b)):
                    return ck.violated(tag, wh, "attribute %s was written" % k)
            return ck.holds(tag, wh, "attributes after the call are those before")
        return ck.undecided(tag, wh, "argument became %r" % (c,))


@prop("C23", "Heap effects of every public entry point on its argument arrays, lists and objects, for symbolic sizes and contents; "
      "wavenumber arrays with and without a leading zero.",
      "the abstract contents of every argument cell after the call equal those before it, on every path",
      ASSUME)
def c23(ck):
    responses(ck)
    bessel(ck)
    scattering(ck)
    translation(ck)
    blocks(ck)
    msums(ck)
    thermo(ck)
    pfa(ck)
    tools(ck)


def responses(ck):
    from .materials import oscillators
    for cls, n in (("LorentzMaterial", None), ("LorentzMaterial", 2), ("LorentzSmithMaterial", 1)):
        for mag in (0, 1):
            for meth in ("epsilon", "mu"):
                def go():
                    w = World(ck, "materials")
                    st = w.state()
                    e = oscillators(w, st, n)
                    b = Tup([Sc(pos("mu0")), Sc(pos("wM"))]) if mag else Tup([])
                    o = w.call(st, w.get("materials", cls), e, b)
                    N = posint("N")
                    k = w.ip.mkarr(st, ArrVal([N], lambda i: A.mk("k", (i[0],), pos=True)))
                    f = w.ip.getattr(o, meth, st)
                    g = Guard(w, st, **dict(wavenumbers=k, **({"oscillators": e} if n else {})))
                    w.ip.call(f, [k], {}, st)
                    g.check(ck, "%s.%s, %s, %s" % (cls, meth, "%s oscillators" % (n or "any number of"), "magnetic" if mag else "not magnetic"), w.where(f))
                ck.run("%s.%s" % (cls, meth), go)


def bessel(ck):
    from .bessel import world, symbolic
    for e, extra in (("lnknu", lambda: [Sc(index("Lk"), "i")]), ("lniknu", lambda: [Sc(index("Lk"), "i")]),
                     ("mie_bessels", lambda: [Sc(posint("Lm"), "i"), Sc(posint("Lm") + index("dl"), "i")]),
                     ("trans_bessels", lambda: [Sc(posint("Lt"), "i"), Sc(R(1), "i")]),
                     ("trans_bessels", lambda: [Sc(posint("Lt"), "i"), Sc(R(0), "i")])):
        def go():
            w = world(ck)
            st = w.state()
            f = w.get(BESSEL, e)
            x, N = symbolic(w, st)
            g = Guard(w, st, arguments=x)
            w.ip.call(f, [x] + extra(), {}, st)
            g.check(ck, e, w.where(f))
        ck.run(e, go)


def scattering(ck):
    def one(cls, n, meth, extra, mod="scattering"):
        s = Setup(ck)
        ms = [s.mat(c) for c in "abc"[:n]]
        f, wh = s.method(cls, [m.ref for m in ms], meth, mod)
        g = Guard(s.w, s.st, wavenumbers=s.k, **{"material %s" % m.name: m.ref for m in ms})
        s.w.ip.call(f, extra(s), {}, s.st)
        g.check(ck, "%s.%s" % (cls, meth), wh)
    std = lambda s: [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(s.r)]
    ck.run("mie", lambda: one("scattering", 2, "mie", std))
    ck.run("mie_internal", lambda: one("scattering", 2, "mie_internal", std))
    ck.run("mie_coated", lambda: one("coated_miescattering", 3, "mie_coated", lambda s: std(s)[:3] + [Sc(pos("ri")), Sc(s.r)]))
    ck.run("fresnel", lambda: one("scattering", 2, "fresnel", lambda s: [Sc(pos("kp")), s.k]))
    for meth in ("mie_k0", "mie_internal_k0"):
        ck.run(meth, lambda: one("scattering", 2, meth, lambda s: [Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(s.r)]))

    for tag, seq in (("distinct layers", "abc"), ("outermost layer of the medium", "abb"), ("two layers of the medium", "abbb")):
        def layers():
            s = Setup(ck, "bessel_sk", "scattering", "materials", "stratified_sphere_scattering")
            w, st = s.w, s.st
            ms = {c: s.mat(c).ref for c in sorted(set(seq))}
            ml = w.ip.mklist(st, [ms[c] for c in seq])
            rl = w.ip.mklist(st, [Sc((n + 1) * s.r) for n in range(len(seq) - 1)])
            g = Guard(w, st, **{"wavenumbers": s.k, "material list": ml, "radius list": rl})
            K = w.get("stratified_sphere_scattering", "StratifiedMieScattering")
            o = w.call(st, K, ml, rl)
            f = w.ip.getattr(o, "mie_stratified", st)
            w.ip.call(f, [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i")], {}, st)
            g.check(ck, "mie_stratified, " + tag, w.where(f))
        ck.run("mie_stratified, " + tag, layers)


def translation(ck):
    for ext in (1, 0):
        for k in ("symbolic", "zero"):
            def go():
                s = TSetup(ck, ext, k)
                g = Guard(s.w, s.st, wavenumbers=s.k, medium=s.med.ref)
                o = s.make(R(2), R(3), A.RONE)
                f = s.w.ip.getattr(o, "trans_ab", s.st)
                s.w.ip.call(f, [], {}, s.st)
                g.check(ck, "trans_ab, %s, %s wavenumbers" % ("exterior" if ext else "interior", k), s.w.where(f))
            ck.run("trans_ab %d %s" % (ext, k), go)


def zero_first(w, st, N):
    return w.ip.mkarr(st, ArrVal([N + 1], lambda i: A.ite(A.eq0(i[0]), A.ZERO, A.mk("k", (i[0] - 1,), pos=True))))


def blocks(ck):
    for ext in (1, 0):
        geo = "exterior" if ext else "interior"
        for meth in ("blockmatrices", "blockmatrices_channels", "blockmatrices_debug", "single_m"):
            for z in ("", ", leading zero"):
                def go():
                    s = GSetup(ck, ext, "m >= 1")
                    w, st = s.w, s.st
                    k = zero_first(w, st, s.N) if z else s.k
                    o = s.obj()
                    f, wh = s.method(meth, o)
                    g = Guard(w, st, **dict({"wavenumbers": k}, **{"material %s" % c: s.mats[c].ref for c in "abc"}))
                    w.ip.call(f, [Sc(s.m, "i"), k], {}, st)
                    g.check(ck, "%s, %s%s" % (meth, geo, z), wh)
                ck.run("%s, %s%s" % (meth, geo, z), go)

    def lists():
        s = GSetup(ck, 1, "m >= 1")
        w, st = s.w, s.st
        for c in "de":
            s.mats[c] = Mat(w, st, c)
        lst = lambda *v: w.ip.mklist(st, list(v))
        m = s.mats
        r1, r2 = lst(Sc(pos("r1i")), Sc(s.r1)), lst(Sc(pos("r2i")), Sc(s.r2))
        m1, m2 = lst(m["a"].ref, m["d"].ref, m["c"].ref), lst(m["b"].ref, m["e"].ref, m["c"].ref)
        g = Guard(w, st, **{"radii 1": r1, "radii 2": r2, "materials 1": m1, "materials 2": m2})
        o = w.call(st, w.get("geometry", "SphereSphere"), r1, r2, Sc(s.L), m1, m2, m["c"].ref, lmax=Sc(s.lmax, "i"), lssmax=Sc(s.lss, "i"))
        f, wh = s.method("blockmatrices", o)
        w.ip.call(f, [Sc(s.m, "i"), s.k], {}, st)
        w.ip.call(f, [Sc(A.ZERO, "i"), s.k], {}, st)
        g.check(ck, "layered spheres", wh)
    ck.run("layered spheres", lists)

    def automatic():
        """lists of radii survive the automatic choice of truncation and frequency cut-off"""
        t = Thermo(ck)
        w, st, s = t.w, t.st, t.S
        for c in "de":
            s.mats[c] = Mat(w, st, c)
        lst = lambda *v: w.ip.mklist(st, list(v))
        m = s.mats
        r1, r2 = lst(Sc(pos("r1i")), Sc(s.r1)), lst(Sc(pos("r2i")), Sc(s.r2))
        m1, m2 = lst(m["a"].ref, m["d"].ref, m["c"].ref), lst(m["b"].ref, m["e"].ref, m["c"].ref)
        g = Guard(w, st, **{"radii 1": r1, "radii 2": r2, "materials 1": m1, "materials 2": m2})
        K = w.get("geometry", "SphereSphere")
        o = w.call(st, K, r1, r2, Sc(s.L), m1, m2, m["c"].ref)
        g2 = Guard(w, st, geometry=o)
        w.call(st, t.cls, Sc(t.dT), "automatic", Sc(t.Tmax), o)
        g.check(ck, "automatic truncation", w.where(K))
        g2.check(ck, "automatic frequency cut-off", w.where(t.cls))
    ck.run("automatic", automatic)


def msums(ck):
    for meth in ("mSumme", "mSum_oneRoundtrip", "mSum_roundtrips", "mSum_trace_dot", "supermatrix"):
        for z in ("", ", leading zero"):
            if z and meth != "mSumme":
                continue

            def go():
                S = Sums(ck)
                w, st = S.w, S.st
                S.lmax = R(2)
                N = posint("N")
                k = zero_first(w, st, N) if z else w.ip.mkarr(st, ArrVal([N], lambda i: A.mk("k", (i[0],), pos=True)))
                o = S.obj()
                f = w.ip.getattr(o, meth, st)
                w.ip.contracts["geometry.trace_dot_3d"] = lambda ip, args, kw, st, node: ip.mkarr(st, ArrVal([N], lambda x: A.mk(
                    "TD", (A.mk("k", (x[0],), pos=True),))))
                g = Guard(w, st, wavenumbers=k)
                w.ip.call(f, ([Sc(R(1), "i")] if meth == "supermatrix" else []) + [k] + ([Sc(R(2), "i")] if meth == "mSum_roundtrips" else []), {}, st)
                g.check(ck, meth + z, w.where(f))
            ck.run(meth + z, go)

    def powers():
        S = Sums(ck)
        w, st = S.w, S.st
        N, n = posint("N"), posint("n")
        M = w.ip.mkarr(st, ArrVal([N, n, n], lambda i: A.mk("M", tuple(i))))
        o = S.obj()
        f = w.ip.getattr(o, "arbitrary_roundtrips", st)
        g = Guard(w, st, matrices=M)
        w.ip.call(f, [M, Sc(R(3), "i"), Sc(A.ZERO, "i")], {}, st)
        g.check(ck, "arbitrary_roundtrips", w.where(f))
    ck.run("arbitrary_roundtrips", powers)

    def scaling():
        for name, lead in (("single_k_scale", 0), ("dynamic_scaling", 1)):
            w = World(ck, "geometry")
            st = w.state()
            f = w.get("geometry", name)
            N, n, t = posint("N"), posint("n") + 1, posint("t")
            M = w.ip.mkarr(st, ArrVal([N, n, n, t][1 - lead:], lambda i: A.mk("M", tuple(i))))
            g = Guard(w, st, logarithms=M)
            w.ip.call(f, [M], {}, st)
            g.check(ck, name, w.where(f))
    ck.run("scaling", scaling)


def thermo(ck):
    for cls in ("finiteT", "oneRoundtrip"):
        for z in ("", ", leading zero"):
            for an in (True, False):
                if cls == "oneRoundtrip" and not an:
                    continue

                def go():
                    t = Thermo(ck, cls)
                    w, st = t.w, t.st
                    o = t.obj(**({} if an else {"analytic_n0": False}))
                    f, wh = t.method(o, "F_alle")
                    N = posint("N")
                    k = zero_first(w, st, N) if z else w.ip.mkarr(st, ArrVal([N], lambda i: A.mk("k", (i[0],), pos=True)))
                    g = Guard(w, st, frequencies=k, geometry=t.geom)
                    w.ip.call(f, [k], {}, st)
                    g.check(ck, "%s.F_alle%s%s" % (cls, z, "" if an else ", numerical"), wh)
                ck.run("%s.F_alle%s" % (cls, z), go)

        def energies():
            for meth in ("free_energy", "entropy", "e0"):
                t = Thermo(ck, cls)
                t.whole()
                t.Tmax = 3 * t.dT
                w, st = t.w, t.st
                o = t.obj()
                f, wh = t.method(o, meth)
                g = Guard(w, st, geometry=t.geom)
                w.ip.call(f, [], {}, st)
                g.check(ck, "%s.%s" % (cls, meth), wh)
        ck.run(cls + " energies", energies)


def pfa(ck):
    for mod in ("PFA", "raw_PFA"):
        for z in ("", ", leading zero"):
            def go():
                s = Plates(ck, mod)
                w, st = s.w, s.st
                N = posint("N")
                k = zero_first(w, st, N) if z else w.ip.mkarr(st, ArrVal([N], lambda i: A.mk("k", (i[0],), pos=True)))
                o = s.obj()
                f = w.ip.getattr(o, "get_f_matsubaras", st)
                g = Guard(w, st, **dict({"frequencies": k}, **{"material %s" % c: s.m[c].ref for c in "abc"}))
                w.ip.call(f, [Sc(s.T), Sc(s.L), k], {}, st)
                g.check(ck, "%s.get_f_matsubaras%s" % (mod, z), w.where(f))
            ck.run("%s%s" % (mod, z), go)


def tools(ck):
    def derivative():
        for ip_ in (False,):
            w = World(ck, "helper_functions")
            st = w.state()
            f = w.get("helper_functions", "num_derivative")
            n = posint("n") + 4
            y = w.ip.mkarr(st, ArrVal([n], lambda i: A.mk("f", (i[0],))))
            x = w.ip.mkarr(st, ArrVal([n], lambda i: A.sym("x0") + i[0] * pos("step")))
            g = Guard(w, st, values=y, grid=x)
            w.ip.call(f, [y, x], {}, st)
            g.check(ck, "num_derivative", w.where(f))
    ck.run("num_derivative", derivative)

    def convert():
        w = World(ck, "materials_converter")
        st = w.state()
        f = w.get("materials_converter", "transform")
        rows = [w.ip.mklist(st, [Sc(pos("f%d" % i)), Sc(pos("w%d" % i))]) for i in range(3)]
        p = w.ip.mklist(st, rows)
        g = Guard(w, st, parameters=p)
        w.ip.call(f, [p], {}, st)
        g.check(ck, "transform", w.where(f))
    ck.run("transform", convert)

    def interp():
        w = World(ck, "data_inter_extrapolation")
        st = w.state()
        K = w.get("data_inter_extrapolation", "data_interp_extrap")
        n, m = posint("nd") + 1, posint("md") + 1
        xd = w.ip.mkarr(st, ArrVal([n], lambda i: A.mk("xd", (i[0],), pos=True)))
        yd = w.ip.mkarr(st, ArrVal([n], lambda i: A.mk("yd", (i[0],), pos=True)))
        om = w.ip.mkarr(st, ArrVal([m], lambda i: A.mk("om", (i[0],), pos=True)))
        g = Guard(w, st, data=xd, values=yd, frequencies=om)
        o = w.call(st, K, xd, yd)
        f = w.ip.getattr(o, "get_drude_data", st)
        w.ip.call(f, [om], {}, st)
        g.check(ck, "get_drude_data", w.where(f))
    ck.run("get_drude_data", interp)
