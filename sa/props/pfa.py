"""C26, C27: plane-plane interaction and proximity-force approximation."""
from ..model import *
from . import prop
from .scatter import Mat

PI = A.mk("pi")
INF = None
ASSUME = ("floating-point rounding is not modelled", "quadrature is exact (an integral is a linear functional of its integrand)",
          "the reflection amplitudes are those decided by C13")
MODS = ("materials", "scattering")
FILES = ("PFA", "raw_PFA")


class Plates:
    def __init__(self, ck, mod, trips=True):
        self.ck, self.mod = ck, mod
        self.w = w = World(ck, *(MODS + (mod,)))
        self.st = st = w.state()
        self.m = {c: Mat(w, st, c) for c in "abc"}
        self.L, self.T = pos("L"), pos("T")
        w.ip.contracts["scattering.scattering.fresnel"] = self.fresnel
        if trips:
            for n, heads, tup in (("roundTrips", ("RTE", "RTM"), True), ("roundTrip", ("RTE", "RTM"), False),
                                  ("pressureRoundTrips", ("PTE", "PTM"), True), ("pressureRoundTrip", ("PTE", "PTM"), False)):
                w.ip.contracts["%s.SphereSpherePFA.%s" % (mod, n)] = self.trip(heads, tup)

    def fresnel(self, ip, args, kw, st, node):
        d = dict(zip(("self", "kperp", "kn"), args))
        d.update(kw)
        o = st.heap[d["self"].cell]
        labs = "".join(st.heap[o.attrs[x].cell].label for x in ("mat1", "mat2"))
        kp, kn = (self.one(ip, st, d[x]) for x in ("kperp", "kn"))
        return Tup([Sc(A.mk("F%s_%s" % (p, labs), (kp, kn)), "F") for p in ("TE", "TM")])

    def one(self, ip, st, v):
        if isinstance(v, Sc):
            return v.e
        av = NP.toarr(ip, st, v)
        if not all(s == A.RONE for s in av.shape):
            raise Unsupported("array-valued wavenumber of one round trip")
        return av.at(tuple(A.ZERO for _ in av.shape))

    def trip(self, heads, tup):
        def h(ip, args, kw, st, node):
            d = dict(zip(("self", "k_perp", "kn", "L"), args))
            d.update(kw)
            a = tuple(self.one(ip, st, d[x]) for x in ("k_perp", "kn", "L"))
            v = [A.lift(lambda *x, h=h: A.mk(h, x), *a) for h in heads]
            return Tup([Sc(x, "F") for x in v]) if tup else Sc(A.lift(lambda x, y: x + y, *v), "F")
        return h

    def obj(self):
        K = self.w.get(self.mod, "SphereSpherePFA")
        return self.w.call(self.st, K, *[self.m[c].ref for c in "abc"])

    def call(self, name, *args, **kw):
        f = self.w.ip.getattr(self.obj(), name, self.st)
        if isinstance(f, Unknown):
            raise Broken("%s.SphereSpherePFA.%s is gone" % (self.mod, name))
        self.wh = self.w.where(f)
        return self.w.call(self.st, f, *args, **kw)

    def scalar(self, v):
        sh = self.w.shape(self.st, v)
        if not all(s == A.RONE for s in sh):
            raise Unsupported("an array instead of a number")
        return self.w.at(self.st, v, *[A.ZERO] * len(sh))

    # -- exact expressions
    def inf(self):
        v = self.w.ip.eval(ast.parse("np.inf", mode="eval").body, self.state_with_np())
        return v.e

    def state_with_np(self):
        st = self.w.ip.new_state()
        st.env["np"] = self.w.env(self.mod)["np"]
        return st

    def plane(self, kn, heads=("RTE", "RTM"), L=None, lo=A.ZERO):
        """integral over the transverse momentum"""
        x = NP.bound_real()
        L = self.L if L is None else L
        return sum((NP.integrate(x, lo, self.inf(), x / (2 * PI) * A.mk(h, (x, kn, L))) for h in heads), A.ZERO)

    def sum(self, nmax, zero, heads=("RTE", "RTM"), T=None, L=None):
        n = A.fresh("n", nonneg=True)
        T = self.T if T is None else T
        return T * (zero + A.summation(n, nmax, self.plane((n + 1) * T, heads, L)))


def eps(n):
    return R(1) / 10 ** n


@prop("C26", "Value graphs of the plane-plane free energy, pressure, zero- and high-temperature limits for symbolic temperature, distance "
      "and uninterpreted reflection amplitudes, in both modules.",
      "one round trip contributes ln(1 - r1 r2 exp(-2 kappa L)) per polarisation and minus its distance derivative to the pressure; "
      "T/(2 pi) times the primed sum over frequencies of the transverse-momentum integral; T = 0 and T = inf limits; shielding "
      "removes exactly the zero-frequency term",
      ASSUME)
def c26(ck):
    for mod in FILES:
        def trips():
            for name, split in (("roundTrips", True), ("roundTrip", False), ("pressureRoundTrips", True), ("pressureRoundTrip", False)):
                s = Plates(ck, mod, trips=False)
                o = s.obj()
                try:
                    has = s.w.ip.getattr(o, name, s.st.fork())
                except Unsupported:
                    has = None
                if not isinstance(has, BoundM):
                    continue
                kp, kn = pos("kp"), pos("kn")
                v = s.call(name, Sc(kp), Sc(kn), Sc(s.L))
                kap = A.sqrt(kp * kp + s.m["c"].eps(kn) * s.m["c"].mu(kn) * kn * kn)
                ex = []
                for p in ("TE", "TM"):
                    e = A.mk("F%s_ac" % p, (kp, kn)) * A.mk("F%s_bc" % p, (kp, kn)) * A.exp(-2 * kap * s.L)
                    ex.append(A.log(1 - e) if not name.startswith("pressure") else -2 * kap * e / (1 - e))
                if split:
                    it = list(v.items) if isinstance(v, Tup) else s.st.heap[v.cell].items
                    for p, g, x in zip(("TE", "TM"), it, ex):
                        ck.eq("%s.%s, %s" % (mod, name, p), s.w.at(s.st, g), x, s.wh)
                else:
                    ck.eq("%s.%s" % (mod, name), s.w.at(s.st, v), ex[0] + ex[1], s.wh)
        ck.run(mod + ", round trips", trips)

        for shield in (False, True, None):
            tag = {False: "", True: ", shielded", None: ", shielding not given"}[shield]
            opt = [] if shield is None else [shield]

            def energy():
                s = Plates(ck, mod)
                v = s.call("planeplaneFreeEnergy", Sc(s.T), Sc(s.L), *opt)
                c = 20 if mod == "PFA" else 100
                nmax = A.floor(c / (s.T * s.L))
                z = A.ZERO if shield else s.plane(eps(10)) / 2
                ck.eq("%s, free energy%s" % (mod, tag), s.scalar(v), s.sum(nmax, z), s.wh)
            ck.run("%s, free energy%s" % (mod, tag), energy)

            def pressure():
                s = Plates(ck, mod)
                v = s.call("planeplanePressure", Sc(s.T), Sc(s.L), *opt)
                c = 20 if mod == "PFA" else 100
                nmax = A.floor(c / (s.T * s.L))
                P = ("PTE", "PTM")
                z = A.ZERO if shield else s.plane(eps(20), P) / 2
                ck.eq("%s, pressure%s" % (mod, tag), s.scalar(v), s.sum(nmax, z, P), s.wh)
            ck.run("%s, pressure%s" % (mod, tag), pressure)

            def ht():
                s = Plates(ck, mod)
                v = s.call("planeplaneFreeEnergyHT", Sc(s.L), *opt)
                lo = A.ZERO if mod == "PFA" else eps(10)
                ck.eq("%s, high temperature%s" % (mod, tag), s.scalar(v), A.ZERO if shield else s.plane(eps(20), lo=lo) / 2, s.wh)
                if mod == "PFA":
                    s = Plates(ck, mod)
                    v = s.call("planeplaneFreeEnergy", Sc(s.inf()), Sc(s.L), *opt)
                    ck.eq("%s, free energy at T = inf%s" % (mod, tag), s.scalar(v), A.ZERO if shield else s.plane(eps(20)) / 2, s.wh)
            ck.run("%s, high temperature%s" % (mod, tag), ht)

            def zero():
                for entry in ("planeplane_e0", "planeplaneFreeEnergy"):
                    s = Plates(ck, mod)
                    v = s.call(entry, *([Sc(A.ZERO, "i")] if entry != "planeplane_e0" else []) + [Sc(s.L)] + opt)
                    x = NP.bound_real()
                    ck.eq("%s, %s at T = 0%s" % (mod, entry, tag), s.scalar(v), NP.integrate(x, eps(20), s.inf(), s.plane(x)), s.wh)
            ck.run("%s, zero temperature%s" % (mod, tag), zero)

            def table():
                for first in ("positive", "zero"):
                    if first == "zero" and mod == "PFA":
                        continue
                    s = Plates(ck, mod)
                    w, st = s.w, s.st
                    N, q = posint("N"), index("q")
                    kf = lambda i: A.mk("k", (i,), pos=True)
                    e = (lambda i: A.ite(A.eq0(i[0]), A.ZERO, kf(i[0]))) if first == "zero" else (lambda i: kf(i[0]))
                    k = w.ip.mkarr(st, ArrVal([N], e))
                    ff = (N - q - 1,)
                    with A.facts(*ff):
                        v = s.call("get_f_matsubaras", Sc(s.T), Sc(s.L), k, *opt)
                        f0 = (lambda h: A.ZERO) if shield else (lambda h: s.plane(kf(A.ZERO) if first == "positive" else eps(20), h) / (2 if mod == "PFA" else 1))
                        for h in (("RTE",), ("RTM",)) if mod == "PFA" else (("RTE", "RTM"),):
                            want = lambda i: A.ite(A.eq0(i), f0(h), s.plane(kf(i), h))
                            ix = (R(0 if h == ("RTE",) else 1), q) if mod == "PFA" else (q,)
                            ck.eq("%s, single frequencies %s, first %s%s" % (mod, "+".join(h), first, tag), w.at(st, v, *ix), want(q), s.wh, ff)
            ck.run("%s, single frequencies%s" % (mod, tag), table)


@prop("C27", "Value graphs of the sphere-sphere proximity-force energy and force for symbolic radii, distance and temperature with an "
      "uninterpreted plane-plane energy; exterior and interior arrangement, either order of the radii.",
      "the force is 2 pi r1 r2/(r1 + r2) (interior: 2 pi r1 r2/|r2 - r1|) times the plane-plane energy at closest approach; the energy is "
      "the integral of the plane-plane energy over the projected area at the local distance; options reach the plane-plane energy",
      ASSUME + ("plane-plane energies are those decided by C26",))
def c27(ck):
    r = pos("r")
    d = pos("dr")

    def setup(mod):
        s = Plates(ck, mod)
        for n, h in (("planeplaneFreeEnergy", "PP"), ("planeplane_e0", "PP0"), ("planeplaneFreeEnergyHT", "PPH")):
            def c(ip, args, kw, st, node, n=n, h=h):
                names = ("self", "T", "L", "n0_shielding") if n == "planeplaneFreeEnergy" else ("self", "L", "n0_shielding")
                m = dict(zip(names, args))
                m.update(kw)
                sh = m.get("n0_shielding", False)
                if not isinstance(sh, bool):
                    raise Unsupported("shielding flag")
                a = ([m["T"].e] if "T" in m else []) + [m["L"].e, A.RONE if sh else A.ZERO]
                return Sc(A.lift(lambda *x: A.mk(h, x), *a), "F")
            s.w.ip.contracts["%s.SphereSpherePFA.%s" % (mod, n)] = c
        return s

    def area(s, top, dist, T, sh):
        x = NP.bound_real()
        return NP.integrate(x, A.ZERO, top, 2 * PI * x * A.mk("PP", (T, dist(x), sh)))
    for order, r1, r2 in (("r1 < r2", r, r + d), ("r1 > r2", r + d, r), ("r1 = r2", r, r)):
        for shield in (False, True):
            for how in ("keyword", "position", "default"):
                if how == "default" and shield:
                    continue
                kw = {"n0_shielding": shield} if how == "keyword" else {}
                po = [shield] if how == "position" else []
                sh = A.RONE if shield else A.ZERO
                tag = "%s, shielding %s by %s" % (order, "on" if shield else "off", how)

                def ext():
                    gap = pos("gap")
                    D = r1 + r2 + gap
                    s = setup("PFA")
                    v = s.call("spheresphereForce", Sc(r1), Sc(r2), Sc(s.T), Sc(D), *po, **kw)
                    ck.eq("PFA, exterior force, " + tag, s.scalar(v), 2 * PI * r1 * r2 / (r1 + r2) * A.mk("PP", (s.T, gap, sh)), s.wh)
                    s = setup("PFA")
                    v = s.call("spheresphereEnergy", Sc(r1), Sc(r2), Sc(s.T), Sc(D), *po, **kw)
                    dist = lambda x: D - A.sqrt(r1 * r1 - x * x) - A.sqrt(r2 * r2 - x * x)
                    ck.eq("PFA, exterior energy, " + tag, s.scalar(v), area(s, r, dist, s.T, sh), s.wh)
                ck.run("PFA exterior, " + tag, ext)

                def interior():
                    if order != "r1 < r2":
                        return
                    cc = pos("cc")
                    gap = pos("gap")
                    R2 = r1 + cc + gap
                    s = setup("PFA")
                    v = s.call("spheresphereForce", Sc(r1), Sc(R2), Sc(s.T), Sc(cc), *po, **kw)
                    ck.eq("PFA, interior force, " + tag, s.scalar(v), 2 * PI * r1 * R2 / (R2 - r1) * A.mk("PP", (s.T, gap, sh)), s.wh)
                    s = setup("PFA")
                    v = s.call("spheresphereEnergy", Sc(r1), Sc(R2), Sc(s.T), Sc(cc), *po, **kw)
                    dist = lambda x: A.sqrt(R2 * R2 - x * x) - cc - A.sqrt(r1 * r1 - x * x)
                    ck.eq("PFA, interior energy, " + tag, s.scalar(v), area(s, r1, dist, s.T, sh), s.wh)
                ck.run("PFA interior, " + tag, interior)

                def raw():
                    for ex in (True, False):
                        if not ex and order != "r1 < r2":
                            continue
                        red = r1 * r2 / (r1 + r2) if ex else r1 * r2 / (r2 - r1)
                        for meth, pre in (("spheresphereForce", lambda s: 2 * PI * red), ("spheresphereEnergy", lambda s: PI * s.L * red)):
                            for tn in ("finite", "zero", "infinite"):
                                s = setup("raw_PFA")
                                T = {"finite": s.T, "zero": A.ZERO, "infinite": s.inf()}[tn]
                                kk = dict(kw)
                                if not ex:
                                    kk["ext"] = False
                                v = s.call(meth, Sc(r1), Sc(r2), Sc(T), Sc(s.L), *po, **kk)
                                pp = {"finite": A.mk("PP", (s.T, s.L, sh)), "zero": A.mk("PP0", (s.L, sh)), "infinite": A.mk("PPH", (s.L, sh))}[tn]
                                ck.eq("raw_PFA, %s %s, T %s, %s" % ("exterior" if ex else "interior", meth, tn, tag), s.scalar(v), pre(s) * pp, s.wh)
                ck.run("raw_PFA, " + tag, raw)

    def exchange():
        """the distance profile is the same for either order of the spheres"""
        s = setup("PFA")
        gap = pos("gap")
        D = 2 * r + d + gap
        a = s.call("distance", Sc(r), Sc(r + d), Sc(D), Sc(A.sym("rho", nonneg=True)))
        b = s.call("distance", Sc(r + d), Sc(r), Sc(D), Sc(A.sym("rho", nonneg=True)))
        ck.eq("exterior distance profile is symmetric in the spheres", s.scalar(a), s.scalar(b), s.wh)
    ck.run("exchange", exchange)
