"""C07-C13: scattering coefficients."""
from ..model import *
from .. import evalr
from . import prop
from .bessel import bessel_contracts, lni, lnk

PI = A.mk("pi")
ASSUME = ("floating-point rounding is not modelled",
          "the Bessel functions are those decided by C05/C06",
          "permittivities and permeabilities are positive (materials are uninterpreted)")


class Mat:
    """uninterpreted material: positive response functions, chosen class flags"""

    def __init__(self, w, st, name, pec=False, sigma=True, diel=True, magnetic=True, osc=None, b=True):
        self.w, self.name = w, name
        ip = w.ip
        cls = "SymMat:" + name
        e = osc if osc is not None else w.ip.mksym(st, A.sym("nosc_" + name, integer=True, pos=True), lambda j: Tup(
            [Sc(A.mk("wP_" + name, (j,), nonneg=True)), Sc(A.mk("wR_" + name, (j,), nonneg=True)),
             Sc(A.mk("gam_" + name, (j,), nonneg=True))]))
        attrs = {"is_perfect_conductor": pec, "is_sigma_finite": sigma and not pec, "is_dielectric": diel,
                 "is_magnetic": magnetic, "name": name, "e_properties": e,
                 "b_properties": Tup([Sc(pos("mus_" + name)), Sc(pos("wm_" + name))]) if b else Tup([]),
                 "omega_norm": Sc(R(299800000000000))}
        self.ref = ip.mkobj(st, cls, attrs, label=name)
        for m, h in (("epsilon", "EPS_" + name), ("mu", "MU_" + name)):
            ip.contracts[("attr", cls, m)] = lambda ip, o, st, h=h: Intr("call:" + h)
            ip.contracts["call:" + h] = lambda ip, args, kw, st, node, h=h: self.resp(st, h, args, kw)

    def resp(self, st, h, args, kw):
        k = args[0] if args else list(kw.values())[0]
        if isinstance(k, Phi):
            return self.w.ip.lift_st(lambda x, s: self.resp(s, h, [x], {}), k, st)
        if isinstance(k, Sc):
            return Sc(A.lift(lambda y: A.mk(h, (y,), pos=True), k.e), "F")
        av = NP.toarr(self.w.ip, st, k)
        return self.w.ip.mkarr(st, ArrVal(av.shape, lambda ix: A.lift(lambda y: A.mk(h, (y,), pos=True), av.at(ix))))

    def eps(self, k):
        return A.mk("EPS_" + self.name, (k,), pos=True)

    def mu(self, k):
        return A.mk("MU_" + self.name, (k,), pos=True)

    def n(self, k):
        return A.sqrt(self.eps(k) * self.mu(k))


def iD(l, x):
    """-l + x i_{l-1}/i_l"""
    return -l + x * A.exp(lni(l - 1, x) - lni(l, x))


def kD(l, x):
    return -l - x * A.exp(lnk(l - 1, x) - lnk(l, x))


def sgn(l):
    return A.neg1pow(l)


def ext(l, k, r, mi, me, pol):
    """exterior coefficient without its scale factor"""
    xi, xe = k * r * mi.n(k), k * r * me.n(k)
    a, b = (me.mu(k), mi.mu(k)) if pol == 0 else (me.eps(k), mi.eps(k))
    return (a * iD(l, xi) - b * iD(l, xe)) / (a * iD(l, xi) - b * kD(l, xe)) * sgn(l) * PI / 2


def ext_scale(l, k, r, me):
    x = k * r * me.n(k)
    return lni(l, x) - lnk(l, x)


def intr(l, k, r, mi, me, pol):
    xi, xe = k * r * mi.n(k), k * r * me.n(k)
    a, b = (me.mu(k), mi.mu(k)) if pol == 0 else (me.eps(k), mi.eps(k))
    return (a * kD(l, xi) - b * kD(l, xe)) / (a * iD(l, xi) - b * kD(l, xe)) * sgn(l) * 2 / PI


def int_scale(l, k, r, mi):
    x = k * r * mi.n(k)
    return lnk(l, x) - lni(l, x)


def shell(l, k, r, mi, me, inner, pol):
    """outer coefficient of a core with (unscaled) coefficient inner, coated up to r"""
    xi, xe = k * r * mi.n(k), k * r * me.n(k)
    a, b = (me.mu(k), mi.mu(k)) if pol == 0 else (me.eps(k), mi.eps(k))
    t = inner * sgn(l) * 2 / PI * A.exp(lnk(l, xi) - lni(l, xi))
    return sgn(l) * PI / 2 * ((kD(l, xi) * a - iD(l, xe) * b) * t - (iD(l, xi) * a - iD(l, xe) * b)) / (
        (kD(l, xi) * a - kD(l, xe) * b) * t - (iD(l, xi) * a - kD(l, xe) * b))


class Setup:
    def __init__(self, ck, *mods):
        self.ck = ck
        self.w = World(ck, *(mods or ("bessel_sk", "scattering", "materials")))
        bessel_contracts(self.w)
        self.st = self.w.state()
        self.N = posint("N")
        self.k = self.w.ip.mkarr(self.st, ArrVal([self.N], lambda i: A.mk("k", i, pos=True)))
        self.q, self.j = index("q"), index("j")
        self.kq = A.mk("k", (self.q,), pos=True)
        self.lmin = posint("lmin")
        self.d = index("dl")
        self.lmax = self.lmin + self.d
        self.l = self.lmin + self.j
        self.r = pos("r")
        self.ff = (self.N - self.q - 1, self.d - self.j)

    def mat(self, name, **kw):
        return Mat(self.w, self.st, name, **kw)

    def method(self, cls, args, name, mod="scattering"):
        K = self.w.get(mod, cls)
        o = self.w.call(self.st, K, *args)
        f = self.w.ip.getattr(o, name, self.st)
        return f, self.w.where(f)

    def coeffs(self, cls, args, name, extra, mod="scattering"):
        """(TE, TM, scale) at wavenumber q and order lmin+j; argument order follows the interface"""
        f, wh = self.method(cls, args, name, mod)
        v = self.w.call(self.st, f, *extra)
        with A.facts(*self.ff):
            returns(self.ck, "%s.%s returns for every wavenumber array and order range" % (cls, name), self.st, where=wh)
            return [self.w.at(self.st, v, R(p), self.q, self.j) for p in range(3)], wh

    def std(self, r=None):
        return [self.k, Sc(self.lmin, "i"), Sc(self.lmax, "i"), Sc(r if r is not None else self.r)]


def scaled(v, s):
    return A.lift(lambda a, b: a * A.exp(b), v, s)


def ratio_only(ck, name, e, wh, ff):
    """the coefficient is built from ratios of neighbouring orders: multiplying all
    orders of a function at one argument by a common factor leaves it unchanged"""
    def fn(at, args):
        if at.head in ("LNI", "LNK"):
            return A.mk(at.head, tuple(args)) + A.mk("gauge" + at.head, (args[1],))
        return None
    with A.facts(*ff):
        e2 = A.subst(e, {}, fn)
    return ck.eq(name, e2, e, wh, ff, how="invariant under a common factor of all orders")


def compare(ck, s, tag, got, wh, want, scale, inner=False):
    for p, pol in enumerate(("TE", "TM")):
        ck.eq("%s: %s coefficient times its scale factor" % (tag, pol), scaled(got[p], got[2]),
              want(p) * A.exp(scale), wh, s.ff)
        ck.eq("%s: %s coefficient" % (tag, pol), got[p], want(p), wh, s.ff)
    ck.eq("%s: logarithm of the scale factor" % tag, got[2], scale, wh, s.ff)


@prop("C07", "Value graph of the exterior Mie coefficients for uninterpreted materials, symbolic radius, wavenumber array "
      "and order range, compared with the boundary-condition formula.",
      "coefficient and log scale equal the closed formula at every wavenumber index and order (normal forms)", ASSUME)
def c07(ck):
    def diel():
        s = Setup(ck)
        a, b = s.mat("a"), s.mat("b")
        got, wh = s.coeffs("scattering", (a.ref, b.ref), "mie", s.std())
        compare(ck, s, "sphere in a medium", got, wh, lambda p: ext(s.l, s.kq, s.r, a, b, p),
                ext_scale(s.l, s.kq, s.r, b))
    ck.run("material sphere", diel)

    def pec():
        s = Setup(ck)
        a, b = s.mat("a", pec=True), s.mat("b")
        got, wh = s.coeffs("scattering", (a.ref, b.ref), "mie", s.std())
        x = s.kq * s.r * b.n(s.kq)
        compare(ck, s, "perfectly conducting sphere in a medium", got, wh,
                lambda p: sgn(s.l) * PI / 2 * (A.RONE if p == 0 else iD(s.l, x) / kD(s.l, x)),
                ext_scale(s.l, s.kq, s.r, b))
    ck.run("perfectly conducting sphere", pec)


@prop("C08", "Value graph of the interior (cavity) reflection coefficients, as C07.",
      "coefficient and log scale equal the closed formula at every wavenumber index and order (normal forms)", ASSUME)
def c08(ck):
    def diel():
        s = Setup(ck)
        a, b = s.mat("a"), s.mat("b")
        got, wh = s.coeffs("scattering", (a.ref, b.ref), "mie_internal", s.std())
        compare(ck, s, "cavity in a medium", got, wh, lambda p: intr(s.l, s.kq, s.r, a, b, p),
                int_scale(s.l, s.kq, s.r, a))
    ck.run("material cavity", diel)

    def pec():
        s = Setup(ck)
        a, b = s.mat("a"), s.mat("b", pec=True)
        got, wh = s.coeffs("scattering", (a.ref, b.ref), "mie_internal", s.std())
        x = s.kq * s.r * a.n(s.kq)
        compare(ck, s, "cavity in a perfect conductor", got, wh,
                lambda p: sgn(s.l) * 2 / PI * (A.RONE if p == 0 else kD(s.l, x) / iD(s.l, x)),
                int_scale(s.l, s.kq, s.r, a))
    ck.run("perfectly conducting cavity", pec)


def strat(ck, layers, same_tail=False):
    """value graph and oracle of a sphere with the given number of layers"""
    s = Setup(ck, "bessel_sk", "scattering", "stratified_sphere_scattering", "materials")
    ms = [s.mat("m%d" % i) for i in range(layers + 1)]
    if same_tail:
        ms[-1] = ms[-2]
    rs = [pos("r%d" % i) for i in range(layers)]
    ml = s.w.ip.mklist(s.st, [m.ref for m in ms])
    rl = s.w.ip.mklist(s.st, [Sc(r) for r in rs])
    got, wh = s.coeffs("StratifiedMieScattering", (ml, rl), "mie_stratified",
                       [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i")], "stratified_sphere_scattering")
    return s, ms, rs, got, wh


def strat_oracle(s, ms, rs, p):
    t = ext(s.l, s.kq, rs[0], ms[0], ms[1], p)
    sc = ext_scale(s.l, s.kq, rs[0], ms[1])
    for i in range(1, len(rs)):
        t = shell(s.l, s.kq, rs[i], ms[i], ms[i + 1], t * A.exp(sc), p)
        sc = ext_scale(s.l, s.kq, rs[i], ms[i + 1])
    return t, sc


@prop("C09", "Value graph of the coefficients of coated and multi-layer spheres, compared with the layer recursion.",
      "coefficient and log scale equal the boundary-condition recursion for 1 to 3 layers with symbolic radii, materials, "
      "wavenumbers and orders", ASSUME + ("more than three layers repeat the same layer step",))
def c09(ck):
    def coated():
        s = Setup(ck)
        a, b, c = s.mat("a"), s.mat("b"), s.mat("c")
        ri, ra = pos("ri"), pos("ra")
        got, wh = s.coeffs("coated_miescattering", (a.ref, b.ref, c.ref), "mie_coated",
                           [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(ri), Sc(ra)])
        compare(ck, s, "coated sphere", got, wh,
                lambda p: shell(s.l, s.kq, ra, b, c, ext(s.l, s.kq, ri, a, b, p) *
                                A.exp(ext_scale(s.l, s.kq, ri, b)), p), ext_scale(s.l, s.kq, ra, c))
    ck.run("coated sphere", coated)

    def coated_pec():
        s = Setup(ck)
        a, b, c = s.mat("a", pec=True), s.mat("b"), s.mat("c")
        ri, ra = pos("ri"), pos("ra")
        got, wh = s.coeffs("coated_miescattering", (a.ref, b.ref, c.ref), "mie_coated",
                           [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(ri), Sc(ra)])
        x = s.kq * ri * b.n(s.kq)
        compare(ck, s, "coated perfectly conducting sphere", got, wh,
                lambda p: shell(s.l, s.kq, ra, b, c, sgn(s.l) * PI / 2 * (
                    A.RONE if p == 0 else iD(s.l, x) / kD(s.l, x)) * A.exp(ext_scale(s.l, s.kq, ri, b)), p),
                ext_scale(s.l, s.kq, ra, c))
    ck.run("coated perfectly conducting sphere", coated_pec)
    for layers in (1, 2, 3):
        def st_():
            s, ms, rs, got, wh = strat(ck, layers)
            for p, pol in enumerate(("TE", "TM")):
                t, sc = strat_oracle(s, ms, rs, p)
                ck.eq("%d-layer sphere: %s coefficient" % (layers, pol), got[p], t, wh, s.ff)
            ck.eq("%d-layer sphere: logarithm of the scale factor" % layers, got[2], sc, wh, s.ff)
        ck.run("%d-layer sphere" % layers, st_)

    def tail():
        s, ms, rs, got, wh = strat(ck, 3, same_tail=True)
        for p, pol in enumerate(("TE", "TM")):
            t, sc = strat_oracle(s, ms[:-1], rs[:-1], p)
            ck.eq("outermost layer of the medium's material is ignored: %s" % pol, scaled(got[p], got[2]),
                  t * A.exp(sc), wh, s.ff)
    ck.run("outer layer equal to the medium", tail)


def mat_by_kind(s, name, kind):
    """material of a conductivity class, with the oscillator list that defines the class"""
    if kind == "pec":
        return s.mat(name, pec=True, diel=False)
    mk = lambda j, a, b, c: Tup([Sc(a), Sc(b), Sc(c)])
    p = lambda t: pos("%s_%s" % (t, name))
    if kind == "dielectric":
        osc = [mk(0, p("wP0"), p("wR0"), nonneg("g0_" + name)), mk(1, p("wP1"), p("wR1"), nonneg("g1_" + name))]
        return s.mat(name, osc=s.w.ip.mklist(s.st, osc))
    if kind == "vacuum":
        return s.mat(name, osc=Tup([]))
    if kind == "drude":
        osc = [mk(0, p("wP0"), A.ZERO, p("gD")), mk(1, p("wP1"), p("wR1"), nonneg("g1_" + name))]
        return s.mat(name, sigma=True, diel=False, osc=s.w.ip.mklist(s.st, osc))
    if kind == "plasma":
        osc = [mk(0, p("wP0"), A.ZERO, A.ZERO), mk(1, p("wP1"), p("wR1"), nonneg("g1_" + name))]
        return s.mat(name, sigma=False, diel=False, osc=s.w.ip.mklist(s.st, osc))
    if kind == "plasma-last":
        osc = [mk(1, p("wP1"), p("wR1"), nonneg("g1_" + name)), mk(0, p("wP0"), A.ZERO, A.ZERO)]
        return s.mat(name, sigma=False, diel=False, osc=s.w.ip.mklist(s.st, osc))
    raise KeyError(kind)


def wplasma(name):
    return pos("wP0_" + name)


def fraction_contract(w):
    """ratio of neighbouring regular functions (decided by C06)"""
    def h(ip, args, kw, st, node):
        x, nu = args[0], args[1]
        xa, na = NP.toarr(ip, st, x), NP.toarr(ip, st, nu)
        half = R(1) / 2
        return ip.mkarr(st, ArrVal([na.shape[0], xa.shape[0]], lambda ix: A.lift(
            lambda n, y: A.exp(lni(n - half, y) - lni(n + half, y)), na.at((ix[0],)), xa.at((ix[1],)))))
    w.ip.contracts["bessel_sk.i_fraction"] = h


def ln_scale0(l):
    """ln[(2l+1) ((2l-1)!!)^2]"""
    return A.log(2 * l + 1) + 2 * ln_odd(l)


def ln_odd(l):
    """ln (2l-1)!! = ln (2l)! - l ln 2 - ln l!"""
    return A.lgamma(2 * l + 1) - l * A.log(R(2)) - A.lgamma(l + 1)


def k0_setup(ck, ka, kb):
    s = Setup(ck)
    fraction_contract(s.w)
    a, b = mat_by_kind(s, "a", ka), mat_by_kind(s, "b", kb)
    return s, a, b


@prop("C10", "Value graph of the zero-frequency coefficients for every conductivity class of sphere and medium, compared "
      "with the analytic static limit of the finite-frequency formula.",
      "coefficient and log scale equal the static limit at every order; conducting media are rejected",
      ASSUME + ("a dissipationless conductor has a single free-carrier oscillator",))
def c10(ck):
    z = A.ZERO
    for ka in ("dielectric", "vacuum", "drude", "plasma", "plasma-last", "pec"):
        for kb in ("dielectric", "vacuum"):
            def outer():
                s, a, b = k0_setup(ck, ka, kb)
                f, wh = s.method("scattering", (a.ref, b.ref), "mie_k0")
                v = s.w.call(s.st, f, Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(s.r))
                l, me, mi, ee, ei = s.l, b.mu(z), a.mu(z), b.eps(z), a.eps(z)
                Ai = l + 1
                if ka.startswith("plasma"):
                    Ai = iD(l, wplasma("a") * s.r / R(299800000000000) * A.sqrt(mi))
                te = (me * Ai - mi * (l + 1)) / (me * Ai + mi * l) if ka != "pec" else A.RONE
                tm = (ee - ei) * (l + 1) / (ee * (l + 1) + ei * l) if ka in ("dielectric", "vacuum") else -(l + 1) / l
                tag = "static, %s sphere in %s" % (ka, kb)
                with A.facts(*s.ff):
                    returns(ck, tag + " returns", s.st, where=wh)
                    g = [s.w.at(s.st, v, R(p), s.j) for p in range(3)]
                ck.eq(tag + ": TE", g[0], te * sgn(l), wh, s.ff)
                ck.eq(tag + ": TM", g[1], tm * sgn(l), wh, s.ff)
                ck.eq(tag + ": logarithm of the scale factor", g[2], -ln_scale0(l), wh, s.ff)
            ck.run("static exterior %s/%s" % (ka, kb), outer)

            def inner():
                s, b_, a_ = k0_setup(ck, ka, kb)
                # cavity filled with a_ inside the (conducting) material b_
                f, wh = s.method("scattering", (a_.ref, b_.ref), "mie_internal_k0")
                v = s.w.call(s.st, f, Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(s.r))
                l, mi, me, ei, ee = s.l, a_.mu(z), b_.mu(z), a_.eps(z), b_.eps(z)
                Ke = -l
                if ka.startswith("plasma"):
                    Ke = kD(l, wplasma("a") * s.r / R(299800000000000) * A.sqrt(me))
                te = (-me * l - mi * Ke) / (me * (l + 1) - mi * Ke) if ka != "pec" else A.RONE
                tm = (ei - ee) * l / (ee * (l + 1) + ei * l) if ka in ("dielectric", "vacuum") else -l / (l + 1)
                tag = "static, cavity of %s in %s" % (kb, ka)
                with A.facts(*s.ff):
                    returns(ck, tag + " returns", s.st, where=wh)
                    g = [s.w.at(s.st, v, R(p), s.j) for p in range(3)]
                ck.eq(tag + ": TE", g[0], te * sgn(l), wh, s.ff)
                ck.eq(tag + ": TM", g[1], tm * sgn(l), wh, s.ff)
                ck.eq(tag + ": logarithm of the scale factor", g[2], ln_scale0(l), wh, s.ff)
            ck.run("static interior %s/%s" % (ka, kb), inner)
    for kb in ("drude", "plasma"):
        for meth in ("mie_k0", "mie_internal_k0"):
            def rej():
                s, a, b = k0_setup(ck, "dielectric", kb)
                ms = (a.ref, b.ref) if meth == "mie_k0" else (b.ref, a.ref)
                f, wh = s.method("scattering", ms, meth)
                s.w.ip.call(f, [Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(s.r)], {}, s.st)
                ck.truth("static coefficients in a conducting (%s) intervening medium are rejected" % kb, s.st.dead and
                         "NotImplementedError" in {n for c, n, _ in s.st.frame.raises}, wh, "accepted")
            ck.run("static rejection", rej)


SYSTEMS = ("mie", "mie_internal", "coated", "stratified", "fresnel")


def system(ck, kind, ms=None, n=None):
    """(setup, materials, [TE, TM], scale, where)"""
    if kind in ("mie", "mie_internal"):
        s = Setup(ck)
        mats = [s.mat("a"), s.mat("b")]
        if ms:
            mats = [mats[i] for i in ms]
        got, wh = s.coeffs("scattering", [m.ref for m in mats], kind, s.std())
        return s, mats, got[:2], got[2], wh
    if kind == "coated":
        s = Setup(ck)
        mats = [s.mat(x) for x in "abc"]
        if ms:
            mats = [mats[i] for i in ms]
        got, wh = s.coeffs("coated_miescattering", [m.ref for m in mats], "mie_coated",
                           [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(pos("ri")), Sc(pos("ra"))])
        return s, mats, got[:2], got[2], wh
    if kind == "stratified":
        s = Setup(ck, "bessel_sk", "scattering", "stratified_sphere_scattering", "materials")
        mats = [s.mat(x) for x in "abcd"]
        if ms:
            mats = [mats[i] for i in ms]
        rs = [pos("r%d" % i) for i in range(len(mats) - 1)]
        got, wh = s.coeffs("StratifiedMieScattering",
                           (s.w.ip.mklist(s.st, [m.ref for m in mats]), s.w.ip.mklist(s.st, [Sc(r) for r in rs])),
                           "mie_stratified", [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i")], "stratified_sphere_scattering")
        return s, mats, got[:2], got[2], wh
    s = Setup(ck)
    mats = [s.mat("a"), s.mat("b")]
    if ms:
        mats = [mats[i] for i in ms]
    f, wh = s.method("scattering", [m.ref for m in mats], "fresnel")
    v = s.w.call(s.st, f, Sc(nonneg("kperp")), Sc(pos("kn")))
    return s, mats, [v.items[0].e, v.items[1].e], A.ZERO, wh


def swap_response(e):
    def fn(at, args):
        if at.head.startswith("EPS_"):
            return A.mk("MU_" + at.head[4:], tuple(args), pos=True)
        if at.head.startswith("MU_"):
            return A.mk("EPS_" + at.head[3:], tuple(args), pos=True)
        return None
    return A.subst(e, {}, fn)


@prop("C11", "The value graph of the TE result is rewritten by exchanging permittivity and permeability of every material "
      "and compared with the TM result, for all scattering systems.",
      "TE with eps<->mu exchanged has the normal form of TM, and the scale factor is invariant", ASSUME)
def c11(ck):
    for kind in SYSTEMS:
        def go():
            s, mats, g, sc, wh = system(ck, kind, (0, 1, 2) if kind == "stratified" else None)
            with A.facts(*s.ff):
                a, b, c = swap_response(g[0]), swap_response(g[1]), swap_response(sc)
            ck.eq("%s: TE becomes TM" % kind, a, g[1], wh, s.ff)
            ck.eq("%s: TM becomes TE" % kind, b, g[0], wh, s.ff)
            ck.eq("%s: scale factor is common to both polarisations" % kind, c, sc, wh, s.ff)
        ck.run("duality of " + kind, go)


@prop("C12", "Value graphs of all scattering systems with coinciding neighbouring materials.",
      "no contrast gives a zero coefficient; a shell or core made of its neighbour's material is invisible", ASSUME)
def c12(ck):
    for kind in ("mie", "mie_internal", "fresnel"):
        def go():
            s, mats, g, sc, wh = system(ck, kind, (0, 0))
            for p, pol in enumerate(("TE", "TM")):
                ck.eq("%s without material contrast: %s vanishes" % (kind, pol), g[p], A.ZERO, wh, s.ff)
        ck.run("no contrast, " + kind, go)
    for meth in ("mie_k0", "mie_internal_k0"):
        def st0():
            s = Setup(ck)
            fraction_contract(s.w)
            a = mat_by_kind(s, "a", "dielectric")
            f, wh = s.method("scattering", (a.ref, a.ref), meth)
            v = s.w.call(s.st, f, Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(s.r))
            with A.facts(*s.ff):
                for p, pol in enumerate(("TE", "TM")):
                    ck.eq("%s without material contrast: %s vanishes" % (meth, pol), s.w.at(s.st, v, R(p), s.j),
                          A.ZERO, wh, s.ff)
        ck.run("no contrast, " + meth, st0)
    cases = [("coated", (0, 0, 2), "core of the coating's material", lambda s, m, p: (
                ext(s.l, s.kq, pos("ra"), m[0], m[2], p), ext_scale(s.l, s.kq, pos("ra"), m[2]))),
             ("coated", (0, 1, 1), "coating of the medium's material", lambda s, m, p: (
                 ext(s.l, s.kq, pos("ri"), m[0], m[1], p), ext_scale(s.l, s.kq, pos("ri"), m[1]))),
             ("coated", (0, 0, 0), "everything of one material", lambda s, m, p: (A.ZERO, A.ZERO)),
             ("stratified", (0, 0, 2), "core of the layer's material", lambda s, m, p: (
                 ext(s.l, s.kq, pos("r1"), m[0], m[2], p), ext_scale(s.l, s.kq, pos("r1"), m[2]))),
             ("stratified", (0, 1, 1), "layer of the medium's material", lambda s, m, p: (
                 ext(s.l, s.kq, pos("r0"), m[0], m[1], p), ext_scale(s.l, s.kq, pos("r0"), m[1]))),
             ("stratified", (0, 1, 1, 3), "inner layer of the outer layer's material",
              lambda s, m, p: strat_oracle_at(s, [m[0], m[1], m[3]], [pos("r0"), pos("r2")], p)),
             ]
    for kind, ms, tag, want in cases:
        def go2():
            s, mats, g, sc, wh = system(ck, kind, ms)
            for p, pol in enumerate(("TE", "TM")):
                t, w0 = want(s, mats, p)
                ck.eq("%s sphere, %s: %s" % (kind, tag, pol), scaled(g[p], sc),
                      t * A.exp(w0), wh, s.ff)
        ck.run("%s, %s" % (kind, tag), go2)


def strat_oracle_at(s, ms, rs, p):
    return strat_oracle(s, ms, rs, p)


@prop("C13", "Value graph of the planar reflection coefficients.",
      "TE/TM equal the Fresnel formulas for uninterpreted materials; a perfect conductor reflects with -1 (TE), +1 (TM)",
      ASSUME)
def c13(ck):
    def go():
        s, m, g, sc, wh = system(ck, "fresnel")
        kp, kn = nonneg("kperp"), pos("kn")
        P, M = m
        sP = A.sqrt(kp * kp + kn * kn * P.eps(kn) * P.mu(kn))
        sM = A.sqrt(kp * kp + kn * kn * M.eps(kn) * M.mu(kn))
        ck.eq("TE reflection", g[0], (P.mu(kn) * sM - M.mu(kn) * sP) / (P.mu(kn) * sM + M.mu(kn) * sP), wh)
        ck.eq("TM reflection", g[1], (P.eps(kn) * sM - M.eps(kn) * sP) / (P.eps(kn) * sM + M.eps(kn) * sP), wh)
    ck.run("plate", go)

    def pec():
        s = Setup(ck)
        a, b = s.mat("a", pec=True), s.mat("b")
        f, wh = s.method("scattering", (a.ref, b.ref), "fresnel")
        v = s.w.call(s.st, f, Sc(nonneg("kperp")), Sc(pos("kn")))
        ck.eq("TE reflection at a perfect conductor", v.items[0], R(-1), wh)
        ck.eq("TM reflection at a perfect conductor", v.items[1], R(1), wh)
    ck.run("perfectly conducting plate", pec)
