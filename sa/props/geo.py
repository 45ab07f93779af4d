"""C18-C24, C33: round-trip operator, linear algebra and sums over the magnetic quantum number."""
import mpmath
from ..model import *
from .. import evalr
from .. import loops as LP
from . import prop
from .scatter import Mat

MODS = ("scattering", "stratified_sphere_scattering", "materials", "translation", "matrix_balancing", "geometry")
ASSUME = ("floating-point rounding is not modelled",)


def argmap(names, args, kw):
    d = dict(zip(names, args))
    d.update(kw)
    return d


def lift_num(e, f):
    return A.lift(f, e)


def matlabel(ip, st, v):
    if isinstance(v, Ref) and isinstance(st.heap.get(v.cell), ObjVal):
        return st.heap[v.cell].label
    return None


def seq(st, v):
    return list(v.items) if isinstance(v, Tup) else list(st.heap[v.cell].items)


def arr3(ip, st, f, n, N, dtype="f"):
    """array (3, N, n) from f(component, q, j)"""
    return ip.mkarr(st, ArrVal([R(3), N, n], lambda ix: NP.select(ix[0], [lambda c=c: f(c, ix[1], ix[2]) for c in range(3)])))


NAMES = ("TE", "TM", "LN")


def mie_contracts(w):
    """scattering coefficients -> uninterpreted functions of wavenumber, order and radius (decided by C07-C12)"""
    def finite(cls, method, names, tag):
        def h(ip, args, kw, st, node):
            d = argmap(("self", "k", "lmin", "lmax") + names, args, kw)
            o = st.heap[d["self"].cell]
            labs = [matlabel(ip, st, o.attrs.get(x)) for x in ("mat1", "mat2", "mat3") if x in o.attrs]
            if "mat_list" in o.attrs:
                labs = [matlabel(ip, st, x) for x in seq(st, o.attrs["mat_list"])]
            if tag == "STRAT" and not labs:
                raise NP.error("AttributeError", "a layered sphere is set up without a list of materials and a list of radii")
            if not labs or None in labs:
                raise Unsupported("materials of a scattering object")
            rs = []
            for x in names:
                v = d[x]
                rs.append(v.e)
            if "r_list" in o.attrs:
                rs += [x.e for x in seq(st, o.attrs["r_list"])]
            k = NP.toarr(ip, st, d["k"])
            lmin, lmax = d["lmin"].e, d["lmax"].e
            head = "%s_%s" % (tag, "".join(labs))
            return arr3(ip, st, lambda c, q, j: A.lift(lambda kk: A.mk(head + NAMES[c], (kk, lmin + j) + tuple(rs)), k.at((q,))),
                        lmax - lmin + 1, k.shape[0])
        w.ip.contracts["%s.%s" % (cls, method)] = h

    def static(method, tag):
        def h(ip, args, kw, st, node):
            d = argmap(("self", "lmin", "lmax", "r"), args, kw)
            o = st.heap[d["self"].cell]
            labs = [matlabel(ip, st, o.attrs.get(x)) for x in ("mat1", "mat2")]
            lmin, lmax = d["lmin"].e, d["lmax"].e
            head = "%s_%s" % (tag, "".join(labs))
            return ip.mkarr(st, ArrVal([R(3), lmax - lmin + 1], lambda ix: NP.select(
                ix[0], [lambda c=c: A.mk(head + NAMES[c], (lmin + ix[1], d["r"].e)) for c in range(3)])))
        w.ip.contracts["scattering.scattering." + method] = h
    finite("scattering.scattering", "mie", ("r",), "EXT")
    finite("scattering.scattering", "mie_internal", ("r",), "INT")
    finite("scattering.coated_miescattering", "mie_coated", ("r_i", "r_a"), "COAT")
    finite("stratified_sphere_scattering.StratifiedMieScattering", "mie_stratified", (), "STRAT")
    static("mie_k0", "EXT0")
    static("mie_internal_k0", "INT0")


def trans_contract(w):
    """translation tables -> uninterpreted functions of wavenumber, distance and quantum numbers (decided by C14, C15)"""
    tables = {}

    def make(ip, args, kw, st, node):
        d = argmap(("lmax", "lssmax", "m", "material", "L", "k", "ext_flag", "forceFlag"), args, kw)
        tables[len(tables)] = d
        return ip.mkobj(st, "SymTrans", {"id": Sc(R(len(tables) - 1), "i")}, label="T")

    def table(ip, args, kw, st, node, o):
        d = tables[st.heap[o.cell].attrs["id"].e.as_int()]
        e = d["ext_flag"]
        ext = e.e.as_int() if isinstance(e, Sc) else int(e)
        if ext is None:
            raise Unsupported("geometry flag of the translation table")
        lab = matlabel(ip, st, d["material"])
        ff = d.get("forceFlag")
        if isinstance(ff, Sc) and ff.e.as_int() not in (0, None):
            raise Unsupported("derivative of the translation coefficients")
        m, L = d["m"].e, d["L"].e
        lmin = A.lift(lambda x: A.fmax(x, A.RONE), m)
        n1, n2 = d["lmax"].e - lmin + 1, d["lssmax"].e - lmin + 1
        k = NP.toarr(ip, st, d["k"])
        g = "X" if ext else "I"
        if k.shape[0].as_int() == 1 and A.same(k.at((A.ZERO,)), A.ZERO):
            return ip.mklist(st, [ip.mkarr(st, ArrVal([n1, n2], lambda ix, c=c: A.mk(
                "S%s%s_%s" % (g, c, lab), (m, lmin + ix[0], lmin + ix[1])))) for c in ("sgn", "ln")])
        return ip.mklist(st, [ip.mkarr(st, ArrVal([k.shape[0], n1, n2], lambda ix, c=c: A.lift(lambda kk: A.mk(
            "V%d%s_%s" % (c, g, lab), (kk, L, m, lmin + ix[1], lmin + ix[2])), k.at((ix[0],))))) for c in range(5)])
    w.ip.contracts["translation.translation"] = make
    w.ip.contracts[("attr", "SymTrans", "trans_ab")] = lambda ip, o, st: Intr("call:trans_ab%d" % o.cell) if \
        w.ip.contracts.setdefault("call:trans_ab%d" % o.cell, lambda ip, args, kw, st, node: table(ip, args, kw, st, node, o)) else None


class GSetup:
    def __init__(self, ck, ext=1, m="m >= 1", cls="SphereSphere", contracts=True, **kw):
        self.ck, self.ext = ck, ext
        self.w = w = World(ck, *MODS)
        if contracts:
            mie_contracts(w)
            trans_contract(w)
            w.ip.contracts["matrix_balancing.balance"] = similar
        self.st = st = w.state()
        self.N, self.q = posint("N"), index("q")
        self.i, self.j, self.h = index("i"), index("j"), index("h")
        self.kf = lambda q: A.mk("k", (q,), pos=True)
        self.k = w.ip.mkarr(st, ArrVal([self.N], lambda i: self.kf(i[0])))
        self.m = posint("mp") if m == "m >= 1" else A.ZERO
        self.lmin = self.m if m == "m >= 1" else A.RONE
        self.n1, self.n2 = posint("nA"), posint("nB")
        self.lmax, self.lss = self.lmin + self.n1 - 1, self.lmin + self.n2 - 1
        self.r1 = pos("r1")
        if ext:
            self.r2 = pos("r2")
            self.L = self.r1 + self.r2 + pos("gap")
        else:
            self.L = pos("L")
            self.r2 = self.r1 + self.L + pos("gap")
        self.mats = {c: Mat(w, st, c) for c in "abc"}
        self.kw = kw

    def obj(self, **kw):
        K = self.w.get("geometry", "SphereSphere")
        a = [Sc(self.r1), Sc(self.r2), Sc(self.L)] + [self.mats[c].ref for c in "abc"]
        d = dict(lmax=Sc(self.lmax, "i"), lssmax=Sc(self.lss, "i"))
        d.update(self.kw)
        d.update(kw)
        return self.w.call(self.st, K, *a, **d)

    def method(self, name, o=None):
        f = self.w.ip.getattr(o if o is not None else self.obj(), name, self.st)
        return f, self.w.where(f)


def similar(ip, args, kw, st, node):
    """balancing is a similarity transformation (decided by C19)"""
    av = NP.toarr(ip, st, args[0])
    n, key = NP.matkey(av, ())
    new = lambda ix: A.lift(lambda e: e * NP.balanced(n, key, ix[0]) / NP.balanced(n, key, ix[1]), NP.tonum(av.at(ix)))
    if not isinstance(args[0], Arr):
        return ip.mkarr(st, ArrVal(av.shape, new, "f"))
    ip.write_arr(st, args[0], lambda ix: True, new, node)
    return args[0]


class Elements:
    """exact elements of the round-trip operator, up to the common diagonal similarity"""

    def __init__(self, s):
        self.s = s
        g = "X" if s.ext else "I"
        k = s.kf(s.q)
        self.a = lambda c, l: A.mk("EXT_ac" + NAMES[c], (k, l, s.r1))
        self.b = lambda c, l: A.mk(("EXT_bc" if s.ext else "INT_cb") + NAMES[c], (k, l, s.r2))
        self.v = lambda c, l, ls: A.mk("V%d%s_c" % (c, g), (k, s.L, s.m, l, ls))

    def el(self, pol, i, j):
        s, a, b, v = self.s, self.a, self.b, self.v
        t = A.fresh("s", nonneg=True)
        l1, l2, ls = s.lmin + i, s.lmin + j, s.lmin + t
        sc = A.exp(a(2, l1) + b(2, ls) + v(4, l1, ls) + v(4, l2, ls))
        p, r = pol
        # V0/V1 conserve, V2/V3 exchange the polarisation
        same = lambda x, y, c, d: v(c if x == y else d, l1 if c == 0 else l2, ls)
        tot = A.ZERO
        for mid in (0, 1):
            go = v(0, l1, ls) if p == mid else v(2, l1, ls)
            back = v(1, l2, ls) if r == mid else v(3, l2, ls)
            tot = tot + go * b(mid, ls) * back
        return A.summation(t, s.n2, sc * a(p, l1) * tot)


BLOCKS = (("EE", (0, 0)), ("EM", (0, 1)), ("ME", (1, 0)), ("MM", (1, 1)))


def prodl(xs):
    return A.lift(lambda *a: _prod(a), *xs)


def _prod(a):
    r = A.RONE
    for x in a:
        r = r * x
    return r


# closed walks in (polarisation, index) space: a matrix is known up to a diagonal similarity by their products
WALKS = (("diagonal EE", "EE:ii"), ("diagonal MM", "MM:ii"), ("EE ij, ji", "EE:ij EE:ji"), ("MM ij, ji", "MM:ij MM:ji"),
         ("EM ij, ME ji", "EM:ij ME:ji"), ("EM ii, ME ii", "EM:ii ME:ii"),
         ("EE ij, jh, hi", "EE:ij EE:jh EE:hi"), ("MM ij, jh, hi", "MM:ij MM:jh MM:hi"),
         ("EE ij, EM jh, ME hi", "EE:ij EM:jh ME:hi"), ("EM ij, MM jh, ME hi", "EM:ij MM:jh ME:hi"))


def walks(ck, s, tag, wh, got, want, ff, which=WALKS):
    idx = {"i": s.i, "j": s.j, "h": s.h}
    cg, cw = {}, {}

    def val(cache, fn, t):
        if t not in cache:
            b, (x, y) = t.split(":")
            cache[t] = fn(b, idx[x], idx[y])
        return cache[t]
    for name, wk in which:
        ts = wk.split()
        with A.facts(*ff):
            g = prodl([val(cg, got, t) for t in ts])
        ck.eq("%s: product over the closed walk %s" % (tag, name), g, _prod([val(cw, want, t) for t in ts]), wh, ff)


def range_facts(s):
    return (s.N - s.q - 1, s.n1 - s.i - 1, s.n1 - s.j - 1, s.n1 - s.h - 1)


def static_element(s):
    g = "X" if s.ext else "I"
    a = lambda c, l: A.mk("EXT0_ac" + NAMES[c], (l, s.r1))
    b = lambda c, l: A.mk(("EXT0_bc" if s.ext else "INT0_cb") + NAMES[c], (l, s.r2))
    sg = lambda l, ls: A.mk("S%ssgn_c" % g, (s.m, l, ls))
    ln = lambda l, ls: A.mk("S%sln_c" % g, (s.m, l, ls))

    def el(blk, i, j):
        p = 0 if blk == "EE" else 1
        t = A.fresh("s", nonneg=True)
        l1, l2, ls = s.lmin + i, s.lmin + j, s.lmin + t
        v = a(p, l1) * b(p, ls) * sg(l1, ls) * sg(l2, ls) * A.exp(a(2, l1) + b(2, ls) + ln(l1, ls) + ln(l2, ls))
        if s.ext:
            v = v * A.neg1pow(ls - l2) * A.exp((l1 + l2 + 1) * A.log(s.r1 / s.L) + (2 * ls + 1) * A.log(s.r2 / s.L))
        else:
            v = v * A.neg1pow(ls - l1) * A.exp((l1 + l2 + 1) * A.log(s.r1) - (2 * ls + 1) * A.log(s.r2)
                                               + (2 * ls - l1 - l2) * A.log(s.L))
            v = A.ite(A.band(A.ge0(ls - l1), A.ge0(ls - l2)), v, A.ZERO)
        return A.summation(t, s.n2, v)
    return el


@prop("C18", "Value graph of the blocks of the round-trip operator for symbolic truncations, radii, distance, wavenumber array, "
      "order m and uninterpreted scattering coefficients and translation tables; static, finite and mixed wavenumber arrays; "
      "homogeneous, coated and multi-layer spheres; exterior and interior geometry.",
      "products over all closed walks of length up to three equal those of scattering A, translation, scattering B, "
      "back translation summed over the inner angular momentum: the matrix is right up to a diagonal similarity, which leaves "
      "every determinant and trace unchanged",
      ASSUME + ("scattering coefficients and translation tables are those decided by C07-C15",))
def c18(ck):
    for ext in (1, 0):
        for mc in ("m = 0", "m >= 1"):
            geo = "%s, %s" % ("exterior" if ext else "interior", mc)

            def finite():
                s = GSetup(ck, ext, mc)
                f, wh = s.method("blockmatrices")
                ff = range_facts(s)
                with A.facts(*ff):
                    v = s.w.call(s.st, f, Sc(s.m, "i"), s.k)
                    returns(ck, geo + ": returns", s.st, where=wh)
                    it = s.st.heap[v.cell].items
                    for b, (n, _) in zip(it, BLOCKS):
                        sh = s.w.shape(s.st, b)
                        ck.truth("%s: shape of block %s" % (geo, n), isinstance(sh, tuple) and all(
                            A.same(x, y) for x, y in zip(sh, (s.N, s.n1, s.n1))), wh, "shape %r" % (sh,))
                blk = dict(zip([n for n, _ in BLOCKS], it))
                E = Elements(s)
                walks(ck, s, geo, wh, lambda b, x, y: s.w.at(s.st, blk[b], s.q, x, y),
                      lambda b, x, y: E.el(dict(BLOCKS)[b], x, y), ff)
            ck.run("blocks, " + geo, finite)

            def static():
                s = GSetup(ck, ext, mc)
                f, wh = s.method("blockmatrices_k0")
                ff = range_facts(s)[1:]
                with A.facts(*ff):
                    v = s.w.call(s.st, f, Sc(s.m, "i"))
                    returns(ck, geo + ", static: returns", s.st, where=wh)
                    it = dict(zip(("EE", "MM"), s.st.heap[v.cell].items))
                walks(ck, s, geo + ", static", wh, lambda b, x, y: s.w.at(s.st, it[b], x, y), static_element(s), ff,
                      [x for x in WALKS if "EM" not in x[1]])
            ck.run("static blocks, " + geo, static)
    layered(ck)
    mixed(ck)
    channels(ck)
    refused(ck)


def layered(ck):
    """spheres with layers: the coefficients of the layered sphere enter in place of the homogeneous ones"""
    def strat(ext, which):
        s = GSetup(ck, ext, "m >= 1")
        w, st = s.w, s.st
        names = {0: "ab", 1: "de"}
        for c in "de":
            s.mats[c] = Mat(w, st, c)
        K = w.get("geometry", "SphereSphere")
        ri, rj = pos("r1i"), pos("r2i")
        lst = lambda *v: w.ip.mklist(st, list(v))
        ra, rb, ma, mb = Sc(s.r1), Sc(s.r2), s.mats["a"].ref, s.mats["b"].ref
        if which in ("sphere 1", "both spheres"):
            ra, ma = lst(Sc(ri), Sc(s.r1)), lst(s.mats["a"].ref, s.mats["d"].ref, s.mats["c"].ref)
        if which in ("sphere 2", "both spheres"):
            rb, mb = lst(Sc(rj), Sc(s.r2)), lst(s.mats["b"].ref, s.mats["e"].ref, s.mats["c"].ref)
        o = w.call(st, K, ra, rb, Sc(s.L), ma, mb, s.mats["c"].ref, lmax=Sc(s.lmax, "i"), lssmax=Sc(s.lss, "i"))
        f, wh = s.method("blockmatrices", o)
        E = Elements(s)
        k = s.kf(s.q)
        if which in ("sphere 1", "both spheres"):
            E.a = lambda c, l: A.mk("STRAT_adc" + NAMES[c], (k, l, ri, s.r1))
        if which in ("sphere 2", "both spheres"):
            E.b = lambda c, l: A.mk(("STRAT_bec" if ext else "INTERIOR_bec") + NAMES[c], (k, l, rj, s.r2))
        return s, f, wh, E
    for ext in (1, 0):
        for which in ("sphere 1", "sphere 2", "both spheres"):
            if not ext and which == "both spheres":
                continue
            tag = "%s, layers on %s" % ("exterior" if ext else "interior", which)

            def one():
                s, f, wh, E = strat(ext, which)
                ff = range_facts(s)
                with A.facts(*ff):
                    v = s.w.call(s.st, f, Sc(s.m, "i"), s.k)
                    returns(ck, tag + ": returns", s.st, where=wh)
                    blk = dict(zip([n for n, _ in BLOCKS], s.st.heap[v.cell].items))
                walks(ck, s, tag, wh, lambda b, x, y: s.w.at(s.st, blk[b], s.q, x, y),
                      lambda b, x, y: E.el(dict(BLOCKS)[b], x, y), ff,
                      [WALKS[0], WALKS[1], WALKS[4], WALKS[8]] if ext or which == "sphere 1" else [WALKS[0]])
            ck.run(tag, one)

    def coated():
        s = GSetup(ck, 1, "m >= 1")
        w, st = s.w, s.st
        for c in "de":
            s.mats[c] = Mat(w, st, c)
        K = w.get("geometry", "CoatedSphereSphere")
        ri, rj = pos("r1i"), pos("r2i")
        M = s.mats
        o = w.call(st, K, Sc(ri), Sc(s.r1), M["a"].ref, M["d"].ref, Sc(rj), Sc(s.r2), M["b"].ref, M["e"].ref, Sc(s.L),
                   M["c"].ref, Sc(s.lmax, "i"), Sc(s.lss, "i"))
        f, wh = s.method("blockmatrices", o)
        E = Elements(s)
        k = s.kf(s.q)
        E.a = lambda c, l: A.mk("COAT_adc" + NAMES[c], (k, l, ri, s.r1))
        E.b = lambda c, l: A.mk("COAT_bec" + NAMES[c], (k, l, rj, s.r2))
        ff = range_facts(s)
        with A.facts(*ff):
            v = s.w.call(st, f, Sc(s.m, "i"), s.k)
            returns(ck, "exterior, coated spheres: returns", st, where=wh)
            blk = dict(zip([n for n, _ in BLOCKS], st.heap[v.cell].items))
        walks(ck, s, "exterior, coated spheres", wh, lambda b, x, y: w.at(st, blk[b], s.q, x, y),
              lambda b, x, y: E.el(dict(BLOCKS)[b], x, y), ff)
    ck.run("coated spheres", coated)


def mixed(ck):
    """wavenumber array starting with zero: static blocks first, then the finite ones of the remaining wavenumbers"""
    for ext in (1, 0):
        tag = "%s, wavenumbers starting with 0" % ("exterior" if ext else "interior")

        def one():
            s = GSetup(ck, ext, "m >= 1")
            w, st = s.w, s.st
            k = w.ip.mkarr(st, ArrVal([s.N + 1], lambda i: A.ite(A.eq0(i[0]), A.ZERO, s.kf(i[0] - 1))))
            f, wh = s.method("blockmatrices")
            ff = range_facts(s)
            with A.facts(*ff):
                v = w.call(st, f, Sc(s.m, "i"), k)
                returns(ck, tag + ": returns", st, where=wh)
                blk = dict(zip([n for n, _ in BLOCKS], st.heap[v.cell].items))
                sh = w.shape(st, blk["EE"])
                ck.truth(tag + ": one matrix per wavenumber", isinstance(sh, tuple) and A.same(sh[0], s.N + 1), wh, "shape %r" % (sh,))
                for b in ("EM", "ME"):
                    ck.eq("%s: static block %s vanishes" % (tag, b), w.at(st, blk[b], A.ZERO, s.i, s.j), A.ZERO, wh, ff)
            walks(ck, s, tag + ", zero", wh, lambda b, x, y: w.at(st, blk[b], A.ZERO, x, y), static_element(s), ff,
                  [x for x in WALKS[:4]])
            E = Elements(s)
            walks(ck, s, tag + ", the others", wh, lambda b, x, y: w.at(st, blk[b], s.q + 1, x, y),
                  lambda b, x, y: E.el(dict(BLOCKS)[b], x, y), ff, WALKS[:6])
        ck.run(tag, one)


CHAN = {"EE": (0, 1), "MM": (2, 3), "EM": (4, 5), "ME": (6, 7)}
PLAIN = {n: (c,) for c, (n, _) in enumerate(BLOCKS)}


def channels(ck):
    """blockmatrices_channels lists the two addends of every block, blockmatrices_debug the blocks"""
    def one(name, blk, ext, zero):
        s = GSetup(ck, ext, "m >= 1")
        w, st = s.w, s.st
        if not w.get("geometry", "SphereSphere").lookup(name)[0]:
            return
        f, wh = s.method(name)
        ff = range_facts(s)
        k = s.k
        if zero:
            k = w.ip.mkarr(st, ArrVal([s.N + 1], lambda i: A.ite(A.eq0(i[0]), A.ZERO, s.kf(i[0] - 1))))
        tag = "%s, %s%s" % ({0: "blocks without fast evaluation", 1: "channels"}[blk is CHAN], "exterior" if ext else "interior",
                            ", wavenumbers starting with 0" if zero else "")
        with A.facts(*ff):
            v = w.call(st, f, Sc(s.m, "i"), k)
            returns(ck, tag + ": returns", st, where=wh)
            it = st.heap[v.cell].items

        def got(q):
            return lambda b, x, y: A.lift(lambda *p: sum(p, A.ZERO), *[w.at(st, it[c], q, x, y) for c in blk[b]])
        if zero:
            with A.facts(*ff):
                for n, c in enumerate(it):
                    sh = w.shape(st, c)
                    ck.truth("%s: one matrix per wavenumber, %d" % (tag, n), isinstance(sh, tuple) and len(sh) == 3 and all(
                        A.same(x, y) for x, y in zip(sh, (s.N + 1, s.n1, s.n1))), wh, "shape %r" % (sh,))
                for b in ("EM", "ME"):
                    for c in blk[b]:
                        ck.eq("%s: static block %s vanishes, %d" % (tag, b, c), w.at(st, it[c], A.ZERO, s.i, s.j), A.ZERO, wh, ff)
            walks(ck, s, tag + ", zero", wh, got(A.ZERO), static_element(s), ff, WALKS[:4])
        E = Elements(s)
        walks(ck, s, tag + ": add up to the blocks", wh, got(s.q + 1 if zero else s.q),
              lambda b, x, y: E.el(dict(BLOCKS)[b], x, y), ff,
              # the plain evaluation scales every block by itself: only walks inside one index pair are comparable
              WALKS[:6] if blk is CHAN else WALKS[:4] + WALKS[5:6])
    for name, blk in (("blockmatrices_channels", CHAN), ("blockmatrices_debug", PLAIN)):
        for ext in (1, 0):
            for zero in (False, True):
                ck.run(name, lambda: one(name, blk, ext, zero))


def refused(ck):
    """the static limit of a layered sphere is not available and is refused as such"""
    def one(which):
        s = GSetup(ck, 1, "m >= 1")
        w, st = s.w, s.st
        s.mats["d"] = Mat(w, st, "d")
        lst = lambda *v: w.ip.mklist(st, list(v))
        ri = pos("r1i")
        r = [Sc(s.r1), Sc(s.r2)]
        m = [s.mats["a"].ref, s.mats["b"].ref]
        for c in which:
            m[c] = lst(m[c], s.mats["d"].ref, s.mats["c"].ref)
            r[c] = lst(Sc(ri), r[c])
        o = w.call(st, w.get("geometry", "SphereSphere"), r[0], r[1], Sc(s.L), m[0], m[1], s.mats["c"].ref,
                   lmax=Sc(s.lmax, "i"), lssmax=Sc(s.lss, "i"))
        f, wh = s.method("blockmatrices_k0", o)
        w.ip.call(f, [Sc(s.m, "i")], {}, st)
        names = {e for _, e, _ in st.frame.raises}
        tag = "static blocks of layered spheres %s are refused" % (tuple(c + 1 for c in which),)
        if st.dead and names <= {"NotImplementedError"}:
            ck.holds(tag, wh, "every path raises NotImplementedError")
        elif not st.dead:
            ck.violated(tag, wh, "accepted")
        else:
            ck.violated(tag, wh, "raises %s" % sorted(names))
    for which in ((0,), (1,), (0, 1)):
        ck.run("layered, static", lambda: one(which))


def cycles(ck, s, tag, wh, got, want, ff, log=False):
    """entries (i,i), (i,j)(j,i), (i,j)(j,h)(h,i) with independent spectator indices"""
    comb = (lambda *a: sum(a, A.ZERO)) if log else (lambda *a: _prod(a))
    for name, ts in (("diagonal", ((s.i, s.i),)), ("ij, ji", ((s.i, s.j), (s.j, s.i))),
                     ("ij, jh, hi", ((s.i, s.j), (s.j, s.h), (s.h, s.i)))):
        with A.facts(*ff):
            g = A.lift(comb, *[got(n, *t) for n, t in enumerate(ts)])
        ck.eq("%s: %s" % (tag, name), g, comb(*[want(n, *t) for n, t in enumerate(ts)]), wh, ff)


class Idx:
    def __init__(self):
        self.i, self.j, self.h = index("i"), index("j"), index("h")


@prop("C19", "Value graphs of the two scaling functions on a matrix of symbolic size; inductive-invariant check of the balancing "
      "loops (Cython source): every loop body is transferred once from an arbitrary matrix.",
      "each scaling multiplies entry (i, j) by d_i/d_j: products over closed walks of length up to three are unchanged, "
      "spectator axes are independent; the diagonal is unchanged",
      ASSUME + ("the balancing factor does not under- or overflow", "termination of the balancing loop is not decided"))
def c19(ck):
    def dyn():
        w = World(ck, "geometry")
        st = w.state()
        f = w.get("geometry", "dynamic_scaling")
        wh = w.where(f)
        s = Idx()
        N, n, S, q = posint("N"), posint("n"), posint("S"), index("q")
        sp = [index("s%d" % t) for t in range(3)]
        M = w.ip.mkarr(st, ArrVal([N, n, n, S], lambda i: A.mk("M", i)))
        ff = (N - q - 1, n - s.i - 1, n - s.j - 1, n - s.h - 1) + tuple(S - x - 1 for x in sp)
        with A.facts(*ff):
            v = w.call(st, f, M)
            returns(ck, "exponentiated scaling: returns", st, where=wh)
            sh = w.shape(st, v)
            ck.truth("exponentiated scaling: shape is kept", isinstance(sh, tuple) and all(
                A.same(x, y) for x, y in zip(sh, (N, n, n, S))), wh, "shape %r" % (sh,))
        cycles(ck, s, "exponentiated scaling", wh, lambda t, x, y: w.at(st, v, q, x, y, sp[t]),
               lambda t, x, y: A.exp(A.mk("M", (q, x, y, sp[t]))), ff)
        with A.facts(*ff):
            # the argument itself is left alone
            ck.eq("exponentiated scaling: argument unchanged", w.at(st, M, q, s.i, s.j, sp[0]), A.mk("M", (q, s.i, s.j, sp[0])), wh)
    ck.run("dynamic scaling", dyn)

    def single():
        w = World(ck, "geometry")
        st = w.state()
        f = w.get("geometry", "single_k_scale")
        wh = w.where(f)
        s = Idx()
        n, S = posint("n"), posint("S")
        sp = [index("s%d" % t) for t in range(3)]
        M = w.ip.mkarr(st, ArrVal([n, n, S], lambda i: A.mk("M", i)))
        ff = (n - s.i - 1, n - s.j - 1, n - s.h - 1) + tuple(S - x - 1 for x in sp)
        with A.facts(*ff):
            v = w.call(st, f, M)
            returns(ck, "logarithmic scaling: returns", st, where=wh)
        cycles(ck, s, "logarithmic scaling", wh, lambda t, x, y: w.at(st, v, x, y, sp[t]),
               lambda t, x, y: A.mk("M", (x, y, sp[t])), ff, log=True)
    ck.run("single scaling", single)
    ck.run("balancing", lambda: balancing(ck))


def plain(v):
    return A.subst(v, {}, lambda at, args: A.mk("in_" + str(args[0]) if not isinstance(args[0], Rat) else "in", tuple(
        x for x in args if isinstance(x, Rat))) if at.head == "ca" else None)


def balancing(ck):
    w = World(ck, "matrix_balancing")
    st = w.state()
    f = w.get("matrix_balancing", "balance")
    wh = w.where(f).replace(".py", ".pyx")
    s = Idx()
    n = posint("n")
    M = w.ip.mkarr(st, ArrVal([n, n], lambda i: A.mk("M", i)))
    ff = (n - s.i - 1, n - s.j - 1, n - s.h - 1)
    stage = [0]

    def family(av):
        with A.facts(*ff):
            e = av.at((s.i, s.j))
        fam = set()
        for x in leaves(e):
            if not isinstance(x, Rat):
                raise Unsupported("entry of the balanced matrix")
            for m in x.num:
                for a, _ in m:
                    at = A._atoms[a]
                    if at.head == "M" and len(at.args) == 2:
                        fam.add(("M",))
                    elif at.head == "ca" and len(at.args) == 3:
                        fam.add(("ca", at.args[0]))
        return fam

    def check(tag, av):
        if len(av.shape) != 2:
            return
        fam = family(av)
        if len(fam) != 1:
            ck.undecided(tag, wh, "matrix mixes %d earlier matrices" % len(fam))
            return
        fm = fam.pop()
        base = (lambda x, y: A.mk("M", (x, y))) if fm[0] == "M" else (lambda x, y: A.mk("ca", (fm[1], x, y)))
        # the values found at the head of the loop are arbitrary: plain symbols from here on
        cycles(ck, s, tag, wh, lambda t, x, y: plain(av.at((x, y))), lambda t, x, y: plain(base(x, y)), ff)

    def havoc(L, body):
        stage[0] += 1
        ln = "loop at line %d" % L.node.lineno
        for loc, p in L.phs.items():
            if p.kind != "arr" or len(p.av.shape) != 2:
                continue
            check("matrix entering the " + ln, p.init_av)
            if not body.dead:
                check("matrix after one pass of the " + ln, w.ip.aval(body, L.get(body, loc)))
    w.ip.havoc = havoc
    with A.facts(*ff):
        v = w.call(st, f, M, Sc(pos("conv")))
        check("returned matrix", w.ip.aval(st, v))
    ck.counts["loops_transferred"] = stage[0]




@prop("C20", "Value graphs of the matrix helpers for symbolic numbers of matrices and sizes; inverse and determinant of the "
      "library uninterpreted and, for distinguishing, evaluated on random matrices.",
      "products, inverses, block inverses, log-determinants and traces equal their definitions for every spectator index; "
      "malformed shapes are rejected",
      ASSUME + ("balancing is a similarity transformation (C19)", "numpy's inverse and determinant are exact"))
def c20(ck):
    def world():
        w = World(ck, "geometry", "matrix_balancing")
        w.ip.contracts["matrix_balancing.balance"] = similar
        return w, w.state()
    N, n, q = posint("N"), posint("n"), index("q")
    i, j = index("i"), index("j")

    def sym(w, st, name, *sh):
        return w.ip.mkarr(st, ArrVal(list(sh), lambda ix: A.mk(name, ix)))

    def dot():
        w, st = world()
        f = w.get("geometry", "dot_3d_matrices")
        wh = w.where(f)
        a, b = posint("na"), posint("nb")
        X, Y = sym(w, st, "X", N, a, n), sym(w, st, "Y", N, n, b)
        ff = (N - q - 1, a - i - 1, b - j - 1)
        with A.facts(*ff):
            v = w.call(st, f, X, Y)
            returns(ck, "matrix product: returns", st, where=wh)
            t = A.fresh("t", nonneg=True)
            ck.eq("matrix product", w.at(st, v, q, i, j), A.summation(t, n, A.mk("X", (q, i, t)) * A.mk("Y", (q, t, j))), wh, ff)
        for bad, shp in (("first", ((N, a), (N, n, b))), ("second", ((N, a, n), (N, n)))):
            w, st = world()
            f = w.get("geometry", "dot_3d_matrices")
            w.ip.call(f, [sym(w, st, "X", *shp[0]), sym(w, st, "Y", *shp[1])], {}, st)
            ck.truth("matrix product: a %s argument that is not three-dimensional is rejected" % bad, st.dead, wh, "accepted")
    ck.run("matrix product", dot)

    def inverse():
        w, st = world()
        f = w.get("geometry", "inv_3d_matrix")
        wh = w.where(f)
        X = sym(w, st, "X", N, n, n)
        ff = (N - q - 1, n - i - 1, n - j - 1)
        with A.facts(*ff):
            v = w.call(st, f, X)
            returns(ck, "matrix inverse: returns", st, where=wh)
            ref = NP.matfun(w.ip, st, X, "minv", True)
            ck.eq("matrix inverse", w.at(st, v, q, i, j), w.at(st, ref, q, i, j), wh, ff)
            ck.eq("matrix inverse: argument unchanged", w.at(st, X, q, i, j), A.mk("X", (q, i, j)), wh)
        w, st = world()
        f = w.get("geometry", "inv_3d_matrix")
        w.ip.call(f, [sym(w, st, "X", N, n)], {}, st)
        ck.truth("matrix inverse: an argument that is not three-dimensional is rejected", st.dead, wh, "accepted")
    ck.run("matrix inverse", inverse)

    def block():
        for half in (1, 2):
            w, st = world()
            f = w.get("geometry", "inv_3d_blockmatrix")
            wh = w.where(f)
            k = 2 * half
            X = sym(w, st, "X", N, R(k), R(k))
            with A.facts(N - q - 1):
                v = w.call(st, f, X)
                returns(ck, "block inverse, %d rows: returns" % k, st, where=wh)
                ref = NP.matfun(w.ip, st, X, "minv", True)
                for a in range(k):
                    for b in range(k):
                        ck.eq("block inverse, %d rows: entry (%d, %d)" % (k, a, b), w.at(st, v, q, R(a), R(b)),
                              w.at(st, ref, q, R(a), R(b)), wh, (N - q - 1,))
        for tag, sh in (("odd size", (N, R(3), R(3))), ("rectangular matrix", (N, R(4), R(6))), ("two-dimensional argument", (R(4), R(4)))):
            w, st = world()
            f = w.get("geometry", "inv_3d_blockmatrix")
            w.ip.call(f, [sym(w, st, "X", *sh)], {}, st)
            ck.truth("block inverse: %s is rejected" % tag, st.dead, wh, "accepted")
    ck.run("block inverse", block)

    def trace():
        w, st = world()
        f = w.get("geometry", "trace_dot_3d")
        wh = w.where(f)
        k = 4
        X, Y = sym(w, st, "X", N, R(k), R(k)), sym(w, st, "Y", N, R(k), R(k))
        one_minus = w.ip.mkarr(st, ArrVal([N, R(k), R(k)], lambda ix: A.lift(
            lambda d: d - A.mk("X", ix), A.ite(A.eq0(ix[1] - ix[2]), A.RONE, A.ZERO))))
        with A.facts(N - q - 1):
            v = w.call(st, f, X, Y)
            returns(ck, "trace of resolvent times matrix: returns", st, where=wh)
            ref = NP.matfun(w.ip, st, one_minus, "minv", True)
            want = sum((w.at(st, ref, q, R(a), R(b)) * A.mk("Y", (q, R(b), R(a))) for a in range(k) for b in range(k)), A.ZERO)
            ck.eq("trace of resolvent times matrix", w.at(st, v, q), want, wh, (N - q - 1,))
    ck.run("trace of resolvent", trace)

    def eye_minus(w, st, fn, N_, k):
        return w.ip.mkarr(st, ArrVal([N_, k, k], lambda ix: A.lift(lambda d, x: d - x, A.ite(A.eq0(ix[1] - ix[2]), A.RONE, A.ZERO), fn(ix))))

    def slog():
        w, st = world()
        f = w.get("geometry", "balanced_slogdet")
        wh = w.where(f)
        X = sym(w, st, "X", N, n, n)
        with A.facts(N - q - 1):
            v = w.call(st, f, X)
            returns(ck, "log-determinant: returns", st, where=wh)
            ref = NP.matfun(w.ip, st, eye_minus(w, st, lambda ix: A.mk("X", ix), N, n), "lndet")
            ck.eq("log-determinant of 1 - M", w.at(st, v, q), w.at(st, ref, q), wh, (N - q - 1,))
            ck.eq("log-determinant: argument unchanged", w.at(st, X, q, i, j), A.mk("X", (q, i, j)), wh)
    ck.run("log-determinant", slog)

    def blocks4(w, st, names, *sh):
        return [sym(w, st, x, *sh) for x in names]

    def big(ix):
        def pick(a, b, x, y):
            return A.ite(A.gt0(n - x), A.ite(A.gt0(n - y), A.mk("XA", (ix[0], x, y)), A.mk("XB", (ix[0], x, y - n))),
                         A.ite(A.gt0(n - y), A.mk("XC", (ix[0], x - n, y)), A.mk("XD", (ix[0], x - n, y - n))))
        return pick(0, 0, ix[1], ix[2])

    def append():
        w, st = world()
        f = w.get("geometry", "matrix_append")
        wh = w.where(f)
        bs = blocks4(w, st, ("XA", "XB", "XC", "XD"), N, n, n)
        l = w.ip.mklist(st, bs)
        ff = (N - q - 1, 2 * n - i - 1, 2 * n - j - 1)
        with A.facts(*ff):
            v = w.call(st, f, l)
            returns(ck, "block matrix: returns", st, where=wh)
            sh = w.shape(st, v)
            ck.truth("block matrix: shape", isinstance(sh, tuple) and all(A.same(x, y) for x, y in zip(sh, (N, 2 * n, 2 * n))), wh, "shape %r" % (sh,))
            ck.eq("block matrix: position of the blocks", w.at(st, v, q, i, j), big((q, i, j)), wh, ff)
    ck.run("block matrix", append)

    def sln():
        w, st = world()
        f = w.get("geometry", "sln_det_3d")
        wh = w.where(f)
        bs = blocks4(w, st, ("XA", "XB", "XC", "XD"), N, n, n)
        with A.facts(N - q - 1):
            v = w.call(st, f, *bs)
            returns(ck, "log-determinant of four blocks: returns", st, where=wh)
            ref = NP.matfun(w.ip, st, eye_minus(w, st, big, N, 2 * n), "lndet")
            ck.eq("log-determinant of four blocks", w.at(st, v, q), w.at(st, ref, q), wh, (N - q - 1,))
        w, st = world()
        f = w.get("geometry", "sln_det_3d")
        bs = blocks4(w, st, ("XA", "XB", "XC"), N, n, n) + [sym(w, st, "XD", N, n, n + 1)]
        w.ip.call(f, bs, {}, st)
        ck.truth("log-determinant of four blocks: unequal shapes are rejected", st.dead, wh, "accepted")
    ck.run("log-determinant of four blocks", sln)

    def diag():
        w, st = world()
        f = w.get("geometry", "sln_det_blockdiagonal")
        wh = w.where(f)
        m = n + 1
        X, Y = sym(w, st, "X", m, m), sym(w, st, "Y", m, m)

        def ref(nm):
            M = w.ip.mkarr(st, ArrVal([m, m], lambda ix: A.lift(lambda d: d - A.mk(nm, ix), A.ite(A.eq0(ix[0] - ix[1]), A.RONE, A.ZERO))))
            return NP.matfun(w.ip, st, M, "lndet").e
        v = w.call(st, f, X, Y)
        returns(ck, "block-diagonal log-determinant: returns", st, where=wh)
        ck.eq("block-diagonal log-determinant", w.at(st, v), ref("X") + ref("Y"), wh)
        w, st = world()
        f = w.get("geometry", "sln_det_blockdiagonal")
        w.ip.call(f, [sym(w, st, "X", m, m), sym(w, st, "Y", m, m + 1)], {}, st)
        ck.truth("block-diagonal log-determinant: unequal shapes are rejected", st.dead, wh, "accepted")
    ck.run("block-diagonal log-determinant", diag)

    def diag1():
        w, st = world()
        f = w.get("geometry", "sln_det_blockdiagonal")
        X, Y = sym(w, st, "X", R(1), R(1)), sym(w, st, "Y", R(1), R(1))
        v = w.call(st, f, X, Y)
        z = (A.ZERO, A.ZERO)
        sh = w.shape(st, v)
        ck.eq("block-diagonal log-determinant of single entries", w.at(st, v, *([A.ZERO] * len(sh))),
              A.log((1 - A.mk("X", z)) * (1 - A.mk("Y", z))), w.where(f))
    ck.run("block-diagonal log-determinant of single entries", diag1)
