"""C01-C04: material models."""
import json
import os
from ..model import *
from ..core import VERIF
from . import prop

C = R(299800000000000)      # c / (1 micro meter)


def oscillators(w, st, n=None):
    """list of symbolic length (or of n items) of (plasma, resonance, damping)"""
    def item(j):
        return Tup([Sc(A.mk("wP", (j,), nonneg=True)), Sc(A.mk("wR", (j,), nonneg=True)),
                    Sc(A.mk("gam", (j,), nonneg=True))])
    if n is None:
        return w.ip.mksym(st, index("nosc"), item)
    return w.ip.mklist(st, [item(R(j)) for j in range(n)])


def wave(w, st, rank):
    if rank == 0:
        return Sc(pos("k")), pos("k"), (), ()
    dims = [posint("N%d" % i) for i in range(rank)]
    idx = [index("q%d" % i) for i in range(rank)]
    arr = w.ip.mkarr(st, ArrVal(dims, lambda ix: A.mk("k", ix, pos=True)))
    return arr, A.mk("k", tuple(idx), pos=True), tuple(idx), tuple(d - i - 1 for d, i in zip(dims, idx))


def osc(j, k):
    return A.mk("wP", (j,), nonneg=True) / C, A.mk("wR", (j,), nonneg=True) / C, A.mk("gam", (j,), nonneg=True) / C


def lorentz(j, k):
    p, r, g = osc(j, k)
    return p * p / (r * r + k * k + g * k)


def smith(j, k):
    p, r, g = osc(j, k)
    return p * p / (k * k + g * k) * (1 - R("0.49") * g / (k + g))


def total(term, k, n):
    if n is not None:
        s = A.RONE
        for j in range(n):
            s = s + term(R(j), k)
        return s
    v = A.fresh("j", nonneg=True)
    return A.RONE + A.summation(v, index("nosc"), term(v, k))


def response(ck, cls, n, rank, meth, want, mag=None):
    w = World(ck, "materials")
    st = w.state()
    K = w.get("materials", cls)
    e = oscillators(w, st, n)
    b = Tup([]) if mag is None else Tup([Sc(pos("mu0")), Sc(pos("wM"))])
    tag = "%s.%s: %s oscillators, %s magnetic resonance, rank %d wave numbers" % (
        cls, meth, "any number of" if n is None else n, "no" if mag is None else "one", rank)

    def go():
        o = w.call(st, K, e, b)
        k, kq, idx, nn = wave(w, st, rank)
        f = w.ip.getattr(o, meth, st)
        wh = w.where(f)
        with A.facts(*nn):
            v = w.call(st, f, k)
            returns(ck, tag + " returns", st, where=wh)
            got = w.at(st, v, *idx) if not isinstance(v, Sc) else v.e
            ck.eq(tag, got, want(kq), wh, nn)
            # evaluation leaves the material as it was
            for m2 in ("mu", "epsilon"):
                w.call(st, w.ip.getattr(o, m2, st), k)
            v2 = w.call(st, w.ip.getattr(o, meth, st), k)
            ck.eq(tag + ", evaluated again", w.at(st, v2, *idx) if not isinstance(v2, Sc) else v2.e, got, wh, nn)
            if rank:
                ck.eq(tag + " leaves the wave numbers as they were", w.at(st, k, *idx), kq, wh, nn)
            if rank:
                sh = w.shape(st, v)
                if not isinstance(sh, tuple):
                    sh = None
                want_sh = w.ip.aval(st, k).shape
                ck.truth(tag + " has the shape of its argument",
                         sh is not None and len(sh) == len(want_sh) and all(A.same(a, c) for a, c in zip(sh, want_sh)),
                         wh, "shape %r" % (sh,)) if not (sh == () and n == 0) else None
    ck.run(tag, go, "CasimirRio/materials.py:%s.%s" % (cls, meth))


def static(ck, meth):
    """zero wave number, as the static limits pass it: scalar or one-element array"""
    for form in ("scalar", "array"):
        def go():
            w = World(ck, "materials")
            st = w.state()
            K = w.get("materials", "LorentzMaterial")
            e = w.ip.mksym(st, index("nosc"), lambda j: Tup([
                Sc(A.mk("wP", (j,), nonneg=True)), Sc(A.mk("wR", (j,), pos=True)), Sc(A.mk("gam", (j,), nonneg=True))]))
            o = w.call(st, K, e, Tup([Sc(pos("mu0")), Sc(pos("wM"))]))
            k = Sc(A.ZERO, "i") if form == "scalar" else w.ip.mkarr(st, ArrVal([R(1)], lambda ix: A.ZERO, "i"))
            f = w.ip.getattr(o, meth, st)
            v = w.call(st, f, k)
            v = v.e if isinstance(v, Sc) else w.at(st, v, A.ZERO)
            j = A.fresh("j", nonneg=True)
            p, r = A.mk("wP", (j,), nonneg=True), A.mk("wR", (j,), pos=True)
            want = pos("mu0") if meth == "mu" else A.RONE + A.summation(j, index("nosc"), p * p / (r * r))
            ck.eq("static %s of an insulator, %s" % (meth, form), v, want, w.where(f))
        ck.run("static " + meth, go)


@prop("C01", "Value graph of the permittivity of both oscillator models for an oscillator list of arbitrary "
      "symbolic length and symbolic parameters, compared with the closed-form response.",
      "normal form of epsilon(k) equals 1 + sum_j wP_j^2/(wR_j^2+k^2+g_j k) (Lorentz) or the single Smith-Drude term",
      ("floating-point rounding is not modelled", "numpy semantics as modelled in sa/npmodel.py"))
def c01(ck):
    for rank in (0, 1, 2):
        for n in (None, 0, 1, 3):
            response(ck, "LorentzMaterial", n, rank, "epsilon", lambda k, n=n: total(lorentz, k, n))
        response(ck, "LorentzSmithMaterial", 1, rank, "epsilon", lambda k: total(smith, k, 1))
    response(ck, "LorentzMaterial", None, 1, "epsilon", lambda k: total(lorentz, k, None), mag=True)
    static(ck, "epsilon")


@prop("C02", "Value graph of the permeability of every material class for symbolic static value and resonance.",
      "normal form of mu(k) equals 1 without magnetic parameters and 1 + (mu0-1)/(1+k/wM) with them",
      ("floating-point rounding is not modelled",))
def c02(ck):
    for cls in ("LorentzMaterial", "LorentzSmithMaterial"):
        for rank in (0, 1, 2):
            n = 1 if "Smith" in cls else None
            response(ck, cls, n, rank, "mu", lambda k: A.RONE)
            response(ck, cls, n, rank, "mu",
                     lambda k: A.RONE + (pos("mu0") - 1) / (1 + k * C / pos("wM")), mag=True)
    static(ck, "mu")
    w = World(ck, "materials")
    st = w.state()

    def pec():
        o = w.get("materials", "PerfectConductor")
        for rank in (1, 2):
            k, kq, idx, nn = wave(w, st, rank)
            f = w.ip.getattr(o, "mu", st)
            with A.facts(*nn):
                ck.eq("perfect conductor, rank %d" % rank, w.at(st, w.call(st, f, k), *idx), A.RONE, w.where(f), nn)
    ck.run("perfect conductor", pec)


def flag(w, st, o, name):
    v = w.ip.getattr(o, name, st)
    if isinstance(v, Unknown):
        raise Unsupported(v.reason)
    return NP.truth(w.ip, v, st)


@prop("C03", "Gated value graph of the classification flags for an oscillator list of arbitrary symbolic length; the "
      "flag is compared with the defining quantified predicate over the oscillators.",
      "conductivity flag == not exists j: wR_j=0, wP_j!=0, g_j=0 ; dielectric flag == not exists j: wR_j=0, wP_j!=0 ; "
      "magnetic flag == magnetic parameters present with non-zero static permeability",
      ("oscillator parameters are non-negative",))
def c03(ck):
    for cls in ("LorentzMaterial", "LorentzSmithMaterial"):
        for n in (None, 0, 1, 2, 3):
            w = World(ck, "materials")
            st = w.state()

            def go():
                K = w.get("materials", cls)
                o = w.call(st, K, oscillators(w, st, n), Tup([]))
                tag = "%s with %s oscillators" % (cls, "any number of" if n is None else n)
                wh = w.where(K)
                returns(ck, tag + " can be built", st, where=wh)

                def some(pred):
                    if n is None:
                        v = A.fresh("j", nonneg=True)
                        return exists(v, index("nosc"), pred(v))
                    r = False
                    for j in range(n):
                        r = A.bor(r, pred(R(j)))
                    return r

                def free(j):
                    return A.band(A.eq0(A.mk("wR", (j,), nonneg=True)), A.bnot(A.eq0(A.mk("wP", (j,), nonneg=True))))
                ck.eq("finite conductivity: " + tag, flag(w, st, o, "is_sigma_finite"),
                      A.bnot(some(lambda j: A.band(free(j), A.eq0(A.mk("gam", (j,), nonneg=True))))), wh)
                ck.eq("dielectric: " + tag, flag(w, st, o, "is_dielectric"), A.bnot(some(free)), wh)
                ck.eq("magnetic (no parameters): " + tag, flag(w, st, o, "is_magnetic"), False, wh)
                ck.eq("not a perfect conductor: " + tag, flag(w, st, o, "is_perfect_conductor"), False, wh)
            ck.run("%s flags" % cls, go)
        w = World(ck, "materials")
        st = w.state()

        def mag():
            K = w.get("materials", cls)
            m0 = nonneg("mus")
            o = w.call(st, K, oscillators(w, st, 1), Tup([Sc(m0), Sc(pos("wM"))]))
            ck.eq("magnetic (static permeability given): %s" % cls, flag(w, st, o, "is_magnetic"),
                  A.bnot(A.eq0(m0)), w.where(K))
        ck.run("%s magnetic" % cls, mag)
    w = World(ck, "materials")
    st = w.state()

    def pec():
        o = w.get("materials", "PerfectConductor")
        for nm, want in (("is_perfect_conductor", True), ("is_sigma_finite", False), ("is_magnetic", False)):
            ck.eq("perfect conductor: " + nm, flag(w, st, o, nm), want, "CasimirRio/materials.py:PerfectConductor")
    ck.run("perfect conductor", pec)


def table(w):
    """every material instance of the module: name -> (class, name, e, b)"""
    w.env("materials")
    st = w.state()
    out = {}
    for n, v in sorted(w.env("materials").items()):
        if not (isinstance(v, Ref) and v.kind == "obj"):
            continue
        ov = st.heap[v.cell]

        def seq(x):
            if x is None or x is MISSING:
                return None
            items = w.ip.concrete_items(x, st)
            return [seq(i) if isinstance(i, (Tup, Ref)) else fval(i) for i in items]

        def fval(x):
            from .. import evalr
            return float(evalr.Interp(1).ev(x))
        out[n] = {"class": ov.cls.name, "name": ov.attrs.get("name"),
                  "e": seq(ov.attrs.get("e_properties")), "b": seq(ov.attrs.get("b_properties"))}
    return out


@prop("C04", "Every predefined material is evaluated in the value-graph domain of the module body and compared with the "
      "reference table of oscillator parameters; the registered name is compared with the attribute it is looked up by; "
      "the plasma variants are compared with their dissipative partner.",
      "parameters equal the reference table to 1e-9 relative; name == lookup key; plasma variant == same plasma "
      "frequency, zero damping",
      ("the reference table sa/ref_materials.json was confirmed by reading the shipped tables",))
def c04(ck):
    w = World(ck, "materials")
    got = table(w)
    ref = json.load(open(os.path.join(VERIF, "sa", "ref_materials.json")))

    def close(a, b):
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
        if a is None or b is None or isinstance(a, list) or isinstance(b, list):
            return a is None and b is None
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b))

    def norm(e):
        return sorted([x for x in e if x[0] != 0]) if e else e
    wh = "CasimirRio/materials.py"
    for n in sorted(ref):
        if n not in got:
            if w.env("materials").get(n) is None:
                ck.violated("material %s exists" % n, wh, "no such material")
            else:
                ck.undecided("material %s" % n, wh, "not a resolved instance")
            continue
        g, r = got[n], ref[n]
        ck.truth("material %s: oscillator parameters" % n, close(norm(g["e"]), norm(r["e"])), wh + ":" + n,
                 "has %s, reference %s" % (g["e"], r["e"]), "table comparison")
        ck.truth("material %s: magnetic parameters" % n, close(g["b"] or None, r["b"] or None), wh + ":" + n,
                 "has %s, reference %s" % (g["b"], r["b"]), "table comparison")
        ck.truth("material %s: response model" % n, g["class"] == r["class"], wh + ":" + n,
                 "is a %s, reference %s" % (g["class"], r["class"]), "table comparison")
        if n.endswith("_plasma") and n[:-7] in got:
            p = got[n[:-7]]
            ck.truth("material %s is the dissipationless partner of %s" % (n, n[:-7]),
                     close(norm(g["e"]), norm([[x[0], x[1], 0.0] for x in p["e"]])), wh + ":" + n,
                     "%s vs %s" % (g["e"], p["e"]), "table comparison")
    for n, g in sorted(got.items()):
        ck.truth("material %s: label equals lookup name" % n, g["name"] == n, wh + ":" + n,
                 "labelled %r" % (g["name"],), "name comparison")
