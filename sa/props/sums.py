"""C21-C25: sums over the magnetic quantum number and the Matsubara frequencies."""
from ..model import *
from .. import evalr
from . import prop
from .geo import GSetup, similar, range_facts

ASSUME = ("floating-point rounding is not modelled",)
POL = ("EE", "EM", "ME", "MM")
STATIC = ("K0E", "K0M")


def lmin_of(m):
    return A.lift(lambda x: A.fmax(x, A.RONE), m)


class Sums:
    """SphereSphere with the round-trip blocks as uninterpreted functions of wavenumber and order (decided by C18)"""

    def __init__(self, ck, ext=1, force=False, **kw):
        self.ck = ck
        self.s = s = GSetup(ck, ext, contracts=False)
        self.w, self.st = s.w, s.st
        self.lmax = posint("lmax")
        self.prec = A.sym("prec", pos=True)
        ip = self.w.ip
        # only determinants are taken of balanced matrices, and balancing keeps them (C19)
        ip.contracts["matrix_balancing.balance"] = lambda ip, args, kw, st, node: args[0]
        ip.contracts["geometry.SphereSphere.blockmatrices"] = self.blocks
        for x in ("ext", "int"):
            ip.contracts["geometry.SphereSphere.blockmatrices_k0_" + x] = self.static
        ip.contracts["geometry.sln_det_blockdiagonal"] = self.diag
        ip.mathook = self.hook
        self.kx, self.mx = A.sym("kx", pos=True), A.sym("mx", integer=True, nonneg=True)
        self.generic = {}
        self.kw = kw

    def obj(self, **kw):
        d = dict(lmax=Sc(self.lmax, "i"), lssmax=Sc(posint("lss"), "i"), precision=Sc(self.prec))
        d.update(self.kw)
        d.update(kw)
        self.o = self.s.obj(**d)
        return self.o

    def size(self, m):
        return self.lmax - lmin_of(m) + 1

    # -- contracts
    def blocks(self, ip, args, kw, st, node):
        m = args[1] if len(args) > 1 else kw["m"]
        k = NP.toarr(ip, st, args[2] if len(args) > 2 else kw["matsubaras"])
        ff = st.heap[args[0].cell].attrs.get("forceFlag")
        if not isinstance(ff, Sc) or ff.e.as_int() is None:
            raise Unsupported("unknown force flag")
        h = "BF" if ff.e.as_int() else "B"
        n = self.size(m.e)
        return ip.mklist(st, [ip.mkarr(st, ArrVal([k.shape[0], n, n], lambda ix, b=b: A.lift(
            lambda kk, mm: A.mk(h + b, (kk, mm, ix[1], ix[2])), k.at((ix[0],)), m.e))) for b in POL])

    def static(self, ip, args, kw, st, node):
        m = args[1] if len(args) > 1 else kw["m"]
        n = self.size(m.e)
        return ip.mklist(st, [ip.mkarr(st, ArrVal([n, n], lambda ix, b=b: A.lift(
            lambda mm: A.mk(b, (mm, ix[0], ix[1])), m.e))) for b in STATIC])

    def diag(self, ip, args, kw, st, node):
        """ln det(1 - A) + ln det(1 - B) (decided by C20)"""
        tot = A.ZERO
        for a in args[:2]:
            av = NP.toarr(ip, st, a)
            M = ArrVal(av.shape, lambda ix, av=av: A.lift(lambda d, x: d - x, A.ite(A.eq0(ix[0] - ix[1]), A.RONE, A.ZERO), av.at(ix)))
            tot = tot + NP.matfun(ip, st, ip.mkarr(st, M), "lndet").e
        return Sc(tot, "F")

    # -- determinants of whole round-trip matrices
    def big(self, k, m, head="B"):
        n = self.size(m)

        def fn(ix):
            x, y = ix
            b = lambda p, a, c: A.mk(head + p, (k, m, a, c))
            return A.ite(A.gt0(n - x), A.ite(A.gt0(n - y), b("EE", x, y), b("EM", x, y - n)),
                         A.ite(A.gt0(n - y), b("ME", x - n, y), b("MM", x - n, y - n)))
        return ArrVal([2 * n, 2 * n], fn)

    def eye_minus(self, av):
        return ArrVal(av.shape, lambda ix: A.lift(lambda d, x: d - x, A.ite(A.eq0(ix[0] - ix[1]), A.RONE, A.ZERO), av.at(ix)))

    def reference(self, h, k, m):
        if h in STATIC:
            n = self.size(m)
            return NP.matkey(self.eye_minus(ArrVal([n, n], lambda ix: A.mk(h, (m,) + tuple(ix)))), ())
        return NP.matkey(self.eye_minus(self.big(k, m)), ())

    def hook(self, head, n, key):
        if head != "lndet":
            return None
        for a in A.all_atoms(key):
            if a.head in STATIC:
                h, k, m = a.head, None, a.args[0]
            elif a.head[:1] == "B" and a.head[1:] in POL:
                h, k, m = "B", a.args[0], a.args[1]
            else:
                continue
            rn, rk = self.reference(h, k, m)
            if A.same(n, rn) and A.same(key, rk):
                return A.mk("LD" + h, (m,)) if k is None else A.mk("LD", (k, m))
            return None
        return None

    def semantics(self, got):
        """determinants of whole matrices stay uninterpreted unless single entries occur as well"""
        raw = any(a.head in STATIC or a.head[:1] == "B" and a.head[1:] in POL for a in A.all_atoms(got))
        for h in ("LD",) + tuple("LD" + x for x in STATIC):
            if raw:
                evalr.FN[h] = self.evaluate
            else:
                evalr.FN.pop(h, None)

    def evaluate(self, I, at):
        vals = [I.ev(x) for x in at.args]
        c = I.__dict__.setdefault("ld", {})
        k = (at.head,) + tuple(evalr._canon_num(v) for v in vals)
        if k not in c:
            g = self.generic.get(at.head)
            if g is None:
                g = self.generic[at.head] = A.mk("lndet", self.reference("B" if at.head == "LD" else at.head[2:], self.kx, self.mx))
            J = evalr.Interp(I.seed, hi=I.hi, spread=I.spread)
            for x, v in zip((self.kx, self.mx)[-len(vals):], vals):
                J.env[A._single_atom(x).id] = v
            c[k] = J.ev(g)
        return c[k]

    def eq(self, name, got, want, wh, ff):
        self.semantics(got)
        try:
            return self.ck.eq(name, got, want, wh, ff)
        finally:
            self.semantics(A.ZERO)


def partial(term, M):
    """term(0) + 2 sum_{m=1}^{M} term(m)"""
    j = A.fresh("j", nonneg=True)
    return term(A.ZERO) + 2 * A.summation(j, M, term(j + 1))


def leaves_are_partial(S, name, got, term, lmax, wh, ff, sign=1):
    """every value the sum can stop at is a partial sum in m"""
    ls = [x for _, x in gleaves(got)]
    for n, x in enumerate(ls):
        fs = {a.id for a in A.all_atoms(x) if a.head == "first"}
        t = index("stop")
        x = A.subst(x, {i: t for i in fs})
        tag = name if len(ls) == 1 else "%s (exit %d)" % (name, n + 1)
        S.eq(tag, x, sign * partial(term, t + 1 if fs else lmax), wh, ff + ((lmax - t - 1,) if fs else ()))


@prop("C21", "Value graphs of the sums over the magnetic quantum number for a symbolic truncation, number of wavenumbers and "
      "round-trip blocks; loops with early exits are summarised as first index at which the exit condition holds.",
      "the sum is X(0) + 2 sum_{m=1}^{M} X(m) with X = ln det(1 - M) (or minus the trace); M is lmax, or the first m at which "
      "the relative change at the dominant wavenumber is below a tenth of the precision",
      ASSUME + ("the round-trip blocks are those of C18", "matrix helpers as decided by C20"))
def c21(ck):
    def truncated(S, term, q, N, L, dominant=True):
        """partial sum at the first m that meets the stopping rule, else the full sum"""
        T = lambda x, M: partial(lambda m: term(x, m), M)

        def stop(i):
            mx = q
            if dominant:
                p = A.fresh("p", nonneg=True)
                mx = A.binder("argmax", p, (N, True), A.absv(T(p, i)))
            old, new = T(mx, i), T(mx, i + 1)
            z = A.eq0(old) if dominant else False
            # relative to the previous partial sum (finite frequency) or to the new one (zero frequency)
            r = A.absv(new / old) - 1 if dominant else A.absv(old / new) - 1
            return z, A.bor(z, A.lift(lambda x: A.gt0(S.prec / 10 - A.absv(x)), r))
        i = A.fresh("m", nonneg=True)
        z, c = stop(i)
        t = first_index(i, L, c)
        return A.ite(exists(i, L, c), A.ite(stop(t)[0], T(q, t), T(q, t + 1)), T(q, L))

    def setup(**kw):
        S = Sums(ck, **kw)
        return S, S.w, S.st, S.s, S.lmax

    ld = lambda s: lambda q, m: A.mk("LD", (s.kf(q), m))
    ld0 = lambda q, m: A.mk("LDK0E", (m,)) + A.mk("LDK0M", (m,))

    def determinant():
        S, w, st, s, L = setup()
        f, wh = s.method("mSumme", S.obj())
        ff = (s.N - s.q - 1,)
        with A.facts(*ff):
            v = w.call(st, f, s.k)
            sh = w.shape(st, v)
            ck.truth("finite frequency: one value per wavenumber", isinstance(sh, tuple) and len(sh) == 1 and A.same(sh[0], s.N), wh, "shape %r" % (sh,))
            S.eq("finite frequency", w.at(st, v, s.q), truncated(S, ld(s), s.q, s.N, L), wh, ff)
    ck.run("finite frequency", determinant)

    for geo in (1, 0):
        tag = "zero frequency, " + ("exterior" if geo else "interior")

        def static():
            S, w, st, s, L = setup(ext=geo)
            f, wh = s.method("mSumme_k0", S.obj())
            v = w.call(st, f)
            returns(ck, tag + ": returns", st, where=wh)
            S.eq(tag, w.at(st, v), truncated(S, ld0, A.ZERO, None, L, False), wh, ())
        ck.run(tag, static)

    def with_zero():
        S, w, st, s, L = setup()
        o = S.obj()
        f, wh = s.method("mSumme", o)
        k = w.ip.mkarr(st, ArrVal([s.N + 1], lambda i: A.lift(lambda c: c, A.ite(A.eq0(i[0]), A.ZERO, s.kf(i[0] - 1)))))
        ff = (s.N - s.q - 1,)
        with A.facts(*ff):
            v = w.call(st, f, k)
            S.eq("zero frequency first, then the others: zero", w.at(st, v, A.ZERO), truncated(S, ld0, A.ZERO, None, L, False), wh, ff)
            S.eq("zero frequency first, then the others: the others", w.at(st, v, s.q + 1), truncated(S, ld(s), s.q, s.N, L), wh, ff)
            one = w.ip.mkarr(st, ArrVal([A.RONE], lambda i: A.ZERO))
            v = w.call(st, f, one)
            S.eq("zero frequency only", w.at(st, v, *[A.ZERO] * len(w.shape(st, v))), truncated(S, ld0, A.ZERO, None, L, False), wh, ff)
    ck.run("zero frequency first", with_zero)

    for mc in ("m = 0", "m >= 1"):
        def single():
            S, w, st, s, L = setup()
            m = A.ZERO if mc == "m = 0" else posint("mp")
            o = S.obj()
            f, wh = s.method("single_m", o)
            ff = (s.N - s.q - 1, L - m)
            with A.facts(*ff):
                v = w.call(st, f, Sc(m, "i"), s.k)
                S.eq("single order, %s" % mc, w.at(st, v, s.q), ld(s)(s.q, m), wh, ff)
                f, wh = s.method("single_m_k0", o)
                v = w.call(st, f, Sc(m, "i"))
                S.eq("single order, %s, zero frequency" % mc, w.at(st, v), ld0(A.ZERO, m), wh, ff)
                f, wh = s.method("single_m", o)
                k = w.ip.mkarr(st, ArrVal([s.N + 1], lambda i: A.lift(lambda c: c, A.ite(A.eq0(i[0]), A.ZERO, s.kf(i[0] - 1)))))
                v = w.call(st, f, Sc(m, "i"), k)
                S.eq("single order, %s, zero frequency first: zero" % mc, w.at(st, v, A.ZERO), ld0(A.ZERO, m), wh, ff)
                S.eq("single order, %s, zero frequency first: the others" % mc, w.at(st, v, s.q + 1), ld(s)(s.q, m), wh, ff)
                v = w.call(st, f, Sc(m, "i"), w.ip.mkarr(st, ArrVal([A.RONE], lambda i: A.ZERO)))
                S.eq("single order, %s, only zero frequency" % mc, w.at(st, v, *[A.ZERO] * len(w.shape(st, v))), ld0(A.ZERO, m), wh, ff)
        ck.run("single order " + mc, single)

    def tr(S, s):
        def term(q, m):
            i = A.fresh("t", nonneg=True)
            return A.summation(i, S.size(m), A.mk("BEE", (s.kf(q), m, i, i)) + A.mk("BMM", (s.kf(q), m, i, i)))
        return term

    for how in ("automatic", "given"):
        def one():
            S, w, st, s, L = setup()
            o = S.obj()
            f, wh = s.method("mSum_oneRoundtrip", o)
            mm = posint("mmax")
            ff = (s.N - s.q - 1,) + ((L - mm,) if how == "given" else ())
            kw = {"mmax": Sc(mm, "i")} if how == "given" else {}
            with A.facts(*ff):
                v = w.call(st, f, s.k, **kw)
                M = mm if how == "given" else A.lift(lambda x: A.fmin(L, A.fmax(x, A.RONE)), NP.round_half(
                    A.log(S.prec) / A.log(R(1) / 2)) if hasattr(NP, "round_half") else A.mk("round", (A.log(S.prec) / A.log(R(1) / 2),), integer=True))
                S.eq("single round trip, highest order %s" % how, w.at(st, v, s.q), A.lift(
                    lambda x: -partial(lambda m: tr(S, s)(s.q, m), x), M), wh, ff)
        ck.run("single round trip " + how, one)

    def roundtrips():
        S, w, st, s, L = setup()
        w.ip.contracts["geometry.SphereSphere.arbitrary_roundtrips"] = rt_contract
        o = S.obj()
        f, wh = s.method("mSum_roundtrips", o)
        ff = (s.N - s.q - 1,)
        for order in (Sc(posint("order"), "i"), "automatic"):
            with A.facts(*ff):
                v = w.call(st, f, s.k, order)
                got = w.at(st, v, s.q)
            leaves_are_partial(S, "round trips, %s order" % ("given" if order != "automatic" else order), got, lambda m: A.mk(
                "RT", NP.matkey(S.big(s.kf(s.q), m), ()) + (rt_order(order),)), L, wh, ff)
    ck.run("round trips", roundtrips)

    for order in (1, 2, 3):
        def trips():
            S, w, st, s, L = setup()
            o = S.obj()
            f, wh = s.method("arbitrary_roundtrips", o)
            n = posint("n")
            ff = (s.N - s.q - 1,)
            X = w.ip.mkarr(st, ArrVal([s.N, n, n], lambda ix: A.mk("X", ix)))
            tot = A.ZERO
            v0 = [A.fresh("t", nonneg=True) for _ in range(order)]
            for r in range(1, order + 1):
                e = A.RONE
                for a in range(r):
                    e = e * A.mk("X", (s.q, v0[a], v0[(a + 1) % r]))
                for a in reversed(range(r)):
                    e = A.summation(v0[a], n, e)
                tot = tot - e / r
                last = e / r
            with A.facts(*ff):
                v = w.call(st, f, X, Sc(R(order), "i"), Sc(A.ZERO, "i"))
                ck.eq("sum of traces of powers up to %d" % order, w.at(st, v, s.q), tot, wh, ff)
                ck.eq("sum of traces of powers up to %d: matrix unchanged" % order, w.at(st, X, s.q, s.i, s.j), A.mk("X", (s.q, s.i, s.j)), wh)
                if order > 1:
                    # automatic order: the histories with order - 1 passes of the loop
                    w.ip.trips = order - 1
                    v = w.call(st, f, X, "automatic", Sc(A.ZERO, "i"))
                    ck.eq("sum of traces of powers, automatic order, stopped after %d" % order, w.at(st, v, s.q), tot, wh, ff)
                    p = A.fresh("p", nonneg=True)
                    sub = {A._single_atom(s.q).id: p}
                    rel = A.binder("amax", p, (s.N, True), A.absv(A.subst(last / tot, sub)))
                    tests = getattr(w.ip, "tests", [])
                    if len(tests) == order and tests[-1] not in (True, False):
                        ck.eq("automatic order: goes on after %d exactly while the largest relative change exceeds the precision" % order,
                              tests[-1], A.gt0(rel - S.prec), wh, ff)
        ck.run("up to %d round trips" % order, trips)

    def trace_dot():
        S, w, st, s, L = setup()
        w.ip.contracts["geometry.trace_dot_3d"] = td_contract
        o = S.obj()
        f, wh = s.method("mSum_trace_dot", o)
        ff = (s.N - s.q - 1,)
        with A.facts(*ff):
            v = w.call(st, f, s.k)
            got = w.at(st, v, s.q)
        leaves_are_partial(S, "derivative: trace of resolvent times derivative", got,
                           lambda m: td(S.big(s.kf(s.q), m), S.big(s.kf(s.q), m, "BF")), L, wh, ff)
    ck.run("derivative", trace_dot)


def rt_order(o):
    return o.e if isinstance(o, Sc) else str(o)


def rt_contract(ip, args, kw, st, node):
    """minus the sum of traces of powers, uninterpreted (decided separately)"""
    x = NP.toarr(ip, st, args[1])
    o = rt_order(args[2] if len(args) > 2 else kw["order"])
    return ip.mkarr(st, ArrVal([x.shape[0]], lambda ix: A.mk("RT", NP.matkey(x, ix) + (o,))))


def td(a, b):
    return A.mk("TD", NP.matkey(a, ()) + NP.matkey(b, ())[1:])


def td_contract(ip, args, kw, st, node):
    x, y = (NP.toarr(ip, st, v) for v in args[:2])
    return ip.mkarr(st, ArrVal([x.shape[0]], lambda ix: A.mk("TD", NP.matkey(x, ix) + NP.matkey(y, ix)[1:])))


def callee(ip, name, h):
    """a function value with the given summary"""
    ip.contracts["call:" + name] = h
    return Intr("call:" + name)


@prop("C24", "Value graph of the slice-wise evaluation with symbolic bounds and slice length; the slice loop is summarised, "
      "single histories of the loop are followed exactly.",
      "entry i of the result is the function at nmin + i, for every i from 0 to nmax - nmin; the function sees consecutive "
      "integers, never more than the slice length; a slice length that is not a positive integer is rejected",
      ASSUME + ("the function is evaluated element by element",))
def c24(ck):
    def setup(trips=None):
        w = World(ck, "thermodynamics")
        st = w.state()
        f = w.get("thermodynamics", "slicewise_eval")
        w.ip.trips = trips
        calls = []

        def F(ip, args, kw, st, node):
            x = NP.toarr(ip, st, args[0])
            calls.append((st.pc, x))
            return ip.mkarr(st, ArrVal(list(x.shape), lambda ix: A.lift(lambda n: A.mk("F", (n,)), x.at(ix))))
        return w, st, f, w.where(f), callee(w.ip, "F", F), calls
    i = index("i")
    for lo, start in (("from zero", A.ZERO), ("from a later index", posint("n0"))):
        for t in (1, 2, 3):
          for last in ("", ", last one full", ", last one of length one"):
            def one():
                w, st, f, wh, F, calls = setup(t)
                step = posint("step")
                d = index("d") if not last else (t * step - 1 if "full" in last else (t - 1) * step)
                ff = (d - i,) + ((d - (t - 1) * step, t * step - d - 1) if not last else ())
                tag = "%s, %d slice%s" % (lo, t, "s" * (t > 1)) + last
                with A.facts(*ff):
                    v = w.call(st, f, F, Sc(start, "i"), Sc(start + d, "i"), Sc(step, "i"))
                    returns(ck, tag + ": returns", st, where=wh)
                    sh = w.shape(st, v)
                    ck.truth(tag + ": one entry per integer", isinstance(sh, tuple) and len(sh) == 1 and A.same(sh[0], d + 1), wh, "shape %r" % (sh,))
                    ck.eq(tag + ": entries", w.at(st, v, i), A.mk("F", (start + i,)), wh, ff)
                    for n, (pc, x) in enumerate(calls):
                        dec = A.decide_gt0(step - x.shape[0], False)
                        if dec is None:
                            ck.undecided("%s: slice %d not longer than asked for" % (tag, n + 1), wh, "length %s" % A.clip(x.shape[0]))
                        else:
                            ck.truth("%s: slice %d not longer than asked for" % (tag, n + 1), dec, wh, "length %s" % A.clip(x.shape[0]))
            ck.run("%s, %d slices" % (lo, t), one)

    def frontier():
        """one pass of the loop from an arbitrary state"""
        w, st, f, wh, F, calls = setup()
        n0, d, step = posint("n0"), index("d"), posint("step")
        n1 = n0 + d
        seen = []

        def havoc(L, body):
            names = [(loc, p) for loc, p in L.phs.items()]
            arr = [(l, p) for l, p in names if p.kind == "arr"]
            sc = [(l, p) for l, p in names if p.kind == "sc"]
            if len(arr) != 1 or len(sc) != 1:
                raise Unsupported("loop carries %d arrays and %d scalars" % (len(arr), len(sc)))
            (la, pa), (ls, ps) = arr[0], sc[0]
            if not A.same(ps.init.e, n0):
                raise Unsupported("frontier does not start at the first index")
            c = index("c")
            new = L.get(body, ls).e
            av = w.ip.aval(body, L.get(body, la))
            plain = {ps.atom.atoms().__iter__().__next__(): n0 + c}
            fn = lambda at, args: A.mk("in", tuple(args[1:])) if at.head == "ca" and at.args[0] == pa.id else None
            sub = lambda v: A.subst(A.subst(v, plain), {}, fn)
            ff = (d - c, d - i)
            with A.facts(*ff):
                c2 = sub(new)
                want = A.fmin(n0 + c + step, n1 + 1)
                ck.eq("one pass: next index not yet evaluated", A.lift(lambda x: A.fmin(x, n1 + 1), c2), want, wh, ff)
                ck.eq("one pass: entries of this slice, the others untouched", sub(av.at((i,))), A.ite(
                    A.band(A.gt0(i - c + 1), A.lift(lambda x: A.gt0(x - n0 - i), want)), A.mk("F", (n0 + i,)), A.mk("in", (i,))), wh, ff)
            seen.append(L)
        w.ip.havoc = havoc
        w.call(st, f, F, Sc(n0, "i"), Sc(n1, "i"), Sc(step, "i"))
    ck.run("one pass of the slice loop", frontier)

    for bad, v in (("zero", Sc(A.ZERO, "i")), ("negative", Sc(-posint("step"), "i"))):
        def reject():
            w, st, f, wh, F, calls = setup(1)
            try:
                w.ip.call(f, [F, Sc(A.ZERO, "i"), Sc(index("d"), "i"), v], {}, st)
                ok = st.dead or st.pc is False
            except Unsupported:
                if not calls:
                    raise
                ok = False
            ck.truth("a %s slice length is rejected" % bad, ok, wh, "accepted")
            ck.truth("a %s slice length: nothing is evaluated" % bad, not calls, wh, "function called")
        ck.run(bad, reject)

    def default():
        w, st, f, wh, F, calls = setup(1)
        d = index("d")
        ff = (d - i, 9 - d)
        with A.facts(*ff):
            v = w.call(st, f, F, Sc(A.ZERO, "i"), Sc(d, "i"))
            ck.eq("default slice length", w.at(st, v, i), A.mk("F", (i,)), wh, ff)
    ck.run("default", default)


class Thermo:
    """finiteT on a geometry whose sums over m are uninterpreted functions of the wavenumber (decided by C21)"""

    def __init__(self, ck, cls="finiteT", force_ok=True):
        self.ck = ck
        self.w = w = World(ck, "thermodynamics", "geometry", "scattering", "stratified_sphere_scattering", "materials", "translation",
                           "matrix_balancing")
        self.st = w.state()
        self.S = GSetup.__new__(GSetup)
        s = self.S
        s.ck, s.ext, s.w, s.st, s.kw = ck, 1, w, self.st, {}
        s.r1, s.r2 = pos("r1"), pos("r2")
        s.L = s.r1 + s.r2 + pos("gap")
        s.lmax, s.lss = posint("lmax"), posint("lss")
        from .scatter import Mat
        s.mats = {c: Mat(w, self.st, c) for c in "abc"}
        for n, h in (("mSumme", "MS"), ("mSum_oneRoundtrip", "MO"), ("mSum_trace_dot", "MT")):
            w.ip.contracts["geometry.SphereSphere." + n] = self.elementwise(h)
        w.ip.contracts["geometry.SphereSphere.mSumme_k0"] = lambda ip, args, kw, st, node: Sc(A.sym("MS0"), "F")
        self.cls = w.get("thermodynamics", cls)
        self.dT, self.nmax, self.Tmax = A.sym("dT", pos=True), posint("nmax"), A.sym("Tmax", pos=True)

    def elementwise(self, h):
        def f(ip, args, kw, st, node):
            x = NP.toarr(ip, st, args[1])
            return ip.mkarr(st, ArrVal(list(x.shape), lambda ix: A.lift(lambda k: A.mk(h, (k,)), x.at(ix))))
        return f

    def whole(self):
        """slice-wise evaluation gives the function at every integer (decided by C24)"""
        def f(ip, args, kw, st, node):
            g, a, b = args[:3]
            n = b.e - a.e + 1
            x = ip.mkarr(st, ArrVal([n], lambda ix: a.e + ix[0], "i"))
            return ip.call(g, [x], {}, st)
        self.w.ip.contracts["thermodynamics.slicewise_eval"] = f

    def obj(self, *a, **kw):
        self.geom = self.S.obj()
        args = list(a) or [Sc(self.dT), Sc(self.nmax, "i"), Sc(self.Tmax), self.geom]
        return self.w.call(self.st, self.cls, *args, **kw)

    def method(self, o, name):
        f = self.w.ip.getattr(o, name, self.st)
        return f, self.w.where(f)


def primed(T, zero, term, nmax, j):
    """scaled temperature times the primed Matsubara sum at the (j+1)-fold temperature step"""
    i = j + 1
    n = A.fresh("n", nonneg=True)
    return i * T * (zero + A.summation(n, A.floor(nmax / i), term(T * i * (n + 1))))


@prop("C25", "Value graphs of free energy, force, entropy and zero-temperature energy for symbolic temperature step, number of "
      "frequencies and temperatures; the sums over m are uninterpreted functions of the wavenumber.",
      "entry j is T_j times half the zero-frequency term plus every term n T_j with n T_j <= nmax dT, T_j = (j+1) dT; entropy is minus "
      "the temperature derivative; the zero-temperature energy is the wavenumber integral",
      ASSUME + ("the sums over m depend on each wavenumber separately", "slice-wise evaluation as decided by C24"))
def c25(ck):
    j = index("j")
    eps = R(1) / 10 ** 10
    for cls, name, h, zero in (("finiteT", "free energy, analytic zero frequency", "MS", A.sym("MS0") / 2),
                               ("finiteT", "free energy, numerical zero frequency", "MS", A.mk("MS", (eps,)) / 2),
                               ("oneRoundtrip", "free energy, single round trip", "MO", A.mk("MO", (eps,)) / 2)):
        def energy():
            t = Thermo(ck, cls)
            t.whole()
            w, st = t.w, t.st
            o = t.obj(**({"analytic_n0": False} if "numerical" in name else {}))
            f, wh = t.method(o, "free_energy")
            n = A.mk("round", (t.Tmax / t.dT,), integer=True, nonneg=True)
            ff = (n - j - 1,)
            with A.facts(*ff):
                v = w.call(st, f)
                sh = w.shape(st, v)
                ck.truth(name + ": one value per temperature", isinstance(sh, tuple) and len(sh) == 1 and A.same(sh[0], n), wh, "shape %r" % (sh,))
                ck.eq(name, w.at(st, v, j), primed(t.dT, zero, lambda k: A.mk(h, (k,)), t.nmax, j), wh, ff)
        ck.run(name, energy)

    def alle():
        for cls, h, z in (("finiteT", "MS", A.sym("MS0")), ("oneRoundtrip", "MO", A.mk("MO", (eps,)))):
            t = Thermo(ck, cls)
            w, st = t.w, t.st
            o = t.obj()
            f, wh = t.method(o, "F_alle")
            N, q = posint("N"), index("q")
            kf = lambda i: A.mk("k", (i,), pos=True)
            k = w.ip.mkarr(st, ArrVal([N], lambda i: kf(i[0])))
            k0 = w.ip.mkarr(st, ArrVal([N + 1], lambda i: A.ite(A.eq0(i[0]), A.ZERO, kf(i[0] - 1))))
            ff = (N - q - 1,)
            with A.facts(*ff):
                v = w.call(st, f, k)
                ck.eq("%s, slice without zero" % cls, w.at(st, v, q), A.mk(h, (kf(q),)), wh, ff)
                v = w.call(st, f, k0)
                ck.eq("%s, slice with zero: half weight of zero" % cls, w.at(st, v, A.ZERO), z / 2, wh, ff)
                ck.eq("%s, slice with zero: full weight of the others" % cls, w.at(st, v, q + 1), A.mk(h, (kf(q),)), wh, ff)
                if cls == "finiteT":
                    v = w.call(st, f, w.ip.mkarr(st, ArrVal([A.RONE], lambda i: A.ZERO)))
                    ck.eq("%s, slice of zero alone" % cls, w.at(st, v, *[A.ZERO] * len(w.shape(st, v))), z / 2, wh, ff)
    ck.run("slices", alle)

    def entropy():
        t = Thermo(ck)
        t.whole()
        w, st = t.w, t.st
        n = posint("nT")
        # at least three temperatures, all of them multiples of the step
        t.Tmax = (n + 2) * t.dT
        o = t.obj()
        f, wh = t.method(o, "entropy")
        F = lambda x: primed(t.dT, A.sym("MS0") / 2, lambda k: A.mk("MS", (k,)), t.nmax, x)
        ff = (n - j - 1,)
        with A.facts(*ff):
            v = w.call(st, f)
            ck.eq("entropy: central difference", w.at(st, v, j + 1), -(F(j + 2) - F(j)) / (2 * t.dT), wh, ff)
            ck.eq("entropy: lowest temperature", w.at(st, v, A.ZERO), -(F(A.RONE) - F(A.ZERO)) / t.dT, wh, ff)
            ck.eq("entropy: highest temperature", w.at(st, v, n + 1), -(F(n + 1) - F(n)) / t.dT, wh, ff)
    ck.run("entropy", entropy)

    def zero_t():
        for tag, a, b in (("all wavenumbers", None, None), ("window", A.sym("ka", pos=True), A.sym("ka", pos=True) + A.sym("kb", pos=True)),
                          ("up to the highest frequency", A.sym("ka", pos=True), "none")):
            t = Thermo(ck)
            w, st = t.w, t.st
            o = t.obj()
            f, wh = t.method(o, "e0")
            args = [] if a is None else [Sc(a), Sc(b) if b != "none" else None]
            v = w.call(st, f, *args)
            x = A.fresh("x", integer=False)
            got = w.at(st, v, A.ZERO, A.ZERO)
            ats = [y for y in A.all_atoms(got) if y.head == "integral"]
            if len(ats) != 1:
                ck.undecided("zero-temperature energy, " + tag, wh, "no single integral")
                continue
            at = ats[0]
            lo, hi = at.args[1], at.args[2]
            ck.eq("zero-temperature energy, %s: lower bound" % tag, lo, A.ZERO if a is None else a, wh)
            if a is None:
                ck.truth("zero-temperature energy, %s: upper bound" % tag, "inf" in A.show(hi), wh, A.show(hi))
            else:
                ck.eq("zero-temperature energy, %s: upper bound" % tag, hi, b if b != "none" else t.nmax * t.dT, wh)
            ck.eq("zero-temperature energy, %s: integrand" % tag, at.args[-1], A.mk("MS", (A.bvar(at.args[0]),)), wh)
            ck.eq("zero-temperature energy, %s: weight of the integral" % tag, A.subst(got, {at.id: A.sym("INT")}), A.sym("INT"), wh)
    ck.run("zero temperature", zero_t)

    def force():
        t = Thermo(ck)
        w, st = t.w, t.st
        o = t.obj()
        N, q = posint("N"), index("q")
        kf = lambda i: A.mk("k", (i,), pos=True)
        k = w.ip.mkarr(st, ArrVal([N], lambda i: kf(i[0])))
        k0 = w.ip.mkarr(st, ArrVal([N + 1], lambda i: A.ite(A.eq0(i[0]), A.ZERO, kf(i[0] - 1))))
        ff = (N - q - 1,)
        seen = []

        def grab(ip, args, kw, st, node):
            with A.facts(*ff):
                a = ip.call(args[0], [k], {}, st)
                seen.append(("slice without zero", w.at(st, a, q), A.mk("MT", (t.dT * kf(q),))))
                a = ip.call(args[0], [k0], {}, st)
                seen.append(("slice with zero", w.at(st, a, q + 1), A.mk("MT", (t.dT * kf(q),))))
            return ip.mkarr(st, ArrVal([args[2].e + 1], lambda ix: A.mk("f", (ix[0],))))
        w.ip.contracts["thermodynamics.slicewise_eval"] = grab
        f, wh = t.method(o, "force")
        n = A.mk("round", (t.Tmax / t.dT,), integer=True, nonneg=True)
        gg = (n - j - 1,)
        with A.facts(*gg):
            v = w.call(st, f)
            i = j + 1
            x = A.fresh("n", nonneg=True)
            ck.eq("force: temperatures times sums", w.at(st, v, j), i * t.dT * (A.mk("f", (A.ZERO,)) + A.summation(
                x, A.floor(t.nmax / i), A.mk("f", ((x + 1) * i,)))), wh, gg)
        for tag, g, want in seen:
            ck.eq("force: terms of a " + tag, g, want, wh, ff + (N - 1 - q,))
    ck.run("force", force)
