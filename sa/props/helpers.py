"""C31, C32: numerical derivative, tabulated response."""
from ..model import *
from . import prop
from .sums import callee

ASSUME = ("floating-point rounding is not modelled",)
HF, DI = "helper_functions", "data_inter_extrapolation"


def vecs(w, st, vals, dtype="f"):
    return w.ip.mkarr(st, ArrVal([R(len(vals))], lambda i: NP.select(i[0], [lambda v=v: v for v in vals]), dtype))


def elementwise(g):
    def h(ip, args, kw, st, node):
        x = args[0]
        if isinstance(x, Sc):
            return Sc(A.lift(g, x.e))
        av = NP.toarr(ip, st, x)
        return ip.mkarr(st, ArrVal(list(av.shape), lambda ix: A.lift(g, NP.tonum(av.at(ix)))))
    return h


def interp_contract(w, rec):
    """interp1d(x, y): an uninterpreted function; the tables it is given are recorded"""
    def h(ip, args, kw, st, node):
        if len(args) != 2 or kw:
            raise Unsupported("options of interp1d")
        n = len(rec)
        rec.append((NP.toarr(ip, st, args[0]), NP.toarr(ip, st, args[1])))
        return callee(ip, "interp%d" % n, elementwise(lambda x: A.mk("IP%d" % n, (x,))))
    w.ip.contracts["scipy.interpolate.interp1d"] = h


@prop("C31", "Value graph of the numerical derivative for arrays of symbolic length on a symbolic equidistant grid, with and "
      "without interpolation to a finer grid.",
      "five-point formula inside, central difference next to the ends, one-sided difference at the ends; with interpolation the "
      "same on the refined grid, taken at the given points; a grid that does not increase is rejected",
      ASSUME + ("interp1d is an uninterpreted function of its tables",))
def c31(ck):
    def cases(tag, get, g, h, last, mul, wh):
        """get(q): result at grid point q; g(t): function on the (refined) grid"""
        s = index("q")
        for name, q, ff, want in (
                ("inside", s + 2, (last - s - 4,) if mul == 1 else (), None),
                ("first point", A.ZERO, (), lambda t: (g(t + 1) - g(t)) / h),
                ("last point", last, (), lambda t: (g(t) - g(t - 1)) / h),
                ("second point", A.RONE, (), lambda t: (g(t + 1) - g(t - 1)) / (2 * h)),
                ("last point but one", last - 1, (), lambda t: (g(t + 1) - g(t - 1)) / (2 * h))):
            if mul != 1 and name in ("second point", "last point but one"):
                want = None
            if mul != 1 and name == "inside":
                q, ff = s + 1, (last - s - 2,)
            if want is None:
                want = lambda t: (g(t - 2) - 8 * g(t - 1) + 8 * g(t + 1) - g(t + 2)) / (12 * h)
            with A.facts(*ff):
                ck.eq("%s, %s" % (tag, name), get(q), want(q * mul), wh, ff)

    def plain():
        w = World(ck, HF)
        st = w.state()
        f = w.get(HF, "num_derivative")
        n, h = posint("n") + 4, pos("step")
        y = w.ip.mkarr(st, ArrVal([n], lambda i: A.mk("f", (i[0],))))
        x = w.ip.mkarr(st, ArrVal([n], lambda i: A.sym("x0") + i[0] * h))
        v = w.call(st, f, y, x)
        returns(ck, "derivative returns", st, where=w.where(f))
        sh = w.shape(st, v)
        ck.truth("one value per grid point", isinstance(sh, tuple) and len(sh) == 1 and A.same(sh[0], n), w.where(f), "shape %r" % (sh,))
        cases("derivative", lambda q: w.at(st, v, q), lambda t: A.mk("f", (t,)), h, n - 1, 1, w.where(f))
    ck.run("derivative", plain)

    for M in (10, 3, None):
        for sgn in (1, -1):
            def fine():
                w = World(ck, HF)
                st = w.state()
                f = w.get(HF, "num_derivative")
                rec = []
                interp_contract(w, rec)
                n, h, x0 = posint("n") + 4, pos("step"), pos("x0p")
                mul = 10 if M is None else M
                y = w.ip.mkarr(st, ArrVal([n], lambda i: sgn * A.mk("fp", (i[0],), pos=True)))
                x = w.ip.mkarr(st, ArrVal([n], lambda i: x0 + i[0] * h))
                kw = {} if M is None else {"multiplier": Sc(R(M), "i")}
                v = w.call(st, f, y, x, interpolate=True, **kw)
                wh = w.where(f)
                tag = "interpolated derivative, %s function, %s refinement" % ("positive" if sgn > 0 else "negative", M or "default")
                sh = w.shape(st, v)
                ck.truth(tag + ": one value per grid point", isinstance(sh, tuple) and len(sh) == 1 and A.same(sh[0], n), wh, "shape %r" % (sh,))
                q = index("q")
                ff = (n - q - 1,)
                if len(rec) != 1:
                    return ck.undecided(tag, wh, "%d interpolations" % len(rec))
                with A.facts(*ff):
                    ck.eq(tag + ": abscissae of the table", rec[0][0].at((q,)), A.log(x0 + q * h), wh, ff)
                    ck.eq(tag + ": ordinates of the table", rec[0][1].at((q,)), A.log(A.mk("fp", (q,), pos=True)), wh, ff)
                g = lambda t: sgn * A.exp(A.mk("IP0", (A.log(x0 + t * h / mul),)))
                cases(tag, lambda q: w.at(st, v, q), g, h / mul, n - 1, mul, wh)
            ck.run("interpolated derivative", fine)

    def wrong():
        for d, name in ((-pos("step"), "decreasing"), (A.ZERO, "constant")):
            w = World(ck, HF)
            st = w.state()
            f = w.get(HF, "num_derivative")
            n = posint("n") + 4
            y = w.ip.mkarr(st, ArrVal([n], lambda i: A.mk("f", (i[0],))))
            x = w.ip.mkarr(st, ArrVal([n], lambda i: A.sym("x0") + i[0] * d))
            w.ip.call(f, [y, x], {}, st)
            ck.truth("a %s grid is rejected" % name, st.dead and "ValueError" in {e for _, e, _ in st.frame.raises}, w.where(f), "accepted")
    ck.run("rejected grids", wrong)


@prop("C32", "Value graph of the tabulated response on frequency arrays with symbolic values and every division into below, inside "
      "and above the table (up to three frequencies in each part).",
      "frequencies inside the table get the interpolated value, all others the Drude response fitted to the table, in the order of "
      "the frequencies given",
      ASSUME + ("interp1d is an uninterpreted function of its tables, curve_fit an uninterpreted function of model and tables",))
def c32(ck):
    def one(a, b, c, nd):
        w = World(ck, DI)
        st = w.state()
        K = w.get(DI, "data_interp_extrap")
        rec, fits = [], []
        interp_contract(w, rec)

        def fit(ip, args, kw, st, node):
            if len(args) != 3 or kw:
                raise Unsupported("options of curve_fit")
            fits.append((args[0], NP.toarr(ip, st, args[1]), NP.toarr(ip, st, args[2])))
            return Tup([vecs(w, st, [A.sym("FP", pos=True), A.sym("FG", pos=True)]), Sc(A.sym("cov"))])
        w.ip.contracts["scipy.optimize.curve_fit"] = fit
        lo = pos("w0")
        run = lo * R(a + 1)          # lowest table frequency above a smaller ones
        xs = [run]
        step = pos("dw")
        for i in range(nd - 1):
            xs.append(xs[-1] + step * R(b + 1) / (nd - 1) if nd > 1 else xs[-1])
        om = [lo * R(i + 1) for i in range(a)]
        om += [run + step * R(i + 1) * R("0.99") for i in range(b)]
        om += [xs[-1] + pos("du") * R(i + 1) for i in range(c)]
        xd = vecs(w, st, xs)
        yd = vecs(w, st, [A.mk("yd", (R(i),), pos=True) for i in range(nd)])
        o = w.call(st, K, xd, yd)
        f = w.ip.getattr(o, "get_drude_data", st)
        wh = w.where(f)
        v = w.call(st, f, vecs(w, st, om))
        tag = "%d below, %d inside, %d above a table of %d" % (a, b, c, nd)
        sh = w.shape(st, v)
        ck.truth(tag + ": one value per frequency", isinstance(sh, tuple) and len(sh) == 1 and A.same(sh[0], R(len(om))), wh, "shape %r" % (sh,))
        P, G = A.sym("FP", pos=True), A.sym("FG", pos=True)
        for i, x in enumerate(om):
            inside = a <= i < a + b
            want = A.mk("IP0", (x,)) if inside else 1 + P * P / (x * G + x * x)
            ck.eq("%s: frequency %d" % (tag, i), w.at(st, v, R(i)), want, wh)
        for n, (t, u) in enumerate(rec):
            for i in range(nd):
                ck.eq("%s: table point %d interpolated" % (tag, i), t.at((R(i),)), xs[i], wh)
                ck.eq("%s: table value %d interpolated" % (tag, i), u.at((R(i),)), A.mk("yd", (R(i),), pos=True), wh)
        for n, (m, t, u) in enumerate(fits):
            x = A.sym("xx", pos=True)
            p, g = A.sym("pp", pos=True), A.sym("gg", pos=True)
            ck.eq("%s: fitted model" % tag, w.call(st, m, Sc(x), Sc(p), Sc(g)), 1 + p * p / (x * g + x * x), wh)
            for i in range(nd):
                ck.eq("%s: table point %d fitted" % (tag, i), t.at((R(i),)), xs[i], wh)
                ck.eq("%s: table value %d fitted" % (tag, i), u.at((R(i),)), A.mk("yd", (R(i),), pos=True), wh)
    for a in range(4):
        for b in range(1, 4):
            for c in range(4):
                if a + b + c >= 2 and (a + b + c <= 6):
                    ck.run("%d %d %d" % (a, b, c), lambda: one(a, b, c, 3))
    ck.run("long table", lambda: one(1, 2, 1, 7))

    def model():
        w = World(ck, DI)
        st = w.state()
        o = w.call(st, w.get(DI, "data_interp_extrap"), vecs(w, st, [A.RONE]), vecs(w, st, [A.RONE]))
        f = w.ip.getattr(o, "epsilon_drude", st)
        N, q = posint("N"), index("q")
        k = w.ip.mkarr(st, ArrVal([N], lambda i: A.mk("k", (i[0],), pos=True)))
        x, p, g = A.mk("k", (q,), pos=True), A.sym("pp", pos=True), A.sym("gg", pos=True)
        with A.facts(N - q - 1):
            v = w.call(st, f, k, Sc(p), Sc(g))
            ck.eq("Drude model", w.at(st, v, q), 1 + p * p / (x * g + x * x), w.where(f), (N - q - 1,))
    ck.run("Drude model", model)


@prop("C37", "Value graph of the parameter conversion for lists of up to six oscillators with symbolic strengths and frequencies, given as "
      "lists and as tuples.",
      "each row holds the plasma frequency sqrt(strength) times the resonance frequency, and the resonance frequency e/hbar times the one "
      "in electronvolts, in the order given, so that the static contribution of every oscillator is its strength",
      ASSUME + ("e/hbar is 1.519267e15 per second to 1 part in 100000",))
def c37(ck):
    MC = "materials_converter"
    for n in range(0, 7):
        for kind in ("lists", "tuples"):
            def one():
                w = World(ck, MC)
                st = w.state()
                f = w.get(MC, "transform")
                fs, ws = [pos("f%d" % i) for i in range(n)], [pos("w%d" % i) for i in range(n)]
                row = (lambda x: w.ip.mklist(st, x)) if kind == "lists" else Tup
                v = w.call(st, f, w.ip.mklist(st, [row([Sc(a), Sc(b)]) for a, b in zip(fs, ws)]))
                wh = w.where(f)
                tag = "%d oscillators as %s" % (n, kind)
                ln = w.shape(st, v)[0] if n else A.ZERO
                ck.truth(tag + ": one row each", A.same(ln, R(n)), wh, "%r rows" % (ln,))
                for i in range(n):
                    wp, wr = w.at(st, v, R(i), A.ZERO), w.at(st, v, R(i), A.RONE)
                    ck.eq("%s: strength of oscillator %d" % (tag, i), wp * wp, fs[i] * wr * wr, wh)
                    if i:
                        ck.eq("%s: unit of oscillator %d" % (tag, i), wr * ws[0], w.at(st, v, A.ZERO, A.RONE) * ws[i], wh)
                    ck.approx("%s: frequency of oscillator %d" % (tag, i), wr / ws[i], lambda env: 1.519267e15,
                              [{fs[i]: 2, ws[i]: 3}, {fs[i]: 0.1, ws[i]: 70}], 1e-5, wh)
                    ck.approx("%s: plasma frequency of oscillator %d is positive" % (tag, i), wp / (ws[i] * A.sqrt(fs[i])), lambda env: 1.519267e15,
                              [{fs[i]: 2, ws[i]: 3}], 1e-5, wh)
            ck.run("%d %s" % (n, kind), one)
