"""C05-C06: logarithms of the modified spherical Bessel functions."""
import mpmath
from ..model import *
from .. import loops as LP
from .. import evalr
from . import prop

MOD = "bessel_sk"


def lnk(l, x):
    return A.mk("LNK", (l, x))


def lni(l, x):
    return A.mk("LNI", (l, x))


def cf_contract(ip, args, kw, st, node):
    x = args[0] if args else list(kw.values())[0]
    if isinstance(x, Phi):
        return ip.lift_st(lambda z, s: cf_contract(ip, [z], {}, s, node), x, st)
    av = ip.aval(st, x)
    d = A.fresh("cfj", nonneg=True)
    return ip.mkarr(st, ArrVal([av.shape[0]], lambda idx: A.binder("cf", d, (av.shape[1],), av.at((idx[0], d)))))


def world(ck, contract=True):
    w = World(ck, MOD)
    if contract and isinstance(w.env(MOD).get("fraction"), FuncV):
        w.ip.contracts[MOD + ".fraction"] = cf_contract
    return w


def symbolic(w, st):
    N = posint("N")
    x = w.ip.mkarr(st, ArrVal([N], lambda i: A.mk("x", i, pos=True)))
    return x, N


def pair(w, st, vals):
    vals = [v if isinstance(v, Rat) else R(v) for v in vals]
    return w.ip.mkarr(st, ArrVal([len(vals)], lambda i: NP.select(i[0], [lambda v=v: v for v in vals])))


def k_induction(ck, name, wh, get, x, l):
    """base values and three-term recurrence of the value at symbolic order l >= 2"""
    def base(j, want):
        return ck.eq("%s: order %d closed form" % (name, j), LP.unfold(get(R(j))), want, wh)
    a = base(0, A.log(A.mk("pi")) - A.log(R(2)) - A.log(x) - x)
    b = base(1, A.log(A.mk("pi")) - A.log(R(2)) - 2 * A.log(x) - x + A.log(x + 1))
    return a and b


def k_checks(ck, entry, get_fn):
    """entry(w, st, x, L) -> array of log K"""
    w = world(ck)
    st = w.state()
    f = w.get(MOD, entry)
    wh = w.where(f)

    def go():
        x, N = symbolic(w, st)
        L = index("lmax")
        l, q = index("l"), index("q")
        xq = A.mk("x", (q,), pos=True)
        v = get_fn(w, st, f, x, Sc(L, "i"))
        ff = (N - q - 1, L - l)
        with A.facts(*ff):
            returns(ck, entry + " returns for every argument array and order", st, where=wh)
            sh = w.shape(st, v)
            ck.truth(entry + ": one row per argument, one column per order",
                     isinstance(sh, tuple) and len(sh) == 2 and A.same(sh[0], N) and A.same(sh[1], L + 1), wh,
                     "shape %r" % (sh,)) if isinstance(sh, tuple) else _shape(ck, entry, sh, N, L, wh)
        for j, want in ((0, A.log(A.mk("pi")) - A.log(R(2)) - A.log(xq) - xq),
                        (1, A.log(A.mk("pi")) - A.log(R(2)) - 2 * A.log(xq) - xq + A.log(xq + 1))):
            fj = (N - q - 1, L - j)
            with A.facts(*fj):
                e = w.at(st, v, q, R(j))
                ck.eq("%s: order %d closed form" % (entry, j), LP.unfold(e), want, wh, fj)
        fl = (N - q - 1, L - l, l - 2)
        with A.facts(*fl):
            e0, e1, e2 = (w.at(st, v, q, l - j) for j in (0, 1, 2))
            r = evalr.opaque_in(e0)
            lhs = LP.resolve(A.lift(A.exp, LP.unfold(e0)))
            rhs = LP.resolve(A.lift(lambda a, b: A.exp(a) + (2 * l - 1) / xq * A.exp(b), e2, e1))
            if A.same(lhs, rhs):
                ck.holds(entry + ": three-term recurrence for every order", wh,
                         "induction: unfolded step satisfies K_l = K_{l-2} + (2l-1)/x K_{l-1}")
            else:
                ck.eq(entry + ": three-term recurrence for every order", e0, lnk(l, xq), wh, fl)
    ck.run(entry, go, wh)
    # numerically extreme arguments of the extracted recurrence
    for vals, at, tag in (((pos("x0"),), 0, "alone"), ((pos("x0"), R("0.000001")), 0, "with a tiny neighbour"),
                          ((R(700), pos("x0")), 1, "with a huge neighbour")):
        def scen():
            w2 = world(ck)
            s2 = w2.state()
            x = pair(w2, s2, vals)
            v = get_fn(w2, s2, w2.get(MOD, entry), x, Sc(R(6), "i"))
            for lv in (0, 1, 2, 6):
                e = w2.at(s2, v, R(at), R(lv))
                ck.approx("%s: order %d, %s" % (entry, lv, tag), e,
                          lambda env: evalr.lnk(mpmath.mpf(lv), env[pos("x0")]),
                          [{pos("x0"): mpmath.mpf(p)} for p in ("1e-9", "1e-4", "0.03", "1", "17", "150", "900")],
                          1e-12, wh)
        ck.run("%s %s" % (entry, tag), scen, wh)


def _shape(ck, entry, sh, N, L, wh):
    for c, t in gleaves(sh):
        with A.assuming(c) as ok:
            if not ok:
                continue
            d = len(t.items) == 2 and A.same(t.items[0], N) and \
                (A.same(t.items[1], L + 1) or A.same(A.subst(t.items[1] - L, {}), A.RONE)
                 or A.eq0(t.items[1] - L - 1) is True)
            if not d:
                return ck.violated(entry + ": one row per argument, one column per order", wh, "shape %r" % (t,))
    return ck.holds(entry + ": one row per argument, one column per order", wh)


def integer_only(ck, entry, args):
    w = world(ck)
    st = w.state()

    def go():
        f = w.get(MOD, entry)
        x, N = symbolic(w, st)
        w.ip.call(f, args(x, Sc(pos("lfloat"), "f")), {}, st)
        names = {n for c, n, _ in st.frame.raises}
        ck.truth("%s rejects a non-integer order" % entry, st.dead and "TypeError" in names, w.where(f),
                 "a float order is accepted")
    ck.run(entry + " argument check", go)


ASSUME = ("floating-point rounding is not modelled", "arguments are positive")


@prop("C05", "Value graph of the log of the irregular function for an argument array of symbolic length and symbolic "
      "maximal order; the loop is summarised as an array recurrence whose base and step are compared with the closed "
      "forms and the three-term recurrence.",
      "orders 0 and 1 equal the closed forms; unfolded step at symbolic order satisfies K_l = K_{l-2} + (2l-1)/x K_{l-1}; "
      "the value at one argument is the same whatever the other arguments are", ASSUME)
def c05(ck):
    k_checks(ck, "lnknu", lambda w, st, f, x, L: w.call(st, f, x, L))
    k_checks(ck, "lniknu", lambda w, st, f, x, L: second(w, st, w.call(st, f, x, L)))
    integer_only(ck, "lnknu", lambda x, L: [x, L])
    interfaces(ck, "K")


def second(w, st, v, k=1):
    return lift_leaves(v, lambda t: t.items[k]) if isinstance(v, Phi) else v.items[k]


def bessel_contracts(w):
    """lniknu / lnknu -> uninterpreted LNI / LNK"""
    def arr(st, x, L, head):
        av = NP.toarr(w.ip, st, x)
        return w.ip.mkarr(st, ArrVal([av.shape[0], L.e + 1],
                                     lambda ix: A.lift(lambda y: A.mk(head, (ix[1], y)), av.at((ix[0],)))))

    def args2(args, kw):
        a = list(args)
        x = a[0] if a else kw["x"]
        L = a[1] if len(a) > 1 else kw["lmax"]
        if isinstance(x, (Unknown,)) or not isinstance(L, Sc):
            raise Unsupported("bessel arguments")
        return x, L

    def ik(ip, args, kw, st, node):
        x, L = args2(args, kw)
        return Tup([arr(st, x, L, "LNI"), arr(st, x, L, "LNK")])

    def k(ip, args, kw, st, node):
        x, L = args2(args, kw)
        return arr(st, x, L, "LNK")
    w.ip.contracts[MOD + ".lniknu"] = ik
    w.ip.contracts[MOD + ".lnknu"] = k


def interfaces(ck, which):
    w = World(ck, MOD)
    bessel_contracts(w)
    st = w.state()

    def mie():
        f = w.get(MOD, "mie_bessels")
        wh = w.where(f)
        x, N = symbolic(w, st)
        a, d = index("lmin"), index("dl")
        L = a + d
        q, j = index("q"), index("j")
        v = w.call(st, f, x, Sc(a, "i"), Sc(L, "i"))
        ff = (N - q - 1, d - j)
        with A.facts(*ff):
            returns(ck, "orders lmin..lmax are returned for every lmin <= lmax", st, where=wh)
            t = second(w, st, v, 0 if which == "I" else 1)
            ck.eq("orders lmin..lmax: column j is order lmin+j", w.at(st, t, q, j),
                  A.mk("LN" + which, (a + j, A.mk("x", (q,), pos=True))), wh, ff)
            sh = w.shape(st, t)
            ck.truth("orders lmin..lmax: number of columns", isinstance(sh, tuple) and A.same(sh[1], d + 1), wh,
                     "shape %r" % (sh,))
        s3 = w.state()
        e = posint("excess")
        x3, _ = symbolic(w, s3)
        w.ip.call(f, [x3, Sc(L + e, "i"), Sc(L, "i")], {}, s3)
        ck.truth("lmin > lmax is rejected", s3.dead and "ValueError" in {n for c, n, _ in s3.frame.raises}, wh,
                 "accepted")
    ck.run("mie interface", mie)

    def trans():
        f = w.get(MOD, "trans_bessels")
        wh = w.where(f)
        flag = 1 if which == "K" else 0
        s2 = w.state()
        x, N = symbolic(w, s2)
        L, q, l = index("lmax"), index("q"), index("l")
        v = w.call(s2, f, x, Sc(L, "i"), Sc(R(flag), "i"))
        ff = (N - q - 1, L - l)
        with A.facts(*ff):
            ck.eq("translation interface selects the %s function" % ("irregular" if flag else "regular"),
                  w.at(s2, v, q, l), A.mk("LN" + which, (l, A.mk("x", (q,), pos=True))), wh, ff)
    ck.run("translation interface", trans)


POINTS = ("1e-9", "1e-6", "0.0002", "0.00099", "0.00101", "0.02", "0.5", "3", "20", "99", "101", "400", "1000")


@prop("C06", "Value graph of the log of the regular function: closed forms of orders 0 and 1, extracted small-argument "
      "polynomials with their switch-over point, Wronskian form for higher orders with the extracted continued fraction.",
      "the value at order l equals ln i_l(x): exact branches by normal form or the Wronskian identity, approximating "
      "branches within 1e-6 of the exact function; the closed form that cancels is not used below 2e-4; the value at one "
      "argument is the same whatever the other arguments are", ASSUME)
def c06(ck):
    x0 = pos("x0")
    scen = [((x0,), 0, "a single argument"), ((x0, R("0.000001")), 0, "a tiny neighbour behind"),
            ((R("0.0000021"), x0), 1, "a tiny neighbour in front"), ((x0, R(5)), 0, "an ordinary neighbour behind"),
            ((R(5), x0), 1, "an ordinary neighbour in front"), ((R(700), x0), 1, "a huge neighbour in front"),
            ((x0, R(700)), 0, "a huge neighbour behind"),
            ((R("0.0009"), R(3), x0, R("0.00002"), R(40), R("0.0003")), 2, "an unsorted mixture around it"),
            ((R(12), x0, R("0.0007"), R("0.5"), R("0.000003")), 1, "a descending mixture behind"),
            ((R("0.000005"), R("0.0008"), R(3), R(90), x0), 4, "an ascending mixture in front")]
    for Lv in (0, 1, 12):
        for vals, at, tag in scen:
            def go():
                w = world(ck)
                st = w.state()
                f = w.get(MOD, "lniknu")
                wh = w.where(f)
                v = second(w, st, w.call(st, f, pair(w, st, vals), Sc(R(Lv), "i")), 0)
                for lv in sorted({0, Lv, min(1, Lv), min(2, Lv), min(5, Lv)}):
                    e = w.at(st, v, R(at), R(lv))
                    nm = "order %d of %d, %s" % (lv, Lv, tag)
                    ck.approx(nm, e, lambda env: evalr.lni(mpmath.mpf(lv), env[x0]),
                              [{x0: mpmath.mpf(p)} for p in POINTS], 1e-6 if lv > 1 else 1e-11, wh,
                              "every branch of the extracted value graph within tolerance of ln i_l")
                    if lv == 1 and not has_unk(e):
                        leaf = evalr.select_leaf(e, {x0: mpmath.mpf("0.0001")})
                        bad = any(a.head == "exp" for a in A.all_atoms(leaf))
                        ck.truth(nm + ": no cancelling closed form at small argument", not bad, wh,
                                 "at x=1e-4 the value is %s, whose leading terms cancel" % A.clip(leaf))
            ck.run("regular function, %s" % tag, go)
    # symbolic: dependence on the own argument only, exact branches
    w = world(ck)
    st = w.state()

    def sym_():
        f = w.get(MOD, "lniknu")
        wh = w.where(f)
        x, N = symbolic(w, st)
        L, l, q = index("lmax"), index("l"), index("q")
        xq = A.mk("x", (q,), pos=True)
        v = second(w, st, w.call(st, f, x, Sc(L, "i")), 0)
        returns(ck, "regular function returns for every argument array and order", st, where=wh)
        ff = (N - q - 1, L - l, l - 2, xq - R("0.01"))
        with A.facts(*ff):
            e = w.at(st, v, q, l)
            n = 0
            for c, leaf in gleaves(e):
                with A.assuming(c) as ok:
                    if not ok or not isinstance(leaf, Rat):
                        continue
                    cfs = [a for a in A.all_atoms(leaf) if a.head == "cf"]
                    if len(cfs) != 1:
                        continue
                    F = R(cfs[0])
                    d, nn, body = cfs[0].args
                    ck.eq("order l>=2: continued-fraction elements", A.subst(body, {A._bvid(d): index("n")}),
                          2 * (l + R("0.5") + index("n") + 1) / xq, wh, ff)
                    ra = [a for a in A.all_atoms(leaf) if a.head == "ra"]
                    rids = {a.args[0] for a in ra}
                    if len(rids) == 1:
                        rid = rids.pop()
                        ks = lambda o: A.mk("ra", (rid, q, o))
                        want = A.log(A.mk("pi")) - A.log(R(2)) - 2 * A.log(xq) - A.log(A.exp(ks(l + 1)) + A.exp(ks(l)) / F)
                        if A.same(leaf, want):
                            n += 1
                            ck.holds("order l>=2: Wronskian i_l k_{l+1} + i_{l+1} k_l = pi/(2x^2)", wh,
                                     "normal forms agree with i_{l+1} = i_l / fraction")
            ck.counts["wronskian_branches"] = n
    ck.run("regular function, symbolic order", sym_)

    def frac():
        w3 = world(ck, contract=False)
        f = w3.env(MOD).get("fraction")
        if not isinstance(f, FuncV):
            return
        w3.ip.maxrec = 12
        for n in (1, 2, 3, 5):
            s3 = w3.state()
            a = w3.ip.mkarr(s3, ArrVal([posint("N"), R(n)], lambda i: A.mk("b", i, pos=True)))
            v = w3.call(s3, f, a)
            q = index("q")
            with A.facts(posint("N") - q - 1):
                want = A.mk("b", (q, R(n - 1)), pos=True)
                for j in range(n - 2, -1, -1):
                    want = A.mk("b", (q, R(j)), pos=True) + 1 / want
                ck.eq("continued fraction with %d elements" % n, w3.at(s3, v, q), want, w3.where(f))
    ck.run("continued fraction", frac)

    def ratio():
        w4 = world(ck)
        f = w4.get(MOD, "i_fraction")
        s4 = w4.state()
        nus = w4.ip.mkarr(s4, ArrVal([R(3)], lambda i: NP.select(i[0], [lambda v=v: v for v in (R("0.5"), R("2.5"), R("40.5"))])))
        v = w4.call(s4, f, pair(w4, s4, (x0, R(2))), nus)
        for j, nu in enumerate(("0.5", "2.5", "40.5")):
            ck.approx("ratio of consecutive regular functions, order %s" % nu, w4.at(s4, v, R(j), R(0)),
                      lambda env: mpmath.besseli(mpmath.mpf(nu), env[x0]) / mpmath.besseli(mpmath.mpf(nu) + 1, env[x0]),
                      [{x0: mpmath.mpf(p)} for p in ("0.001", "0.3", "4", "60", "300")], 1e-6, w4.where(f))
    ck.run("ratio", ratio)
    integer_only(ck, "lniknu", lambda x, L: [x, L])
    interfaces(ck, "I")
