"""C22: results do not depend on what an object computed before."""
from ..model import *
from . import prop
from .geo import GSetup, BLOCKS, ASSUME
from .sums import Sums, Thermo, posint, callee


def same_value(ck, w, st, tag, got, want, wh, ff, idx):
    """two results agree: structure, shapes and elements"""
    g = st.heap[got.cell].items if isinstance(got, Ref) else [got]
    v = st.heap[want.cell].items if isinstance(want, Ref) else [want]
    if len(g) != len(v):
        return ck.violated(tag, wh, "%d parts instead of %d" % (len(g), len(v)))
    for n, (a, b) in enumerate(zip(g, v)):
        t = tag if len(g) == 1 else "%s, part %d" % (tag, n + 1)
        sa, sb = w.shape(st, a), w.shape(st, b)
        if not (isinstance(sa, tuple) and isinstance(sb, tuple)):
            ck.undecided(t, wh, "shape depends on conditions")
            continue
        if len(sa) != len(sb) or not all(A.same(x, y) for x, y in zip(sa, sb)):
            ck.violated(t, wh, "shape %r after the history, %r on a new object" % (sa, sb))
            continue
        ix = idx[:len(sa)]
        ck.eq(t, w.at(st, a, *ix), w.at(st, b, *ix), wh, ff)


def vec(w, st, es):
    return w.ip.mkarr(st, ArrVal([R(len(es))], lambda i: NP.select(i[0], [lambda e=e: e for e in es])))


def karrays(w, st, N, kf):
    """pairs (array seen before, array asked for now)"""
    a, b, c = (A.sym("k" + x, pos=True) for x in "abc")
    d = A.sym("kd", pos=True)
    yield "same wavenumbers", lambda: (w.ip.mkarr(st, ArrVal([N], lambda i: kf(i[0]))), w.ip.mkarr(st, ArrVal([N], lambda i: kf(i[0]))))
    yield "first wavenumber differs", lambda: (vec(w, st, [a, b, c]), vec(w, st, [a + d, b, c]))
    yield "inner wavenumber differs", lambda: (vec(w, st, [a, b, c]), vec(w, st, [a, b + d, c]))
    yield "last wavenumber differs", lambda: (vec(w, st, [a, b, c]), vec(w, st, [a, b, c + d]))
    yield "all wavenumbers differ", lambda: (vec(w, st, [a, b, c]), vec(w, st, [a + d, b + 2 * d, c + 3 * d]))
    yield "same wavenumbers in another order", lambda: (vec(w, st, [a, a + d, a + 2 * d]), vec(w, st, [a + 2 * d, a, a + d]))
    eps = R(1) / 10 ** 9
    yield "nearly the same wavenumbers", lambda: (vec(w, st, [a, b, c]), vec(w, st, [a * (1 + eps), b * (1 + eps), c * (1 + eps)]))
    yield "more wavenumbers", lambda: (vec(w, st, [a, b]), vec(w, st, [a, b, c]))
    yield "fewer wavenumbers", lambda: (vec(w, st, [a, b, c]), vec(w, st, [a, b]))
    yield "a single repeated wavenumber", lambda: (vec(w, st, [a]), vec(w, st, [a, a, a]))


@prop("C22", "Value graphs of a call on an object with a history (other wavenumbers, other orders m, other quantities, an argument "
      "modified after the call, a preceding failure) and of the same call on a new object; scan for module-level and class-level state.",
      "both value graphs agree element by element; no function rebinds a module variable, a class attribute or a mutable default",
      ASSUME + ("scattering coefficients and translation tables are functions of their arguments (C07-C15)",))
def c22(ck):
    finite(ck)
    static(ck)
    sums(ck)
    thermo(ck)
    scatter(ck)
    lint(ck)


def finite(ck):
    def coated(s):
        w, st = s.w, s.st
        for c in "de":
            if c not in s.mats:
                s.mats[c] = Mat(w, st, c)
        K = w.get("geometry", "CoatedSphereSphere")
        return w.call(st, K, Sc(pos("r1i")), Sc(s.r1), s.mats["a"].ref, s.mats["d"].ref, Sc(pos("r2i")), Sc(s.r2),
                      s.mats["b"].ref, s.mats["e"].ref, Sc(s.L), s.mats["c"].ref, Sc(s.lmax, "i"), Sc(s.lss, "i"))

    def layers(s):
        w, st = s.w, s.st
        for c in "de":
            if c not in s.mats:
                s.mats[c] = Mat(w, st, c)
        K = w.get("geometry", "SphereSphere")
        lst = lambda *v: w.ip.mklist(st, list(v))
        m = s.mats
        return w.call(st, K, lst(Sc(pos("r1i")), Sc(s.r1)), lst(Sc(pos("r2i")), Sc(s.r2)), Sc(s.L), lst(m["a"].ref, m["d"].ref, m["c"].ref),
                      lst(m["b"].ref, m["e"].ref, m["c"].ref), m["c"].ref, lmax=Sc(s.lmax, "i"), lssmax=Sc(s.lss, "i"))
    from .scatter import Mat
    systems = (("exterior", 1, lambda s: s.obj()), ("interior", 0, lambda s: s.obj()), ("coated", 1, coated), ("layered", 1, layers))
    for sysname, ext, make in systems:
        names = [n for n, _ in karrays(None, None, None, None)]
        for kn in names:
            def one():
                s = GSetup(ck, ext, "m >= 1")
                w, st = s.w, s.st
                k1, k2 = dict(karrays(w, st, s.N, s.kf))[kn]()
                old, new = make(s), make(s)
                f, wh = s.method("blockmatrices", old)
                g, _ = s.method("blockmatrices", new)
                ff = (s.n1 - s.i - 1, s.n1 - s.j - 1) + ((s.N - s.q - 1,) if kn == "same wavenumbers" else
                                                         (w.ip.aval(st, k2).shape[0] - s.q - 1,))
                with A.facts(*ff):
                    w.call(st, f, Sc(s.m, "i"), k1)
                    a = w.call(st, f, Sc(s.m, "i"), k2)
                    b = w.call(st, g, Sc(s.m, "i"), k2)
                    tag = "%s, %s" % (sysname, kn)
                    if kn == "same wavenumbers":
                        same_value(ck, w, st, tag, a, b, wh, ff, (s.q, s.i, s.j))
                    else:
                        for q in range(w.ip.aval(st, k2).shape[0].as_int()):
                            same_value(ck, w, st, "%s, wavenumber %d" % (tag, q + 1), a, b, wh, ff, (R(q), s.i, s.j))
            ck.run("%s, %s" % (sysname, kn), one)

        for tag, seq in (("m = 0 before m", "0m"), ("m before m = 0", "m0"), ("m before m + 1", "mM"), ("m + 1 before m", "Mm"),
                         ("m, 0, m", "m0m")):
            def orders():
                s = GSetup(ck, ext, "m >= 1")
                w, st = s.w, s.st
                # at least one order above m
                s.lmax, s.lss = s.lmax + 1, s.lss + 1
                ms = {"0": A.ZERO, "m": s.m, "M": s.m + 1}
                old, new = make(s), make(s)
                f, wh = s.method("blockmatrices", old)
                g, _ = s.method("blockmatrices", new)
                ff = (s.n1 - s.i - 1, s.n1 - s.j - 1, s.N - s.q - 1)
                with A.facts(*ff):
                    for c in seq:
                        a = w.call(st, f, Sc(ms[c], "i"), s.k)
                    b = w.call(st, g, Sc(ms[c], "i"), s.k)
                    same_value(ck, w, st, "%s, %s" % (sysname, tag), a, b, wh, ff, (s.q, s.i, s.j))
            ck.run("%s, %s" % (sysname, tag), orders)

        def overwritten():
            """the caller reuses its array for other wavenumbers"""
            s = GSetup(ck, ext, "m >= 1")
            w, st = s.w, s.st
            old, new = make(s), make(s)
            f, wh = s.method("blockmatrices", old)
            g, _ = s.method("blockmatrices", new)
            ff = (s.n1 - s.i - 1, s.n1 - s.j - 1, s.N - s.q - 1)
            with A.facts(*ff):
                w.call(st, f, Sc(s.m, "i"), s.k)
                w.ip.write_arr(st, s.k, lambda ix: True, lambda ix: A.RONE + s.kf(ix[0]), None)
                a = w.call(st, f, Sc(s.m, "i"), s.k)
                b = w.call(st, g, Sc(s.m, "i"), s.k)
                same_value(ck, w, st, sysname + ", array overwritten by the caller", a, b, wh, ff, (s.q, s.i, s.j))
        ck.run(sysname + ", array overwritten", overwritten)

        def others():
            """other views of the operator in between"""
            for nm in ("blockmatrices_channels", "blockmatrices_debug", "single_m"):
                s = GSetup(ck, ext, "m >= 1")
                w, st = s.w, s.st
                old, new = make(s), make(s)
                f, wh = s.method("blockmatrices", old)
                h, _ = s.method(nm, old)
                g, _ = s.method("blockmatrices", new)
                ff = (s.n1 - s.i - 1, s.n1 - s.j - 1, s.N - s.q - 1)
                with A.facts(*ff):
                    w.call(st, h, Sc(s.m, "i"), s.k)
                    a = w.call(st, f, Sc(s.m, "i"), s.k)
                    b = w.call(st, g, Sc(s.m, "i"), s.k)
                    same_value(ck, w, st, "%s, after %s" % (sysname, nm), a, b, wh, ff, (s.q, s.i, s.j))
        ck.run(sysname + ", other views", others)


def static(ck):
    for ext in (1, 0):
        geo = "exterior" if ext else "interior"
        for tag, seq in (("twice", "mm"), ("m = 0 before m", "0m"), ("m before m = 0", "m0"), ("m before m + 1", "mM"), ("m + 1 before m", "Mm")):
            def one():
                s = GSetup(ck, ext, "m >= 1")
                w, st = s.w, s.st
                s.lmax, s.lss = s.lmax + 1, s.lss + 1
                ms = {"0": A.ZERO, "m": s.m, "M": s.m + 1}
                old, new = s.obj(), s.obj()
                f, wh = s.method("blockmatrices_k0", old)
                g, _ = s.method("blockmatrices_k0", new)
                ff = (s.n1 - s.i - 1, s.n1 - s.j - 1)
                with A.facts(*ff):
                    for c in seq:
                        a = w.call(st, f, Sc(ms[c], "i"))
                    b = w.call(st, g, Sc(ms[c], "i"))
                    same_value(ck, w, st, "%s, static, %s" % (geo, tag), a, b, wh, ff, (s.i, s.j))
            ck.run("%s, static, %s" % (geo, tag), one)

        def crossed():
            """finite frequencies after the zero frequency and the other way round"""
            for first, then in (("blockmatrices_k0", "blockmatrices"), ("blockmatrices", "blockmatrices_k0")):
                s = GSetup(ck, ext, "m >= 1")
                w, st = s.w, s.st
                old, new = s.obj(), s.obj()
                args = {"blockmatrices": [Sc(s.m, "i"), s.k], "blockmatrices_k0": [Sc(s.m, "i")]}
                h, _ = s.method(first, old)
                f, wh = s.method(then, old)
                g, _ = s.method(then, new)
                ff = (s.n1 - s.i - 1, s.n1 - s.j - 1, s.N - s.q - 1)
                with A.facts(*ff):
                    w.call(st, h, *args[first])
                    a = w.call(st, f, *args[then])
                    b = w.call(st, g, *args[then])
                    same_value(ck, w, st, "%s, %s after %s" % (geo, then, first), a, b, wh, ff,
                               (s.q, s.i, s.j) if then == "blockmatrices" else (s.i, s.j))
        ck.run(geo + ", static and finite", crossed)


SUMS = ("mSumme", "mSumme_k0", "single_m", "mSum_oneRoundtrip", "mSum_roundtrips", "mSum_trace_dot", "supermatrix", "supermatrix (force)")


def sums(ck):
    """one sum after another on the same object"""
    def call(S, o, what, k):
        w, st = S.w, S.st
        name = what.split(" ")[0]
        f = w.ip.getattr(o, name, st)
        if what.startswith("mSumme_k0"):
            v = w.call(st, f)
        elif name == "single_m":
            v = w.call(st, f, Sc(R(1), "i"), k)
        elif what == "supermatrix":
            v = w.call(st, f, Sc(R(1), "i"), k)
        elif what == "supermatrix (force)":
            v = w.call(st, f, Sc(R(1), "i"), k, Sc(R(1), "i"))
        elif name == "mSum_roundtrips":
            v = w.call(st, f, k, Sc(R(2), "i"))
        else:
            v = w.call(st, f, k)
        return v, w.where(f)

    for then in ("mSumme", "mSumme_k0", "single_m", "mSum_oneRoundtrip", "mSum_roundtrips", "supermatrix"):
        for first in SUMS:
            def one():
                S = Sums(ck)
                w, st = S.w, S.st
                S.lmax = R(2)
                N, q = posint("N"), index("q")
                i, j = index("i"), index("j")
                mk = lambda: w.ip.mkarr(st, ArrVal([N], lambda x: A.mk("k", (x[0],), pos=True)))
                k = mk()
                old, new = S.obj(), S.obj()
                # only what the derivative sum leaves behind matters here
                w.ip.contracts["geometry.trace_dot_3d"] = lambda ip, args, kw, st, node: ip.mkarr(st, ArrVal([N], lambda x: A.mk(
                    "TD", (A.mk("k", (x[0],), pos=True),))))
                ff = (N - q - 1,)
                with A.facts(*ff):
                    call(S, old, first, k)
                    a, wh = call(S, old, then, k)
                    b, _ = call(S, new, then, mk())
                    tag = "%s after %s" % (then, first)
                    idx = (q, i, j)
                    g, v = (w.at(st, x, *idx[:len(w.shape(st, x))]) for x in (a, b))
                    S.eq(tag, g, v, wh, ff)
            ck.run("%s after %s" % (then, first), one)


def thermo(ck):
    n0 = {"free_energy": (), "entropy": (), "e0": (), "get_f_matsubaras": (Sc(A.ZERO, "i"),)}
    for then in ("free_energy", "entropy", "e0", "get_f_matsubaras"):
        for first in ("free_energy", "force", "entropy", "e0"):
            for cls in ("finiteT", "oneRoundtrip"):
                if cls == "oneRoundtrip" and first == "force":
                    continue

                def one():
                    t = Thermo(ck, cls)
                    t.whole()
                    w, st = t.w, t.st
                    t.Tmax = 3 * t.dT
                    geom = t.S.obj()
                    args = [Sc(t.dT), Sc(t.nmax, "i"), Sc(t.Tmax), geom]
                    old, new = (w.call(st, t.cls, *args) for _ in range(2))
                    j = index("j")
                    f, wh = t.method(old, then)
                    h, _ = t.method(old, first)
                    g, _ = t.method(new, then)
                    ff = (2 - j,) if then != "get_f_matsubaras" else (t.nmax - j,)
                    if first == "force" and then == "get_f_matsubaras":
                        return
                    with A.facts(*ff):
                        w.call(st, h)
                        a = w.call(st, f, *n0[then])
                        b = w.call(st, g, *n0[then])
                        tag = "%s: %s after %s" % (cls, then, first)
                        if then == "e0":
                            x, y = (w.at(st, v, A.ZERO, A.ZERO) for v in (a, b))
                            ck.truth(tag, len([z for z in A.all_atoms(x) if z.head == "integral"]) == 1, wh, "no integral")
                            canon = lambda e: A.subst(e, {}, lambda at, ar: A.mk("INT", (ar[1], ar[2], A.subst(
                                at.args[-1], {A._single_atom(A.bvar(at.args[0])).id: A.sym("kk")}))) if at.head == "integral" else None)
                            try:
                                ck.eq(tag + ": value", canon(x), canon(y), wh, ff)
                            except Exception as e:
                                ck.undecided(tag + ": value", wh, str(e))
                        elif then == "get_f_matsubaras":
                            ck.eq(tag, w.at(st, a, j), w.at(st, b, j), wh, ff)
                        else:
                            for n in range(3):
                                ck.eq("%s, temperature %d" % (tag, n + 1), w.at(st, a, R(n)), w.at(st, b, R(n)), wh)
                ck.run("%s: %s after %s" % (cls, then, first), one)

    def shared():
        """two calculations on one geometry do not see each other"""
        t = Thermo(ck)
        t.whole()
        w, st = t.w, t.st
        geom, geom2 = t.S.obj(), t.S.obj()
        mk = lambda T, g: w.call(st, t.cls, Sc(T), Sc(t.nmax, "i"), Sc(3 * T), g)
        o1, o2 = mk(t.dT, geom), mk(2 * t.dT, geom)
        ref = mk(2 * t.dT, geom2)
        f1, wh = t.method(o1, "free_energy")
        f2, _ = t.method(o2, "free_energy")
        f3, _ = t.method(ref, "free_energy")
        w.call(st, f1)
        a, b = w.call(st, f2), w.call(st, f3)
        for n in range(3):
            ck.eq("two calculations sharing one geometry, temperature %d" % (n + 1), w.at(st, a, R(n)), w.at(st, b, R(n)), wh)
    ck.run("shared geometry", shared)

    def result_mutated():
        """changing a returned array does not change the next result"""
        t = Thermo(ck)
        t.whole()
        w, st = t.w, t.st
        t.Tmax = 2 * t.dT
        geom = t.S.obj()
        args = [Sc(t.dT), Sc(t.nmax, "i"), Sc(t.Tmax), geom]
        old, new = (w.call(st, t.cls, *args) for _ in range(2))
        f, wh = t.method(old, "free_energy")
        g, _ = t.method(new, "free_energy")
        a = w.call(st, f)
        if isinstance(a, Arr):
            w.ip.write_arr(st, a, lambda ix: True, lambda ix: A.ZERO, None)
        a, b = w.call(st, f), w.call(st, g)
        for n in range(2):
            ck.eq("free_energy after the caller changed the previous result, temperature %d" % (n + 1), w.at(st, a, R(n)), w.at(st, b, R(n)), wh)
    ck.run("result changed by the caller", result_mutated)


def scatter(ck):
    """coefficients and tables after other requests on the same object"""
    from .scatter import Setup, Mat as M
    other = {"k": lambda s: s.w.ip.mkarr(s.st, ArrVal([R(2)], lambda i: A.mk("kk", (i[0],), pos=True)))}

    def solid():
        for meth in ("mie", "mie_internal"):
            s = Setup(ck)
            w, st = s.w, s.st
            a, b = M(w, st, "a"), M(w, st, "b")
            K = w.get("scattering", "scattering")
            old, new = (w.call(st, K, a.ref, b.ref) for _ in range(2))
            f, g = (w.ip.getattr(o, meth, st) for o in (old, new))
            wh = w.where(f)
            ff = (s.N - s.q - 1, s.d - s.j)
            args = [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i"), Sc(s.r)]
            with A.facts(*ff):
                w.call(st, f, other["k"](s), Sc(R(1), "i"), Sc(R(2), "i"), Sc(pos("rr")))
                x, y = w.call(st, f, *args), w.call(st, g, *args)
                for c in range(3):
                    ck.eq("%s after another request, component %d" % (meth, c + 1), w.at(st, x, R(c), s.q, s.j), w.at(st, y, R(c), s.q, s.j), wh, ff)
    ck.run("solid sphere", solid)

    def layers():
        s = Setup(ck, "bessel_sk", "scattering", "materials", "stratified_sphere_scattering")
        w, st = s.w, s.st
        ms = [M(w, st, c).ref for c in "abc"]
        K = w.get("stratified_sphere_scattering", "StratifiedMieScattering")
        r1, dr = pos("ra"), pos("dr")
        mk = lambda: w.call(st, K, w.ip.mklist(st, list(ms)), w.ip.mklist(st, [Sc(r1), Sc(r1 + dr)]))
        old, new = mk(), mk()
        f, g = (w.ip.getattr(o, "mie_stratified", st) for o in (old, new))
        wh = w.where(f)
        ff = (s.N - s.q - 1, s.d - s.j)
        args = [s.k, Sc(s.lmin, "i"), Sc(s.lmax, "i")]
        with A.facts(*ff):
            w.call(st, f, *args)
            x, y = w.call(st, f, *args), w.call(st, g, *args)
            for c in range(3):
                ck.eq("mie_stratified twice, component %d" % (c + 1), w.at(st, x, R(c), s.q, s.j), w.at(st, y, R(c), s.q, s.j), wh, ff)
    ck.run("layered sphere", layers)

    def tables():
        from .trans import TSetup
        for ext in (1, 0):
            s = TSetup(ck, ext)
            w, st = s.w, s.st
            n = posint("nA")
            m = posint("mp")
            old, new = s.make(m + n, m + n, m), s.make(m + n, m + n, m)
            f, g = (w.ip.getattr(o, "get_vl1l2", st) for o in (old, new))
            wh = w.where(f)
            l2, d = posint("l2"), index("d")
            ff = (s.N - s.q - 1,)
            with A.facts(*ff):
                w.call(st, f, Sc(l2 + d + 1, "i"), Sc(l2 + 1, "i"))
                x, y = (w.call(st, h, Sc(l2 + d, "i"), Sc(l2, "i")) for h in (f, g))
                xs, ys = (list(v.items) if isinstance(v, Tup) else st.heap[v.cell].items for v in (x, y))
                for c, (u, v) in enumerate(zip(xs, ys)):
                    sh = w.shape(st, u)
                    ck.eq("%s translation, pair after pair, part %d" % ("exterior" if ext else "interior", c + 1),
                          w.at(st, u, s.q) if sh else w.at(st, u), w.at(st, v, s.q) if sh else w.at(st, v), wh, ff)
    ck.run("translation", tables)


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "popitem", "add", "discard"}


def lint(ck):
    """state shared between objects would need a relational argument of its own"""
    w = World(ck)
    nf = 0
    for mod in MODULES:
        m = w.ip.tree(mod)
        if m is None:
            continue
        tree = m
        top = {t.id for s in tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
        classes = {s.name for s in tree.body if isinstance(s, ast.ClassDef)}
        mods = {a.asname or a.name for s in tree.body if isinstance(s, ast.Import) for a in s.names}
        bad = []
        for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.Lambda))]:
            nf += 1
            a = fn.args
            local = {x.arg for x in a.args + a.kwonlyargs} | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            glob = {n for x in ast.walk(fn) if isinstance(x, ast.Global) for n in x.names}
            name = getattr(fn, "name", "lambda")
            if glob:
                bad.append((fn.lineno, name, "rebinds module variable " + ", ".join(sorted(glob))))
            dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
            shared = {n for n, d in dflt.items() if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call))}
            shared |= (top | classes | mods) - local | glob
            for x in ast.walk(fn):
                t, seen = None, shared
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    t = x.value
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    t, seen = x.func.value, shared - mods
                while isinstance(t, (ast.Attribute, ast.Subscript)):
                    t = t.value
                if isinstance(t, ast.Name) and t.id in seen:
                    bad.append((x.lineno, name, "changes %s, which outlives the call" % t.id))
        for line, name, why in bad:
            ck.undecided("%s.%s: no state outside objects" % (mod, name), "CasimirRio/%s.py:%d" % (mod, line), why)
        if not bad:
            ck.holds("%s: no state outside objects" % mod, "CasimirRio/%s.py" % mod, "no function writes a module variable, class attribute or default")


MODULES = ("materials", "bessel_sk", "scattering", "stratified_sphere_scattering", "translation", "cython_gaunt", "matrix_balancing",
           "geometry", "thermodynamics", "PFA", "raw_PFA", "helper_functions", "data_inter_extrapolation")
