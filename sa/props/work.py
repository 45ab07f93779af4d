"""C28, C29: the command-line program."""
from ..model import *
from . import prop
from .sums import callee

ASSUME = ("configparser reads options as documented: numbers, text, missing options",)
MOD = "worker"


class Num:
    """text of a number in the job file"""

    def __init__(self, e, kind):
        self.e, self.kind = e, kind


def F(name):
    return Num(pos("cfg_" + name), "f")


def N(name):
    return Num(posint("cfg_" + name), "i")


def job(**kw):
    g = {"ra": F("ra"), "rb": F("rb"), "d": F("d"), "lmax": N("lmax"), "lssmax": N("lssmax"), "l_offset": N("l_offset"),
         "precision": F("precision"), "evaluation": "lndet", "analytic_n0": "True"}
    m = {"mata": "materials.Gold", "matb": "materials.Silver", "matmd": "materials.modifiedWater"}
    t = {"tmin": F("tmin"), "tmax": F("tmax"), "nmax": N("nmax"), "quantity": "free_energy()"}
    for k, v in kw.items():
        k = k.lower()
        d = g if k in g else m if k in m else t
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return {"geometry": g, "materials": m, "thermodynamics": t}


class Run:
    """abstract execution of the program with one job file, argument list and set of existing files"""

    def __init__(self, ck, cfg, argv=("worker.py", "job.config", "out.res"), existing=()):
        self.ck, self.cfg, self.argv = ck, cfg, argv
        self.files = {p: ["old contents of " + p] for p in existing}
        self.existing = set(existing)
        self.lost = []
        self.geoms, self.thermos, self.reads, self.quant = [], [], [], []
        self.w = w = World(ck, "materials", "geometry", "thermodynamics")
        ip = w.ip
        NP.LIVE = ip
        c = ip.contracts
        c[("const", "sys.argv")] = lambda ip, st: ip.mklist(st, list(argv))
        for n in ("RawConfigParser", "ConfigParser", "SafeConfigParser"):
            c["configparser." + n] = lambda ip, args, kw, st, node: ip.mkobj(st, "Cfg", {}, label="config")
        for n in ("read", "getfloat", "getint", "get", "getboolean", "has_option", "has_section"):
            self.method("Cfg", n, getattr(self, "c_" + n))
        c["geometry.SphereSphere"] = self.geometry
        c["thermodynamics.finiteT"] = self.thermo
        c["os.path.exists"] = c["os.path.isfile"] = c["os.path.lexists"] = lambda ip, args, kw, st, node: self.path(args[0]) in self.files
        c["open"] = self.open
        c["numpy.savetxt"] = self.savetxt
        for n in ("write", "close", "flush", "writelines"):
            self.method("File", n, getattr(self, "f_" + n))
        ip.script, ip.concrete = MOD, True
        n0 = len(ip.unknowns)
        self.m = ip.module(MOD)
        # a construct outside the vocabulary may hide effects: nothing about them is concluded then
        hid = [u for u in ip.unknowns[n0:] if MOD in str(u[1])]
        if hid:
            raise Unsupported("%s" % (hid[0][0],))
        if self.m is None:
            raise Broken("module worker is gone")
        self.st = self.m.st
        self.raised = sorted({n for _, n, _ in self.st.frame.raises})

    # -- objects ---------------------------------------------------------------
    def method(self, cls, name, h):
        def attr(ip, o, st):
            return callee(ip, "%s.%s.%d" % (cls, name, o.cell), lambda ip, args, kw, st, node: h(ip, o, args, kw, st, node))
        self.w.ip.contracts[("attr", cls, name)] = attr

    def certain(self, st, what):
        if st.pc is not True:
            raise Unsupported("%s on some paths only" % what)

    def path(self, v):
        if not isinstance(v, str):
            raise Unsupported("file name %r" % (v,))
        return v

    # -- job file ----------------------------------------------------------------
    def option(self, ip, args, kw, st, node):
        a = list(args) + [kw[k] for k in ("section", "option") if k in kw]
        if not (len(a) >= 2 and isinstance(a[0], str) and isinstance(a[1], str)):
            raise Unsupported("option %r" % (a,))
        if not self.reads:
            ip.may_raise(st, True, "NoSectionError", node)
            return None
        if "fallback" in kw and (a[0] not in self.cfg or a[1].lower() not in self.cfg[a[0]]):
            return ("fallback", kw["fallback"])
        if a[0] not in self.cfg:
            ip.may_raise(st, True, "NoSectionError", node)
            return None
        v = self.cfg[a[0]].get(a[1].lower())
        if v is None:
            ip.may_raise(st, True, "NoOptionError", node)
        return v

    def c_read(self, ip, o, args, kw, st, node):
        self.reads.append(self.path(args[0]) if isinstance(args[0], str) else None)
        return ip.mklist(st, [args[0]])

    def c_getfloat(self, ip, o, args, kw, st, node):
        v = self.option(ip, args, kw, st, node)
        if v is None:
            return Unknown("missing option")
        if isinstance(v, tuple):
            return v[1]
        if isinstance(v, Num):
            return Sc(v.e)
        try:
            return Sc(R(str(float(v))))
        except ValueError:
            ip.may_raise(st, True, "ValueError", node)
            return Unknown("not a number")

    def c_getint(self, ip, o, args, kw, st, node):
        v = self.option(ip, args, kw, st, node)
        if v is None:
            return Unknown("missing option")
        if isinstance(v, tuple):
            return v[1]
        if isinstance(v, Num) and v.kind == "i":
            return Sc(v.e, "i")
        if isinstance(v, str):
            try:
                return Sc(R(int(v)), "i")
            except ValueError:
                pass
        ip.may_raise(st, True, "ValueError", node)
        return Unknown("not an integer")

    def c_getboolean(self, ip, o, args, kw, st, node):
        v = self.option(ip, args, kw, st, node)
        if v is None:
            return Unknown("missing option")
        if isinstance(v, tuple):
            return v[1]
        b = {"true": True, "yes": True, "on": True, "1": True, "false": False, "no": False, "off": False, "0": False}.get(
            v.lower() if isinstance(v, str) else None)
        if b is None:
            ip.may_raise(st, True, "ValueError", node)
            return Unknown("not a truth value")
        return b

    def c_get(self, ip, o, args, kw, st, node):
        v = self.option(ip, args, kw, st, node)
        if v is None:
            return Unknown("missing option")
        if isinstance(v, tuple):
            return v[1]
        if isinstance(v, Num):
            raise Unsupported("text of a number")
        return v

    def c_has_option(self, ip, o, args, kw, st, node):
        return args[0] in self.cfg and args[1].lower() in self.cfg[args[0]]

    def c_has_section(self, ip, o, args, kw, st, node):
        return args[0] in self.cfg

    # -- calculation ---------------------------------------------------------------
    def bind(self, ip, cls, args, kw):
        f = cls.lookup("__init__")[1].node.args
        names = [a.arg for a in f.args][1:]
        d = dict(zip(names, args))
        d.update(kw)
        for a, dv in zip(names[len(names) - len(f.defaults):], f.defaults):
            if a not in d and isinstance(dv, ast.Constant):
                v = dv.value
                d[a] = Sc(R(str(v)), "i" if isinstance(v, int) else "f") if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        return d

    def geometry(self, ip, args, kw, st, node):
        self.certain(st, "geometry")
        d = self.bind(ip, self.w.get("geometry", "SphereSphere"), args, kw)
        at = dict(d)
        for n in ("lmax", "lssmax"):
            at[n] = Sc(A.sym("used_" + n, integer=True, pos=True), "i")
        at["roundTrip_dct"] = Opq(("roundTrip_dct",))
        self.geoms.append({k: self.deep(st, v) for k, v in d.items()})
        return ip.mkobj(st, "Geom", at, label="geometry")

    def deep(self, st, v):
        if isinstance(v, Ref) and isinstance(st.heap.get(v.cell), ListVal):
            return ["list"] + [self.deep(st, x) for x in st.heap[v.cell].items]
        return v

    def thermo(self, ip, args, kw, st, node):
        self.certain(st, "calculation")
        d = self.bind(ip, self.w.get("thermodynamics", "finiteT"), args, kw)
        self.thermos.append(dict(d))
        at = dict(d)
        at["nmax"] = Sc(A.sym("used_nmax", integer=True, pos=True), "i")
        for n in ("free_energy", "force", "entropy", "e0", "get_f_matsubaras"):
            self.method("Thermo", n, lambda ip, o, args, kw, st, node, n=n: self.quantity(n, ip, args, kw, st))
        return ip.mkobj(st, "Thermo", at, label="thermo")

    def quantity(self, n, ip, args, kw, st):
        self.certain(st, "quantity")
        self.quant.append((n, args, kw))
        return ip.mkarr(st, ArrVal([posint("nres")], lambda i: A.mk("result_" + n, (i[0],))))

    # -- files ---------------------------------------------------------------------
    def open(self, ip, args, kw, st, node):
        self.certain(st, "opening a file")
        p = self.path(args[0] if args else kw["file"])
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        if not isinstance(mode, str):
            raise Unsupported("file mode")
        if "w" in mode:
            if p in self.files and self.files[p]:
                self.lost.append(p)
            self.files[p] = []
        elif "x" in mode:
            if p in self.files:
                ip.may_raise(st, True, "FileExistsError", node)
                return Unknown("file exists")
            self.files[p] = []
        elif "a" in mode:
            self.files.setdefault(p, [])
        elif p not in self.files:
            ip.may_raise(st, True, "FileNotFoundError", node)
            return Unknown("no file")
        return ip.mkobj(st, "File", {"path": p, "mode": mode}, label="file")

    def put(self, st, o, x):
        self.certain(st, "writing")
        a = st.heap[o.cell].attrs
        self.files[a["path"]].append(x)

    def f_write(self, ip, o, args, kw, st, node):
        if "b" in st.heap[o.cell].attrs["mode"]:
            ip.may_raise(st, True, "TypeError", node)
            return None
        self.put(st, o, args[0])
        return Sc(A.sym("written", integer=True, nonneg=True), "i")

    def f_writelines(self, ip, o, args, kw, st, node):
        for x in ip.concrete_items(args[0], st):
            self.put(st, o, x)
        return None

    def f_close(self, ip, o, args, kw, st, node):
        return None

    f_flush = f_close

    def savetxt(self, ip, args, kw, st, node):
        self.certain(st, "saving")
        f, x = args[0], args[1]
        sep = kw.get("delimiter", args[3] if len(args) > 3 else " ")
        rec = ("table", x, sep, kw.get("fmt", args[2] if len(args) > 2 else "%.18e"))
        if isinstance(f, str):
            if "header" in kw:
                raise Unsupported("header of savetxt")
            if self.files.get(f):
                self.lost.append(f)
            self.files[f] = [rec]
        elif isinstance(f, Ref):
            self.put(st, f, rec)
        else:
            raise Unsupported("savetxt to %r" % (f,))
        return None


WH = "CasimirRio/worker.py"


def mat(r, name):
    return r.w.get("materials", name)


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Sc) and isinstance(b, Sc):
        return A.same(a.e, b.e)
    return a is b or A.same(a, b)


def done(ck, r, tag):
    """the program ran to its end"""
    if r.st.dead:
        names = r.raised
        reason = [x for x in names]
        return ck.violated(tag + ": runs to the end", WH, "raises %s" % ", ".join(reason)) if r.st.pc is False and names else \
            ck.undecided(tag, WH, "the program does not end normally")
    return ck.holds(tag + ": runs to the end", WH, "no exceptional exit")


JOBS = {
    "all given": (job(), (), {}),
    "whole-number radii": (job(ra=N("ra1"), rb=N("rb1"), d=N("d1")), (), {"r1": posint("cfg_ra1"), "r2": posint("cfg_rb1"), "L": posint("cfg_d1")}),
    "distance on the command line": (job(), ("7.5",), {"L": R("7.5")}),
    "distance only on the command line": (job(d=None), ("12",), {"L": R(12)}),
    "automatic orders": (job(lmax="automatic", lssmax="automatic"), (), {"lmax": "automatic", "lssmax": "automatic"}),
    "automatic outer order": (job(lmax="automatic"), (), {"lmax": "automatic"}),
    "automatic inner order": (job(lssmax="automatic"), (), {"lssmax": "automatic"}),
    "automatic frequency cut-off": (job(nmax="automatic"), (), {"nmax": "automatic"}),
    "no offset": (job(l_offset=None), (), {"l_offset": A.ZERO}),
    "no offset, automatic orders": (job(l_offset=None, lmax="automatic", lssmax="automatic"), (),
                                    {"l_offset": A.ZERO, "lmax": "automatic", "lssmax": "automatic"}),
    "no evaluation": (job(evaluation=None), (), {"evaluation": "lndet"}),
    "trace evaluation": (job(evaluation="trace"), (), {"evaluation": "trace"}),
    "numerical zero frequency": (job(analytic_n0="False"), (), {"analytic_n0": False}),
    "layers on sphere 1": (job(ra="0.5, 0.75", mata="materials.Gold, materials.Silver, materials.modifiedWater"), (),
                           {"r1": ["list", Sc(R("0.5")), Sc(R("0.75"))], "mat1": ["Gold", "Silver", "modifiedWater"], "analytic_n0": False}),
    "layers on sphere 2": (job(rb="0.25,1,2.5", matb="materials.Gold,materials.Vacuum,materials.Silver,materials.modifiedWater"), (),
                           {"r2": ["list", Sc(R("0.25")), Sc(R(1)), Sc(R("2.5"))], "mat2": ["Gold", "Vacuum", "Silver", "modifiedWater"],
                            "analytic_n0": False}),
    "layers on both spheres": (job(ra="0.5, 0.75", mata="materials.Gold, materials.Silver, materials.modifiedWater", rb="0.25,2.5",
                                   matb="materials.Silver,materials.Vacuum,materials.modifiedWater"), (),
                               {"r1": ["list", Sc(R("0.5")), Sc(R("0.75"))], "mat1": ["Gold", "Silver", "modifiedWater"],
                                "r2": ["list", Sc(R("0.25")), Sc(R("2.5"))], "mat2": ["Silver", "Vacuum", "modifiedWater"],
                                "analytic_n0": False}),
    "automatic precision": (job(precision="automatic"), (), {"precision": None}),
    "force": (job(quantity="force()"), (), {"quantity": "force"}),
    "entropy": (job(quantity="entropy()"), (), {"quantity": "entropy"}),
    "zero temperature": (job(quantity="e0()"), (), {"quantity": "e0"}),
    "single terms": (job(quantity="get_f_matsubaras(0)"), (), {"quantity": "get_f_matsubaras"}),
}


@prop("C28", "Abstract execution of the command-line program on job files whose numbers are symbolic, one job per kind of option "
      "(given, automatic, missing, list, on the command line).",
      "the geometry and the thermodynamic calculation are built with the values of the job file and of the command line, the "
      "requested quantity is evaluated once, and every such job runs to its end",
      ASSUME)
def c28(ck):
    for tag, (cfg, extra, exp) in JOBS.items():
        def go():
            r = Run(ck, cfg, ("worker.py", "job.config", "out.res") + extra)
            if not done(ck, r, tag):
                return
            ck.truth(tag + ": reads the job file", "job.config" in r.reads, WH, "reads %s" % r.reads)
            if len(r.geoms) != 1 or len(r.thermos) != 1:
                return ck.undecided(tag, WH, "%d geometries, %d calculations" % (len(r.geoms), len(r.thermos)))
            g, t = r.geoms[0], r.thermos[0]
            G, T = cfg["geometry"], cfg["thermodynamics"]
            want = {"r1": G.get("ra"), "r2": G.get("rb"), "L": G.get("d"), "lmax": G.get("lmax"), "lssmax": G.get("lssmax"),
                    "l_offset": G.get("l_offset"), "precision": G.get("precision"), "evaluation": G.get("evaluation"),
                    "mat1": "Gold", "mat2": "Silver", "mat3": "modifiedWater"}
            for n, v in want.items():
                v = exp.get(n, v)
                if n in ("mat1", "mat2", "mat3"):
                    v = ["list"] + [mat(r, x) for x in v] if isinstance(v, list) else mat(r, v)
                elif isinstance(v, Num):
                    v = Sc(v.e)
                elif isinstance(v, Rat):
                    v = Sc(v)
                if v is None:
                    continue
                value(ck, "%s: geometry %s" % (tag, n), g.get(n), v)
            value(ck, tag + ": energies, not forces", g.get("forceFlag", Sc(A.ZERO, "i")), Sc(A.ZERO, "i"))
            for n, v in (("deltaT", T["tmin"]), ("Tmax", T["tmax"]), ("nmax", T["nmax"])):
                v = exp.get(n, v)
                value(ck, "%s: calculation %s" % (tag, n), t.get(n), Sc(v.e) if isinstance(v, Num) else v)
            an = exp.get("analytic_n0", True)
            ck.truth(tag + ": zero-frequency treatment", t.get("analytic_n0", True) is an, WH, "analytic_n0 is %r" % (t.get("analytic_n0"),))
            gm = t.get("geom")
            ck.truth(tag + ": calculation on this geometry", isinstance(gm, Ref) and r.st.heap[gm.cell].label == "geometry", WH, "geometry %r" % (gm,))
            q = exp.get("quantity", "free_energy")
            ck.truth(tag + ": evaluates the quantity asked for", [x[0] for x in r.quant] == [q], WH, "evaluates %s" % [x[0] for x in r.quant])
        ck.run(tag, go, WH)

    def usage():
        for argv in (("worker.py",), ("worker.py", "a"), ("worker.py", "a", "b", "1", "2")):
            r = Run(ck, job(), argv)
            ck.truth("%d arguments are rejected before anything is read or written" % (len(argv) - 1),
                     r.st.dead and not r.reads and not r.files, WH, "accepted")
    ck.run("usage", usage, WH)


def value(ck, name, got, want):
    if isinstance(got, Unknown):
        return ck.undecided(name, WH, got.reason)
    if isinstance(got, Sc) and isinstance(want, Sc):
        return ck.eq(name, got.e, want.e, WH)
    return ck.truth(name, same(got, want), WH, "is %r, job file says %r" % (got, want))


@prop("C29", "Abstract execution of the program with a file system in which the first n candidate names of the result exist; the "
      "writes to every file are recorded in order.",
      "no file that existed before is opened for writing; the new file holds the comment lines describing the calculation followed "
      "by the result of the quantity asked for; comment lines start with #",
      ASSUME)
def c29(ck):
    for n in range(6):
        def go():
            ex, cur = [], "out.res"
            for _ in range(n):
                ex.append(cur)
                cur += "1"
            # unrelated files
            ex += ["other", "out", "job.config"]
            r = Run(ck, job(), existing=ex)
            tag = "%d earlier results" % n
            if not done(ck, r, tag):
                return
            ck.truth(tag + ": existing files keep their contents", not r.lost and all(r.files.get(p) == ["old contents of " + p] for p in ex), WH,
                     "changed: %s" % sorted(set(r.lost) | {p for p in ex if r.files.get(p) != ["old contents of " + p]}))
            new = [p for p in r.files if p not in r.existing]
            ck.truth(tag + ": one result file is written", len(new) == 1, WH, "writes %s" % new)
            if len(new) == 1:
                content(ck, tag, r, r.files[new[0]])
                ck.truth(tag + ": the name given is extended, not replaced", new[0].startswith("out.res"), WH, "name %s" % new[0])
        ck.run("%d earlier results" % n, go, WH)
    for tag in ("layers on sphere 1", "automatic orders", "trace evaluation", "force", "no offset"):
        def go():
            cfg, extra, _ = JOBS[tag]
            r = Run(ck, cfg, ("worker.py", "job.config", "out.res") + extra)
            if not done(ck, r, tag):
                return
            new = list(r.files)
            if len(new) != 1:
                return ck.violated(tag + ": one result file is written", WH, "writes %s" % new)
            content(ck, tag, r, r.files[new[0]])
        ck.run(tag, go, WH)


def content(ck, tag, r, items):
    tabs = [i for i, x in enumerate(items) if isinstance(x, tuple) and x[0] == "table"]
    if len(tabs) != 1 or tabs[0] != len(items) - 1:
        return ck.violated(tag + ": comment lines, then the table", WH, "writes %s" % ["table" if isinstance(x, tuple) else "text" for x in items])
    t = items[-1]
    q = r.quant[0][0]
    j = index("j")
    with A.facts(posint("nres") - j - 1):
        ck.eq(tag + ": the table is the quantity asked for", r.w.at(r.st, t[1], j) if isinstance(t[1], Arr) else t[1],
              A.mk("result_" + q, (j,)), WH, (posint("nres") - j - 1,))
    import re
    m = re.fullmatch(r"%[-+ 0#]*\d*\.(\d+)([eEgGf])", t[3]) if isinstance(t[3], str) else None
    if m:
        digits = int(m.group(1)) + (m.group(2) in "eE")
        ck.truth(tag + ": the numbers keep their digits", digits >= 16 and m.group(2) != "f", WH, "format %s" % t[3])
    elif t[3] not in ("%r", "%s"):
        ck.undecided(tag + ": the numbers keep their digits", WH, "format %r" % (t[3],))
    parts = []
    for x in items[:-1]:
        parts += [x] if isinstance(x, str) else list(x.parts) if isinstance(x, SStr) else [("s", x)]
    flat = ""
    vals = []
    for p in parts:
        if isinstance(p, str):
            flat += p
        else:
            flat += "\x00%d\x00" % len(vals)
            vals.append(p)
    lines = flat.split("\n")
    ck.truth(tag + ": the last comment line is ended", lines[-1].strip() == "", WH, "ends with %r" % lines[-1])
    bad = [x for x in lines[:-1] if not x.startswith("#")]
    ck.truth(tag + ": every comment line starts with #", not bad, WH, "line %r" % (bad[:1],))
    g = r.geoms[0]
    th = r.thermos[0]
    import re
    U = lambda n: Sc(A.sym("used_" + n, integer=True, pos=True), "i")
    for key, want in (("r1", g["r1"]), ("r2", g["r2"]), ("d", g["L"]), ("lmax", U("lmax")), ("lssmax", U("lssmax")), ("nmax", U("nmax")),
                      ("l_offset", g["l_offset"]), ("deltaT", th["deltaT"]), ("Tmax", th["Tmax"]), ("precision", g["precision"])):
        m = re.search(r"(?<!\w)%s\s*[=:]\s*(\x00(\d+)\x00|[^,\n]*)" % key, flat)
        if not m:
            ck.undecided("%s: %s in the comment" % (tag, key), WH, "no entry of that form")
            continue
        if m.group(2) is None:
            txt = m.group(1).strip()
            w = want.e.const() if isinstance(want, Sc) and isinstance(want.e, Rat) else None
            try:
                ok = w is not None and abs(float(txt) - float(w)) < 1e-9
            except ValueError:
                ok = False
            ck.truth("%s: %s in the comment" % (tag, key), ok, WH, "says %r" % txt)
            continue
        v = vals[int(m.group(2))][1]
        ck.truth("%s: %s in the comment" % (tag, key), same(r.deep(r.st, v), want), WH, "says %r" % (v,))
    for o, name in (("mata", "mat1"), ("matb", "mat2"), ("matmd", "matMd")):
        ck.truth("%s: %s in the comment" % (tag, name), str(r.cfg["materials"][o]) in flat, WH, "missing")
    ck.truth(tag + ": quantity in the comment", r.cfg["thermodynamics"]["quantity"] in flat, WH, "missing")
    ck.truth(tag + ": job file in the comment", "job.config" in flat, WH, "missing")
