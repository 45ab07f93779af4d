"""python3-vt tools/mutate.py <n> <seed> [file...]: random syntactic changes that pass the tests, and the checks that report them.
Scratch copies only; results in /tmp/mt/results.jsonl."""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MT_SRC", "/repo/CasimirRio")
PROPS = {"materials.py": "C01 C02 C03 C04", "bessel_sk.py": "C05 C06 C10", "scattering.py": "C07 C08 C10 C13 C09 C11 C12",
         "stratified_sphere_scattering.py": "C09 C12 C23 C22", "translation.py": "C14 C15 C18 C22", "geometry.py": "C20 C33 C21 C19 C18 C22",
         "thermodynamics.py": "C24 C25 C33 C22 C23", "PFA.py": "C26 C27", "raw_PFA.py": "C26 C27 C23", "helper_functions.py": "C31 C15 C10",
         "data_inter_extrapolation.py": "C32", "worker.py": "C28 C29", "materials_converter.py": "C37 C23"}
SWAP = [("r1", "r2"), ("l1", "l2"), ("mat1", "mat2"), ("mat2", "mat3"), ("eps_i", "eps_e"), ("mu_i", "mu_e"), ("ni", "ne"), ("id_i", "id_e"), ("kd_e", "kd_i"),
        ("iv_i", "iv_e"), ("kv_e", "iv_e"), ("lmax", "lssmax"), ("rTE1", "rTM1"), ("mu0_sp", "mu0_md"), ("a_ln", "b_ln"), ("lg", "ls"),
        ("MieA", "MieB"), ("min", "max"), ("argmax", "argmin"), ("T", "L"), ("nmin", "nmax"), ("A12", "A21"), ("fak1", "fak2"),
        ("r1_i", "r1_a"), ("ri", "ra"), ("epsP", "epsM"), ("muP", "muM"), ("sqrtM", "sqrtP"), ("xsm", "xlg"), ("efactorTE", "efactorTM")]
SW = {}
for a, b in SWAP:
    SW.setdefault(a, []).append(b); SW.setdefault(b, []).append(a)


def muts(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    bs = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def rep(n, new, tag):
        a, b = pos(n)
        out.append((a, b, new, tag, n.lineno))

    def opsub(l, r, old, new, tag, line):
        a, b = pos(l)[1], pos(r)[0]
        t = bs[a:b].decode()
        if t.count(old) == 1:
            out.append((a, b, t.replace(old, new), tag, line))

    def walk(n, skip):
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("print", "plt.loglog"):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Assign) and "version" in ast.unparse(n.targets[0]):
            return
        if isinstance(n, ast.BinOp):
            for o, p, q in ((ast.Add, "+", "-"), (ast.Sub, "-", "+"), (ast.Mult, "*", "/"), (ast.Div, "/", "*")):
                if isinstance(n.op, o):
                    opsub(n.left, n.right, p, q, "op", n.lineno)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o, p, q in ((ast.Lt, "<", "<="), (ast.LtE, "<=", "<"), (ast.Gt, ">", ">="), (ast.GtE, ">=", ">"), (ast.Eq, "==", "!=")):
                if isinstance(n.ops[0], o):
                    opsub(n.left, n.comparators[0], p, q, "cmp", n.lineno)
        if isinstance(n, ast.BoolOp):
            p, q = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            opsub(n.values[0], n.values[1], p, q, "bool", n.lineno)
        if isinstance(n, ast.UnaryOp):
            rep(n, "(" + ast.unparse(n.operand) + ")", "unary")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            for v in ((n.value + 1, n.value - 1) if type(n.value) is int else (n.value * 1.5,)):
                rep(n, repr(v) if v >= 0 else "(%r)" % v, "const")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, repr(not n.value), "const")
        if isinstance(n, ast.Name) and n.id in SW and isinstance(n.ctx, ast.Load):
            for x in SW[n.id]:
                if any(isinstance(y, ast.Name) and y.id == x or isinstance(y, ast.arg) and y.arg == x for y in ast.walk(tree)) or x in ("min", "max"):
                    rep(n, x, "name")
        if isinstance(n, ast.Attribute) and n.attr in SW and isinstance(n.ctx, ast.Load):
            for x in SW[n.attr]:
                rep(n, ast.unparse(n.value) + "." + x, "attr")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy":
            rep(n, ast.unparse(n.func.value), "copy")
        if isinstance(n, ast.Call) and n.keywords and not isinstance(n.func, ast.Name):
            m = ast.parse(ast.unparse(n), mode="eval").body
            m.keywords = m.keywords[:-1]
            rep(n, ast.unparse(m), "kw")
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and ast.unparse(n.func) not in ("np.append",):
            m = ast.parse(ast.unparse(n), mode="eval").body
            m.args = m.args[::-1]
            rep(n, ast.unparse(m), "args")
        if isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "del")
        for c in ast.iter_child_nodes(n):
            walk(c, skip)
    walk(tree, False)
    return bs, out


def sh(cmd, cwd, env=None, t=400):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return None


ENV = {"MPLBACKEND": "Agg", "NUMEXPR_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
       "NPY_DISABLE_CPU_FEATURES": "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL", "OPENBLAS_CORETYPE": "Haswell",
       "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}


def passed(d):
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"] + DES, d + "/CasimirRio",
           {**ENV, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"})
    return r is not None and r.returncode == 0


def one(job):
    f, (a, b, new, tag, line), bs = job
    d = tempfile.mkdtemp(prefix="mt.")
    try:
        shutil.copytree(SRC, d + "/CasimirRio", ignore=shutil.ignore_patterns("build", "svgs", "examples", "__pycache__"))
        out = bs[:a] + new.encode() + bs[b:]
        with open(d + "/CasimirRio/" + f, "wb") as h:
            h.write(out)
        try:
            compile(out, f, "exec")
        except SyntaxError:
            return None
        rec = {"file": f, "line": line, "tag": tag, "old": bs[a:b].decode(), "new": new, "text": out.decode().split("\n")[line - 1].strip()}
        if not passed(d):
            rec["res"] = "killed by tests"
            return rec
        os.mkdir(d + "/v")
        shutil.copytree(V + "/sa", d + "/v/sa", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(V + "/known_findings.txt", d + "/v")
        rec["res"] = "MISSED"
        und = []
        for p in PROPS.get(f, "").split() + ["C30"]:
            r = sh(["python3-vt", "-m", "sa.run", p], d + "/v", {"CAS_REPO": d}, 900)
            if r is not None and r.returncode == 1:
                rec["res"] = p
                break
            if r is None or r.returncode:
                rec["res"] = "BROKEN " + p
                break
            import re
            m = re.search(r"(\d+) undecided", r.stdout)
            if m and int(m.group(1)):
                und.append((p, int(m.group(1))))
        rec["undecided"] = und
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or list(PROPS)
    b = json.load(open("/opt/vp/BASELINE.json"))
    bl = b if isinstance(b, list) else (b.get("passed") or b.get("stable") or list(b.values())[0])
    # tests that fail on the unchanged tree are left out
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "tests", "-rfE"], SRC, {**ENV, "PYTHONDONTWRITEBYTECODE": "1"})
    DES, bad = [], set()
    for l in r.stdout.splitlines():
        if l.startswith("FAILED ") or l.startswith("ERROR "):
            t = l.split()[1].split(" - ")[0]
            if "::" in t:
                DES += ["--deselect", t]
            else:
                bad.add(t)
    DES += sorted(t for t in ("tests/" + x for x in os.listdir(SRC + "/tests") if x.startswith("test_") and x.endswith(".py")) if t not in bad)
    print(DES, flush=True)
    rng = random.Random(seed)
    jobs = []
    for f in files:
        bs, ms = muts(open(SRC + "/" + f, encoding="utf8").read())
        jobs += [(f, m, bs) for m in ms]
    print(len(jobs), "changes possible", flush=True)
    rng.shuffle(jobs)
    with open("/tmp/mt/results.jsonl", "a") as h, cf.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for rec in ex.map(one, jobs[:n]):
            if rec:
                h.write(json.dumps(rec) + "\n"); h.flush()
