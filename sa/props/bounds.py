"""C17: every unchecked array access of the compiled modules stays inside its array."""
import glob
import random
from ..model import *
from .. import pyxload
from . import prop

UNK = None
ASSUME = ("C integers do not overflow", "balance is handed square matrices (one minus a square round-trip matrix)")


class Array:
    def __init__(self, shape):
        self.shape = list(shape)


class Path:
    """variables and linear facts of one program point"""

    def __init__(self, env, facts=()):
        self.env, self.facts, self.dead = dict(env), list(facts), False
        self.neq, self.lossy = [], False

    def copy(self):
        p = Path(self.env, self.facts)
        p.dead, p.neq, p.lossy = self.dead, list(self.neq), self.lossy
        return p


class Walk:
    def __init__(self, ck, name, tree, path, tag):
        self.ck, self.name, self.tree, self.file, self.tag = ck, name, tree, path, tag
        self.funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.consts = {}
        self.n = 0
        self.stack = []
        self.wrap = tree.directives_.get("wraparound", "True") != "False"
        for s in tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) and type(s.value.value) is int:
                self.consts[s.targets[0].id] = R(s.value.value)

    # -- expressions: integers as polynomials, anything else unknown -------------------
    def ev(self, e, p):
        """value of e; records the accesses inside it"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m:
            return m(e, p)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, p)
            elif isinstance(c, ast.comprehension):
                self.havoc(c.target, p)
                self.ev(c.iter, p)
        return UNK

    def e_Constant(self, e, p):
        return R(e.value) if type(e.value) is int else UNK

    def e_Name(self, e, p):
        return p.env.get(e.id, self.consts.get(e.id, UNK))

    def e_BinOp(self, e, p):
        a, b = self.ev(e.left, p), self.ev(e.right, p)
        if not isinstance(a, Rat) or not isinstance(b, Rat):
            return UNK
        o = type(e.op).__name__
        if o == "Add":
            return a + b
        if o == "Sub":
            return a - b
        if o == "Mult":
            return a * b
        if o == "Pow" and b.const() is not None and 0 <= b.const() <= 3:
            return a ** int(b.const())
        if o == "FloorDiv" and b.const():
            with A.facts(*p.facts):
                return A.floor(a / b)
        if o == "Mod" and b.const():
            with A.facts(*p.facts):
                return a - b * A.floor(a / b)
        return UNK

    def e_UnaryOp(self, e, p):
        a = self.ev(e.operand, p)
        return -a if isinstance(a, Rat) and isinstance(e.op, ast.USub) else UNK

    def e_Call(self, e, p):
        args = [self.ev(a, p) for a in e.args]
        for k in e.keywords:
            self.ev(k.value, p)
        if isinstance(e.func, ast.Attribute):
            self.ev(e.func.value, p)
        f = ast.unparse(e.func)
        short = f.split(".")[-1]
        if f in self.funcs and not e.keywords:
            return self.inline(f, args, p)
        ints = [a for a in args if isinstance(a, Rat)]
        with A.facts(*p.facts):
            if f == "abs" and len(ints) == 1:
                return plain(A.absv(ints[0]))
            if f in ("min", "max") and len(ints) == len(args) == 2:
                return plain(A.fmin(*ints) if f == "min" else A.fmax(*ints))
            if f in ("int",) and len(ints) == 1:
                return ints[0]
        if f == "len" and args and isinstance(args[0], Array):
            return args[0].shape[0]
        if short in ("zeros", "empty", "ones", "full") and f.startswith("np.") or f.startswith("numpy."):
            a = e.args[0] if e.args else None
            if isinstance(a, (ast.Tuple, ast.List)):
                return Array([self.ev(x, p) for x in a.elts])
            if args and isinstance(args[0], Rat):
                return Array([args[0]])
            return UNK
        if short in ("zeros_like", "empty_like", "copy", "ones_like"):
            for a in args:
                if isinstance(a, Array):
                    return Array(a.shape)
            if isinstance(e.func, ast.Attribute) and not args:
                v = self.ev(e.func.value, p)
                if isinstance(v, Array):
                    return Array(v.shape)
        return UNK

    def inline(self, f, args, p):
        if f in self.stack or len(self.stack) > 5:
            return UNK
        fn = self.funcs[f]
        names = [a.arg for a in fn.args.args]
        q = Path(dict(zip(names, args)), p.facts)
        self.stack.append(f)
        try:
            r = self.body(fn.body, q)
        finally:
            self.stack.pop()
        return r[0] if len(r) == 1 else UNK

    def e_Attribute(self, e, p):
        v = self.ev(e.value, p)
        if e.attr == "size" and isinstance(v, Array) and len(v.shape) == 1:
            return v.shape[0]
        return UNK

    def e_IfExp(self, e, p):
        self.ev(e.test, p)
        vs = []
        for br, pol in ((e.body, True), (e.orelse, False)):
            q = p.copy()
            q.facts += self.facts(e.test, q, pol)
            vs.append(self.ev(br, q))
        return vs[0] if isinstance(vs[0], Rat) and isinstance(vs[1], Rat) and A.same(*vs) else UNK

    def e_BoolOp(self, e, p):
        q = p.copy()
        for v in e.values:
            self.ev(v, q)
            q.facts += self.facts(v, q, isinstance(e.op, ast.And))
        return UNK

    def e_Subscript(self, e, p):
        if isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
            v = self.ev(e.value.value, p)
            i = self.ev(e.slice, p)
            c = i.const() if isinstance(i, Rat) else None
            if isinstance(v, Array) and c is not None and 0 <= c < len(v.shape):
                return v.shape[int(c)]
            return UNK
        v = self.ev(e.value, p)
        idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        vals = []
        for i in idx:
            if isinstance(i, ast.Slice):
                for x in (i.lower, i.upper, i.step):
                    if x is not None:
                        self.ev(x, p)
                vals.append(Ellipsis)
            else:
                vals.append(self.ev(i, p))
        if isinstance(v, Array) and not any(x is Ellipsis for x in vals):
            self.access(e, v, vals, p)
        return UNK

    # -- obligations ---------------------------------------------------------------------
    def access(self, e, v, vals, p):
        where = "%s:%s (line %d)" % (self.file, self.name, e.lineno)
        self.n += 1
        nm = "%s%s: %s" % (self.tag, self.name, ast.unparse(e))
        if len(vals) != len(v.shape):
            return self.ck.undecided(nm, where, "%d indices for %d dimensions" % (len(vals), len(v.shape)))
        for d, (i, n) in enumerate(zip(vals, v.shape)):
            t = nm if len(vals) == 1 else "%s, index %d" % (nm, d + 1)
            if not isinstance(i, Rat) or not isinstance(n, Rat):
                self.ck.undecided(t, where, "index or length not followed")
                continue
            with A.facts(*p.facts):
                up = A.decide_gt0(n - i, True)
                lo = A.decide_gt0(i, False)
                if lo is not True and self.wrap:
                    lo = A.decide_gt0(i + n, False) if A.decide_gt0(-i, True) is True else lo
            if up is True and lo is True:
                self.ck.holds(t, where, "0 <= index < length from the linear facts of the program point")
                continue
            x = self.witness(i, n, p)
            if x:
                self.ck.violated(t, where, "index %s outside an array of length %s when %s" % (A.clip(i), A.clip(n), x))
            else:
                self.ck.undecided(t, where, "index %s, length %s" % (A.clip(i), A.clip(n)))

    def witness(self, i, n, p):
        """small integers that satisfy every fact of the program point and put the index outside"""
        if p.lossy:
            return None
        ids = set()
        for r in [i, n] + p.facts + p.neq:
            for a in A.all_atoms(r):
                ids.add(a if isinstance(a, int) else a.id)
        ats = [A.atom_of(k) for k in sorted(ids)]
        if any(at.args for at in ats) or len(ats) > 7:
            return None
        rng = random.Random(3)
        for _ in range(4000):
            mp = {}
            for at in ats:
                mp[at.id] = R(rng.randint(1 if at.pos else 0 if at.nonneg else -6, 6))
            try:
                fs = [A.subst(f, mp).const() for f in p.facts]
                if any(f is None or f < 0 for f in fs):
                    continue
                if any(not A.subst(f, mp).const() for f in p.neq):
                    continue
                a, b = A.subst(i, mp).const(), A.subst(n, mp).const()
            except Exception:
                return None
            if a is None or b is None:
                return None
            if a >= b or (a < -b if self.wrap else a < 0):
                return ", ".join("%s = %s" % (A.show(R(at)), mp[at.id]) for at in ats)
        return None

    # -- facts of tests: list of r with r >= 0 --------------------------------------------
    def facts(self, t, p, pol):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.facts(t.operand, p, not pol)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == pol
            return [f for v in t.values for f in self.facts(v, p, pol)] if conj else self.lose(p)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            n0, o0 = self.n, len(self.ck.obs)
            a, b = self.ev(t.left, p), self.ev(t.comparators[0], p)
            del self.ck.obs[o0:]
            self.n = n0
            if isinstance(a, Rat) and isinstance(b, Rat) and A.is_int_valued(a) and A.is_int_valued(b):
                o = type(t.ops[0]).__name__
                if not pol:
                    o = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}.get(o)
                r = {"Lt": [b - a - 1], "LtE": [b - a], "Gt": [a - b - 1], "GtE": [a - b], "Eq": [a - b, b - a]}.get(o)
                if r is not None:
                    return r
                if o == "NotEq":
                    p.neq.append(a - b)
                    return []
        return self.lose(p)

    def lose(self, p):
        """a condition that is not followed: no witness is trusted behind it"""
        p.lossy = True
        return []

    # -- statements --------------------------------------------------------------------------
    def havoc(self, t, p):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                p.env.pop(x.id, None)
                p.env[x.id] = UNK

    def assigned(self, body):
        s = set()
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    s.add(x.id)
        return s

    def body(self, stmts, p):
        """-> list of returned values"""
        out = []
        for s in stmts:
            if p.dead:
                break
            m = getattr(self, "s_" + type(s).__name__, None)
            if m:
                out += m(s, p) or []
            else:
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.expr):
                        self.ev(c, p)
                self.havoc(s, p)
        return out

    def bind(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, UNK, p)
        else:
            self.ev(t, p)

    def s_Assign(self, s, p):
        v = self.ev(s.value, p)
        for t in s.targets:
            if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                o0, n0 = len(self.ck.obs), self.n
                vs = [self.ev(x, p) for x in s.value.elts]
                del self.ck.obs[o0:]
                self.n = n0
                for x, y in zip(t.elts, vs):
                    self.bind(x, y, p)
            else:
                self.bind(t, v, p)

    def s_AugAssign(self, s, p):
        if isinstance(s.target, ast.Name):
            v = self.ev(ast.copy_location(ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), s), p)
            if not isinstance(p.env.get(s.target.id), Array):
                p.env[s.target.id] = v
        else:
            self.ev(s.value, p)
            self.ev(s.target, p)

    def s_Expr(self, s, p):
        self.ev(s.value, p)

    def s_Return(self, s, p):
        v = self.ev(s.value, p) if s.value else UNK
        p.dead = True
        return [v]

    def s_Raise(self, s, p):
        p.dead = True

    s_Break = s_Continue = s_Raise

    def s_Pass(self, s, p):
        pass

    s_Import = s_ImportFrom = s_Pass

    def s_If(self, s, p):
        self.ev(s.test, p)
        a, b = p.copy(), p.copy()
        a.facts += self.facts(s.test, a, True)
        b.facts += self.facts(s.test, b, False)
        out = self.body(s.body, a) + self.body(s.orelse, b)
        live = [q for q in (a, b) if not q.dead]
        if not live:
            p.dead = True
        elif len(live) == 1:
            q = live[0]
            p.env, p.facts, p.neq, p.lossy = q.env, q.facts, q.neq, q.lossy
        else:
            p.env = {k: (v if eqv(v, b.env.get(k)) else UNK) for k, v in a.env.items() if k in b.env}
        return out

    def s_For(self, s, p):
        self.ev(s.iter, p)
        q = p.copy()
        for n in self.assigned(s.body) | self.assigned([s.target]):
            if not isinstance(q.env.get(n), Array):
                q.env[n] = UNK
            elif n in self.assigned(s.body):
                q.env[n] = UNK
        it = s.iter
        if isinstance(it, ast.Call) and ast.unparse(it.func) == "reversed" and len(it.args) == 1:
            it = it.args[0]
        if isinstance(s.target, ast.Name) and s.target.id not in self.assigned(s.body):
            if isinstance(it, ast.Call) and ast.unparse(it.func) in ("range", "xrange", "prange"):
                a = [self.ev(x, p) for x in it.args]
                lo, hi, step = (R(0), a[0], R(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else R(1))
                c = step.const() if isinstance(step, Rat) else None
                if isinstance(lo, Rat) and isinstance(hi, Rat) and c:
                    i = A.sym("%s#%d" % (s.target.id, s.lineno), integer=True)
                    q.env[s.target.id] = i
                    q.facts += [i - lo, hi - i - 1] if c > 0 else [lo - i, i - hi - 1]
                    if abs(c) != 1:
                        self.lose(q)
        self.body(s.body, q)
        if s.orelse:
            self.body(s.orelse, q)
        self.after(s.body + [s.target], p)
        return []

    def s_While(self, s, p):
        # first pass: the state before the loop is known, a witness is an execution
        q = p.copy()
        o0, n0 = len(self.ck.obs), self.n
        q.facts += self.facts(s.test, q, True)
        if not q.lossy:
            self.body(s.body, q)
        bad = [o for o in self.ck.obs[o0:] if o.status == "violated"]
        self.ck.obs[o0:] = bad
        self.n = n0
        q = p.copy()
        for n in self.assigned(s.body):
            q.env[n] = UNK
        self.lose(q)
        self.ev(s.test, q)
        q.facts += self.facts(s.test, q, True)
        self.body(s.body, q)
        self.after(s.body, p)
        return []

    def after(self, body, p):
        for n in self.assigned(body):
            p.env[n] = UNK

    def s_With(self, s, p):
        for i in s.items:
            self.ev(i.context_expr, p)
        return self.body(s.body, p)


def eqv(a, b):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return A.same(a, b)
    return a is b


def plain(v):
    return v if isinstance(v, Rat) else UNK


def cases(fn):
    """parameters of the entry points: (tag, environment, facts)"""
    names = [a.arg for a in fn.args.args]
    if fn.name == "gaunt" and len(names) >= 3:
        a, b, m = A.sym("lmin_", integer=True, nonneg=True), A.sym("ldiff_", integer=True, nonneg=True), A.sym("m_abs", integer=True, nonneg=True)
        return [("l %s l', m %s 0: " % (x, y), dict(zip(names, ls + (mm,))), []) for x, ls in (("<=", (a, a + b)), (">=", (a + b, a)))
                for y, mm in ((">=", m), ("<=", -m))]
    if fn.name == "balance" and names:
        n = A.sym("n_dim", integer=True, nonneg=True)
        return [("", {names[0]: Array([n, n])}, [])]
    return []


@prop("C17", "Forward analysis of the compiled modules with integers as linear forms and loop counters bounded by their ranges; one "
      "obligation per index of every array access (the compiled code does not check them).",
      "0 <= index < length follows from the facts of the program point for all orders l, l' >= 0 and every m, and for every matrix size; a "
      "violation comes with integers that satisfy all facts and leave the array",
      ASSUME)
def c17(ck):
    root = I.REPO
    done = set()
    for path in sorted(glob.glob(os.path.join(root, "*.pyx"))):
        rel = "CasimirRio/" + os.path.basename(path)

        def go():
            tree = pyxload.load(path)
            for fn in tree.body:
                if not isinstance(fn, ast.FunctionDef):
                    continue
                for tag, env, facts in cases(fn):
                    wk = Walk(ck, fn.name, tree, rel, tag)
                    p = Path(env, facts)
                    for a, d in zip(fn.args.args[::-1], fn.args.defaults[::-1]):
                        p.env.setdefault(a.arg, UNK)
                    wk.stack.append(fn.name)
                    wk.body(fn.body, p)
                    ck.functions.add("%s:%s" % (rel, fn.name))
                    done.add(fn.name)
                    ck.counts["accesses"] = ck.counts.get("accesses", 0) + wk.n
        ck.run(rel, go, rel)
    for f in ("gaunt", "balance"):
        if f not in done:
            ck.undecided("entry point %s" % f, "CasimirRio", "not found in a compiled module")
