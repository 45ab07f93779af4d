"""Gated value-graph construction for the Python subset used by the repository.

A syntax-directed forward dataflow analysis.  Joins are gated merges (gated SSA),
loops are summarised by scalar/array evolution (closed forms of carried
locations), calls are inlined or replaced by a contract.  No statement of the
analysed program is executed and no path is enumerated.
"""
import ast
import os
from fractions import Fraction as Fr
from . import alg as A
from .alg import Rat, Phi, R, lift, ite, band, bor, bnot, ZERO, RONE
from .values import *
from .values import add, sub, mul, div, pw

REPO = os.environ.get("CAS_REPO", "/repo") + "/CasimirRio"

STRICT = os.environ.get("SA_STRICT")

EXC_PARENTS = {
    "IndexError": ["LookupError", "Exception"], "KeyError": ["LookupError", "Exception"],
    "ValueError": ["Exception"], "TypeError": ["Exception"],
    "AttributeError": ["Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
    "AssertionError": ["Exception"], "ZeroDivisionError": ["ArithmeticError", "Exception"],
    "NoOptionError": ["Error", "Exception"], "NoSectionError": ["Error", "Exception"],
    "NameError": ["Exception"], "UnboundLocalError": ["NameError", "Exception"],
    "ImportError": ["Exception"], "OSError": ["Exception"], "FileNotFoundError": ["OSError", "Exception"],
    "FileExistsError": ["OSError", "Exception"],
}


class Frame:
    def __init__(self, qual, module, parent=None):
        self.qual, self.module, self.parent = qual, module, parent
        self.returns = []      # (pc, value, St)
        self.raises = []       # (pc, exception name, St)
        self.cur = None
        self.snapshot_env = None
        self.globals_ = set()


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.continues = []


class St:
    __slots__ = ("env", "heap", "pc", "dead", "frame", "loop")

    def __init__(self, env, heap, frame, pc=True, loop=None):
        self.env, self.heap, self.frame, self.pc = env, heap, frame, pc
        self.dead = False
        self.loop = loop

    def fork(self):
        s = St(dict(self.env), dict(self.heap), self.frame, self.pc, self.loop)
        s.dead = self.dead
        return s

    def adopt(self, o):
        self.env.clear()
        self.env.update(o.env)
        self.heap.clear()
        self.heap.update(o.heap)
        self.pc, self.dead = o.pc, o.dead


class LoopRec:
    """what is known about one summarised loop"""

    def __init__(self):
        self.node = self.qual = None
        self.i = self.n = None
        self.carried = {}       # loc -> dict(init, step, closed)
        self.exits = []         # (kind, cond, value)
        self.writes = []
        self.cond = None
        self.phmap = {}         # loc -> placeholder value
        self.body_state = None
        self.pre = None


class Interp:
    def __init__(self, repo=None, contracts=None, pyx=True):
        self.repo = repo or REPO
        self.modules = {}
        self.base_heap = {}
        self.contracts = dict(contracts or {})
        self._cell = 0
        self.events = []
        self.loops = []
        self.effects = []          # (cell, kind, pc, where)
        self.try_depth = 0
        self.assumptions = set()
        self.frames = []
        self.trees = {}
        self.depth = 0
        self.functions = set()
        self.calls = 0
        self.aliases = {}
        self.unknowns = []
        self.write_hook = None
        self.cellinfo = {}
        self.where = None
        from . import npmodel
        self.np = npmodel

    # ------------------------------------------------------------------
    # modules
    # ------------------------------------------------------------------
    def tree(self, name):
        if name not in self.trees:
            from . import pyxload
            p = os.path.join(self.repo, name + ".py")
            if os.path.exists(p):
                with open(p, encoding="utf-8") as f:
                    self.trees[name] = ast.parse(f.read(), p)
            else:
                p = os.path.join(self.repo, name + ".pyx")
                if not os.path.exists(p):
                    self.trees[name] = None
                else:
                    self.trees[name] = pyxload.load(p)
        return self.trees[name]

    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        t = self.tree(name)
        if t is None:
            return None
        script = name == getattr(self, "script", None)
        env = {"__name__": "__main__" if script else name}
        m = ModV(name, env)
        self.modules[name] = m
        fr = Frame(name + ".<module>", name)
        st = St(env, self.base_heap, fr)
        m.st = st
        fr.cur = st
        self.frames.append(fr)
        saved_eff, self.effects = self.effects, []
        try:
            for s in t.body:
                if st.dead:
                    break
                if isinstance(s, ast.If) and self._is_main(s.test) and not script:
                    continue
                self.exec_stmt(s, st)
        finally:
            self.frames.pop()
            self.effects = saved_eff
        return m

    def _is_main(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"

    def new_state(self, qual="<analysis>"):
        fr = Frame(qual, None)
        st = St({}, dict(self.base_heap), fr)
        fr.cur = st
        return st

    # ------------------------------------------------------------------
    # cells
    # ------------------------------------------------------------------
    def newcell(self, st, content, kind, info=None):
        self._cell += 1
        st.heap[self._cell] = content
        if info:
            self.cellinfo[self._cell] = info
        return self._cell

    def mkarr(self, st, av, info=None):
        return Arr(self.newcell(st, av, "arr", info))

    def mklist(self, st, items):
        return Ref(self.newcell(st, ListVal(items), "list"), "list")

    def mksym(self, st, n, fn, cond=None, info=None):
        return Ref(self.newcell(st, SymList(n, fn, cond), "list", info), "list")

    def mkdict(self, st, d):
        return Ref(self.newcell(st, DictVal(d), "dict"), "dict")

    def mkobj(self, st, cls, attrs, label=None, info=None):
        return Ref(self.newcell(st, ObjVal(cls, attrs, label), "obj", info), "obj")

    def aval(self, st, a):
        """contents of an array reference as ArrVal"""
        if isinstance(a, ArrVal):
            return a
        v = st.heap[a.cell]
        if a.view is None:
            return v
        w = a.view
        return ArrVal(w.shape, lambda idx: v.at(w.base(idx)), v.dtype)

    def write_arr(self, st, a, region, newval, node=None, opaque=False):
        """store through a reference: region(outidx)->bool, newval(outidx)"""
        old = st.heap[a.cell]
        w = a.view

        def fn(b):
            if w is None:
                c, o = True, b
            else:
                c, o = w.inverse(b)
            if c is False:
                return old.at(b)
            with A.assuming(c) as ok:
                if not ok:
                    return old.at(b)
                rg = region(o)
                if rg is False:
                    v = None
                else:
                    with A.assuming(rg) as ok2:
                        v = newval(o) if ok2 else None
            if v is None:
                return old.at(b)
            cc = band(c, rg)
            if cc is True:
                return v
            return ite(cc, v, old.at(b))
        st.heap[a.cell] = ArrVal(old.shape, fn, old.dtype)
        self.effect(st, a.cell, "write", node)

    def effect(self, st, cell, kind, node):
        self.effects.append((cell, kind, st.pc, self.loc(st, node)))
        for c in self.aliases.get(cell, ()):
            self.effects.append((c, kind, st.pc, self.loc(st, node)))

    def loc(self, st, node):
        fr = st.frame
        return "%s.py:%s (%s)" % (fr.module, getattr(node, "lineno", "?"), fr.qual)

    # ------------------------------------------------------------------
    # joins
    # ------------------------------------------------------------------
    def merge(self, c, a, b, st):
        if a is b or A.same(a, b):
            return a
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, Phi) and not isbool(a) or isinstance(b, Phi) and not isbool(b):
            return ite(c, a, b)
        if isinstance(a, Sc) and isinstance(b, Sc):
            return Sc(ite(c, a.e, b.e), a.k if a.k == b.k else ("f" if "f" in a.k + b.k else "F"))
        if isbool(a) and isbool(b):
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, Arr) and isinstance(b, Arr):
            va, vb = self.aval(st, a), self.aval(st, b)
            if len(va.shape) == len(vb.shape) and all(x == y for x, y in zip(va.shape, vb.shape)):
                r = self.mkarr(st, self.merge_av(c, va, vb))
                s = {a.cell, b.cell}
                for x in (a.cell, b.cell):
                    s |= set(self.aliases.get(x, ()))
                self.aliases[r.cell] = s
                return r
        return ite(c, a, b)

    def merge_av(self, c, va, vb):
        def fn(idx):
            with A.assuming(c) as ok:
                x = va.at(idx) if ok else None
            with A.assuming(bnot(c)) as ok2:
                y = vb.at(idx) if ok2 else None
            if x is None:
                return y
            if y is None:
                return x
            return ite(c, x, y)
        return ArrVal(va.shape, fn, va.dtype if va.dtype == vb.dtype else "f")

    def merge_content(self, c, x, y, st):
        if x is y:
            return x
        if isinstance(x, ArrVal) and isinstance(y, ArrVal):
            if len(x.shape) == len(y.shape) and all(p == q for p, q in zip(x.shape, y.shape)):
                return self.merge_av(c, x, y)
            return ArrVal(x.shape, lambda idx: unk("merge of arrays of different shape"), x.dtype)
        if isinstance(x, ListVal) and isinstance(y, ListVal):
            if len(x.items) == len(y.items):
                return ListVal([self.merge(c, p, q, st) for p, q in zip(x.items, y.items)])
            n = ite(c, R(len(x.items)), R(len(y.items)))
            return SymList(n, lambda i: Unknown("merge of lists of different length"))
        if isinstance(x, DictVal) and isinstance(y, DictVal):
            d = {}
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                d[k] = self.merge(c, x.d.get(k, MISSING), y.d.get(k, MISSING), st)
            return DictVal(d)
        if isinstance(x, ObjVal) and isinstance(y, ObjVal):
            d = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                d[k] = self.merge(c, x.attrs.get(k, MISSING), y.attrs.get(k, MISSING), st)
            return ObjVal(x.cls, d, x.label)
        if isinstance(x, SymList) and isinstance(y, SymList) and A.same(x.n, y.n):
            return SymList(x.n, lambda i: self.merge(c, x.fn(i), y.fn(i), st), x.cond)
        return x

    def join(self, st, c, t, e):
        if t.dead and e.dead:
            st.dead = True
            st.pc = False
            return
        if t.dead:
            st.adopt(e)
            return
        if e.dead:
            st.adopt(t)
            return
        heap = dict(t.heap)
        heap.update({k: v for k, v in e.heap.items() if k not in heap})
        st.heap.clear()
        st.heap.update(heap)
        for k in t.heap:
            if k in e.heap and t.heap[k] is not e.heap[k]:
                st.heap[k] = self.merge_content(c, t.heap[k], e.heap[k], st)
        env = {}
        for k in list(t.env) + [k for k in e.env if k not in t.env]:
            env[k] = self.merge(c, t.env.get(k, MISSING), e.env.get(k, MISSING), st)
        st.env.clear()
        st.env.update(env)
        st.pc = A.rawor(t.pc, e.pc)
        st.dead = False

    def join_many(self, recs, st):
        """merge [(pc, value, St)] into (value, state contents)"""
        pc0, v, s = recs[-1]
        cur = s.fork()
        val = v
        tot = pc0
        for pc, v2, s2 in reversed(recs[:-1]):
            nxt = s2.fork()
            tmp = St(dict(st.env), dict(st.heap), st.frame)
            a, b = s2.fork(), cur
            a.dead = b.dead = False
            self.join(tmp, pc, a, b)
            val = self.merge(pc, v2, val, tmp)
            cur = tmp
            tot = A.rawor(tot, pc)
        return val, cur, tot

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def exec_block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.exec_stmt(s, st)

    def exec_stmt(self, s, st):
        st.frame.cur = st
        if st.pc is not True and isinstance(st.pc, Phi):
            with A.assuming(st.pc) as ok:
                if not ok:
                    st.dead = True
                    st.pc = False
                    return
                return self._stmt(s, st)
        return self._stmt(s, st)

    def _stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        self.where = self.loc(st, s)
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            try:
                m(s, st)
            except Unsupported as x:
                self.poison(s, st, x)
            return
        m(s, st)

    def poison(self, s, st, x):
        """an assignment outside the vocabulary: its targets become unknown"""
        u = self.note(Unknown("%s at %s" % (x, self.loc(st, s))), st, s)

        def go(t):
            if isinstance(t, ast.Name):
                if isinstance(s, ast.AugAssign) and isinstance(st.env.get(t.id), Arr):
                    self.wipe(st, st.env[t.id].cell, u)
                st.env[t.id] = u
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    go(e)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                for y in leaves(o):
                    if isinstance(y, Arr):
                        self.wipe(st, y.cell, u)
                    elif isinstance(y, Ref):
                        raise x
            else:
                raise x
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
            go(t)

    def wipe(self, st, cell, u):
        old = st.heap[cell]
        st.heap[cell] = ArrVal(old.shape, lambda idx: unk(u.reason), old.dtype)

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.name
            top = nm.split(".")[0]
            m = self.module(nm) if "." not in nm else None
            if m is not None:
                st.env[a.asname or nm] = m
            elif a.asname:
                st.env[a.asname] = Intr(nm)
            else:
                st.env[top] = Intr(top)

    def s_ImportFrom(self, s, st):
        m = self.module(s.module) if s.module and "." not in s.module else None
        for a in s.names:
            if m is not None:
                if a.name == "*":
                    st.env.update({k: v for k, v in m.env.items() if not k.startswith("_")})
                    continue
                v = m.env.get(a.name, MISSING)
                st.env[a.asname or a.name] = v
            else:
                st.env[a.asname or a.name] = Intr("%s.%s" % (s.module, a.name))

    def s_FunctionDef(self, s, st):
        fr = st.frame
        inner = fr.qual.endswith("<module>")
        qual = ("%s.%s" % (fr.module, s.name)) if inner else "%s.%s" % (fr.qual, s.name)
        f = FuncV(s, fr.module, qual, None if inner else dict(st.env), None if inner else fr)
        self.set_defaults(f, s.args, st)
        for d in s.decorator_list:
            n = ast.unparse(d)
            if n in ("staticmethod", "classmethod", "property"):
                f.kind = n
            elif "cython" in n or "lru_cache" in n and False:
                pass
            else:
                f.kind = "decorated:" + n
        st.env[s.name] = f

    def set_defaults(self, f, args, st):
        f.defaults = [self.eval(d, st) for d in args.defaults]
        f.kwdefaults = [self.eval(d, st) if d is not None else None for d in args.kw_defaults]

    def s_ClassDef(self, s, st):
        fr = st.frame
        bases = [self.eval(b, st) for b in s.bases]
        cst = St(dict(), st.heap, Frame(fr.module + "." + s.name, fr.module))
        cst.frame.cur = cst
        ns_outer = st.env
        cls = ClassV(s.name, fr.module, bases, {}, s)
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                f = FuncV(b, fr.module, "%s.%s.%s" % (fr.module, s.name, b.name), cls=cls)
                tmp = St({**ns_outer, **cst.env}, st.heap, fr)
                self.set_defaults(f, b.args, tmp)
                for d in b.decorator_list:
                    n = ast.unparse(d)
                    f.kind = n if n in ("staticmethod", "classmethod", "property") else "decorated:" + n
                cls.ns[b.name] = f
                cst.env[b.name] = f
            else:
                tmp = St({**ns_outer, **cst.env}, st.heap, fr)
                self.exec_stmt(b, tmp)
                for k, v in tmp.env.items():
                    if k not in ns_outer or ns_outer[k] is not v:
                        cst.env[k] = v
                        cls.ns[k] = v
        st.env[s.name] = cls

    def s_Global(self, s, st):
        st.frame.globals_.update(s.names)

    s_Nonlocal = s_Global

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else None
        if st.dead:
            return
        st.frame.returns.append((st.pc, v, st.fork()))
        st.dead = True
        st.pc = False

    def s_Raise(self, s, st):
        n = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            n = ast.unparse(e).split(".")[-1]
        st.frame.raises.append((st.pc, n, st.fork()))
        self.events.append(("raise", st.pc, n, self.loc(st, s)))
        st.dead = True
        st.pc = False

    def s_Assert(self, s, st):
        c = self.truth(self.eval(s.test, st), st)
        if c is False:
            st.frame.raises.append((st.pc, "AssertionError", st.fork()))
            self.events.append(("raise", st.pc, "AssertionError", self.loc(st, s)))
            st.dead = True
            st.pc = False
            return
        if c is not True:
            if self.try_depth:
                self.may_raise(st, bnot(c), "AssertionError", s)
            else:
                st.pc = A.rawand(st.pc, c)

    def may_raise(self, st, c, name, node=None):
        if c is False:
            return
        if c is True:
            st.frame.raises.append((st.pc, name, st.fork()))
            self.events.append(("raise", st.pc, name, self.loc(st, node)))
            st.dead = True
            st.pc = False
            return
        st.frame.raises.append((A.rawand(st.pc, c), name, st.fork()))
        st.pc = A.rawand(st.pc, A.rawnot(c))

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
                continue
            if isinstance(t, ast.Subscript):
                o, ix = self.eval(t.value, st), self.eval_index(t.slice, st)
                if isinstance(o, Ref) and o.kind == "dict":
                    if self.np.d_pop(self, st, [o, ix], {}, s) is MISSING:
                        self.may_raise(st, True, "KeyError", s)
                    continue
                if isinstance(o, Ref) and o.kind == "list" and isinstance(ix, Sc):
                    self.np.l_pop(self, st, [o, ix], {}, s)
                    continue
                if isinstance(o, Ref) and o.kind == "list" and isinstance(ix, SliceV) and isinstance(st.heap[o.cell], ListVal):
                    b = [None if x is None else self.np.num(x).as_int() for x in (ix.a, ix.b, ix.c)]
                    if all(y is not None or x is None for x, y in zip((ix.a, ix.b, ix.c), b)):
                        it = list(st.heap[o.cell].items)
                        del it[slice(*b)]
                        st.heap[o.cell] = ListVal(it)
                        self.effect(st, o.cell, "del", s)
                        continue
            if isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                if isinstance(o, Ref) and o.kind == "obj" and t.attr in st.heap[o.cell].attrs:
                    ov = st.heap[o.cell]
                    st.heap[o.cell] = ObjVal(ov.cls, {k: v for k, v in ov.attrs.items() if k != t.attr}, ov.label)
                    self.effect(st, o.cell, "del " + t.attr, s)
                    continue
            raise Unsupported("del of %s" % ast.unparse(t))

    def s_If(self, s, st):
        v = self.eval(s.test, st)
        if st.dead:
            return
        c = self.truth(v, st)
        self.branch(st, c, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x))

    def branch(self, st, c, ft, fe):
        if c is True:
            return ft(st)
        if c is False:
            return fe(st)
        t, e = st.fork(), st.fork()
        t.pc = A.rawand(st.pc, c)
        e.pc = A.rawand(st.pc, A.rawnot(c))
        with A.assuming(c) as ok:
            if ok and t.pc is not False:
                ft(t)
            else:
                t.dead = True
        with A.assuming(bnot(c)) as ok2:
            if ok2 and e.pc is not False:
                fe(e)
            else:
                e.dead = True
        self.join(st, c, t, e)
        st.frame.cur = st

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                if isinstance(v, Opq):
                    self.assign(it.optional_vars, v, st, s)
                else:
                    self.assign(it.optional_vars, v, st, s)
        self.exec_block(s.body, st)
        for it in s.items:
            self.events.append(("with-exit", st.pc, None, self.loc(st, s)))

    def s_Try(self, s, st):
        fr = st.frame
        saved = fr.raises
        nret = len(fr.returns)
        fr.raises = []
        self.try_depth += 1
        try:
            self.exec_block(s.body, st)
        finally:
            self.try_depth -= 1
            raised = fr.raises
            fr.raises = saved
        body_rets = fr.returns[nret:]
        if not st.dead and s.orelse:
            self.exec_block(s.orelse, st)
        rest = raised
        for h in s.handlers:
            names = self.handler_names(h)
            mine = [r for r in rest if names is None or self.exc_match(r[1], names)]
            rest = [r for r in rest if r not in mine]
            mine = [r for r in mine if r[0] is not False]
            if not mine:
                continue
            _, hs, pc = self.join_many([(p, None, s2) for p, _, s2 in mine], st)
            hs.pc, hs.dead, hs.loop = pc, False, st.loop
            hs.frame = fr
            if h.name:
                hs.env[h.name] = Opq(("exception", "|".join(sorted({r[1] for r in mine}))))
            with A.assuming(pc) as ok:
                if ok:
                    self.exec_block(h.body, hs)
                else:
                    hs.dead = True
            if not hs.dead:
                n = st.fork()
                self.join(st, pc, hs, n)
                st.frame.cur = st
        fr.raises.extend(rest)
        if s.finalbody:
            for lst in (fr.returns[nret:], fr.raises[len(saved) - len(rest):] if rest else []):
                for pc, v, s2 in lst:
                    s2.dead = False
                    p = s2.pc
                    s2.pc = pc
                    self.exec_block(s.finalbody, s2)
            if not st.dead:
                self.exec_block(s.finalbody, st)

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def exc_match(self, n, names):
        return n in names or any(p in names for p in EXC_PARENTS.get(n, ["Exception"])) or "BaseException" in names

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)

    def s_AugAssign(self, s, st):
        t = s.target
        opn = type(s.op).__name__
        rhs = self.eval(s.value, st)
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, t)
            self.set_name(t.id, self.augment(st, opn, old, rhs, s), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            old = self.getattr(o, t.attr, st, t)
            self.setattr(o, t.attr, self.augment(st, opn, old, rhs, s), st, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            ix = self.eval_index(t.slice, st)
            old = self.getitem(o, ix, st, t)
            if isinstance(old, Arr):
                old = self.mkarr(st, self.aval(st, old))
            new = self.binop(opn, old, rhs, st, s)
            self.setitem(o, ix, new, st, s)
        else:
            raise Unsupported("augmented target")

    def augment(self, st, opn, old, rhs, s):
        if isinstance(old, Arr):
            # in place
            av = self.aval(st, old)
            new = self.binop(opn, old, rhs, st, s)
            if isinstance(new, Arr):
                nv = self.aval(st, new)
                if len(nv.shape) == len(av.shape):
                    if av.dtype == "i" and nv.dtype == "f":
                        return Unknown("in-place float operation on an integer array (raises)")
                    self.write_arr(st, old, lambda o: True, nv.at, s)
                    return old
            return new
        if isinstance(old, Ref) and old.kind == "list" and opn == "Add":
            self.list_extend(st, old, rhs, s)
            return old
        return self.binop(opn, old, rhs, st, s)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st, any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            self.setitem(o, self.eval_index(t.slice, st), v, st, node)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def set_name(self, n, v, st):
        if n in st.frame.globals_:
            m = self.modules.get(st.frame.module)
            if m is not None:
                m.env[n] = v
            p = st.frame
            return
        st.env[n] = v

    def unpack(self, v, n, st, star=False):
        if star:
            raise Unsupported("starred unpacking")
        if isinstance(v, Unknown):
            return [v] * n
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise self.np.error("ValueError", "unpack %d values into %d" % (len(v.items), n))
            return list(v.items)
        if isinstance(v, Ref) and v.kind == "list":
            c = st.heap[v.cell]
            if isinstance(c, ListVal):
                if len(c.items) != n:
                    raise self.np.error("ValueError", "unpack %d values into %d" % (len(c.items), n))
                return list(c.items)
            return [c.fn(R(i)) for i in range(n)]
        if isinstance(v, Arr):
            return [self.getitem(v, Sc(R(i), "i"), st, None) for i in range(n)]
        if isinstance(v, Phi):
            a = self.unpack(v.hi, n, st)
            b = self.unpack(v.lo, n, st)
            c = Phi(v.cond, True, False)
            return [self.merge(c, x, y, st) for x, y in zip(a, b)]
        if isinstance(v, Opq):
            return [Opq(("item", v.key, i)) for i in range(n)]
        raise Unsupported("unpack of %r" % (v,))

    # ------------------------------------------------------------------
    # loops
    # ------------------------------------------------------------------
    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        if st.dead:
            return
        n, item = self.iterspace(it, st)
        if isinstance(n, int):
            return self.unroll(s, st, n, item)
        from .loops import summarise
        summarise(self, s, st, n, lambda i, x: self.assign(s.target, item(i), x, s))

    def s_While(self, s, st):
        from .loops import summarise_while
        if getattr(self, "trips", None) is not None:
            return self.unroll_while(s, st, self.trips)
        if getattr(self, "concrete", False):
            return self.run_while(s, st)
        # a loop whose tests are all decided and which changes lists is run through pass by pass
        before, marks = st.fork(), (len(self.effects), len(self.unknowns), len(self.events), len(st.frame.raises))
        try:
            return summarise_while(self, s, st)
        except Unsupported as x:
            first = x
        del self.effects[marks[0]:], self.unknowns[marks[1]:], self.events[marks[2]:], st.frame.raises[marks[3]:]
        loop = st.loop
        st.adopt(before)
        try:
            self.run_while(s, st, 16)
        except Unsupported:
            st.loop = loop
            raise first

    def snapshot(self, st):
        """the variables and the heap, for comparison; None where a value has no comparable form"""
        try:
            return ({k: vkey(v) for k, v in st.env.items()}, {k: id(v) for k, v in st.heap.items()})
        except (Unsupported, AttributeError, TypeError):
            return None

    def run_while(self, s, st, limit=64):
        """a loop all of whose tests are decided"""
        snap = None
        ctx = LoopCtx()
        outer, st.loop = st.loop, ctx
        j = 0
        while not st.dead:
            c = self.truth(self.eval(s.test, st), st)
            if c is False:
                if s.orelse:
                    self.exec_block(s.orelse, st)
                break
            if c is not True:
                raise Unsupported("test of a loop is not decided")
            j += 1
            if j > limit:
                if snap is not None and snap == self.snapshot(st):
                    raise self.np.error("RuntimeError", "the loop never ends: its test holds and a pass changes nothing")
                raise Unsupported("loop goes on after %d passes" % limit)
            if j == limit:
                snap = self.snapshot(st)
            self.exec_block(s.body, st)
            self.rejoin(st, ctx.continues)
            ctx.continues = []
        self.rejoin(st, ctx.breaks)
        st.loop = outer

    def unroll_while(self, s, st, n):
        """the histories with exactly n passes of the body"""
        self.tests = []
        forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
        ctx = LoopCtx()
        outer, st.loop = st.loop, ctx
        for j in range(n + 1):
            if st.dead:
                break
            c = True if forever else self.truth(self.eval(s.test, st), st)
            self.tests.append(c)
            if c is False:
                break
            if j == n:
                if c is True and not forever:
                    raise Unsupported("loop goes on after %d passes" % n)
                break
            ctx.breaks = []
            self.exec_block(s.body, st)
            self.rejoin(st, ctx.continues)
            ctx.continues = []
        if forever:
            st.dead, st.pc = True, False
            self.rejoin(st, ctx.breaks)
        st.loop = outer

    def unroll(self, s, st, n, item):
        ctx = LoopCtx()
        outer, st.loop = st.loop, ctx
        for j in range(n):
            if st.dead:
                break
            self.assign(s.target, item(j), st, s)
            self.exec_block(s.body, st)
            self.rejoin(st, ctx.continues)
            ctx.continues = []
        if not st.dead and s.orelse:
            self.exec_block(s.orelse, st)
        self.rejoin(st, ctx.breaks)
        st.loop = outer

    def rejoin(self, st, recs):
        for pc, s2 in recs:
            if pc is False:
                continue
            if st.dead:
                lp = st.loop
                st.adopt(s2)
                st.pc, st.dead, st.loop = pc, False, lp
                continue
            n = st.fork()
            s2 = s2.fork()
            s2.pc, s2.dead = pc, False
            self.join(st, pc, s2, n)

    def s_Break(self, s, st):
        st.loop.breaks.append((st.pc, st.fork()))
        st.dead = True
        st.pc = False

    def s_Continue(self, s, st):
        st.loop.continues.append((st.pc, st.fork()))
        st.dead = True
        st.pc = False

    MAXUNROLL = 16

    def iterspace(self, it, st):
        """(n, item): n int -> concrete; Rat -> symbolic"""
        if isinstance(it, RangeV):
            n = lift(lambda a, b, c: RangeV(a, b, c).count(), it.a, it.b, it.c)
            if isinstance(n, Phi):
                raise Unsupported("range with gated length")
            k = n.as_int()
            a, c = it.a, it.c
            if k is not None and k <= self.MAXUNROLL:
                return max(k, 0), lambda j: Sc(a + c * j, "i")
            return n, lambda j: Sc(a + c * j, "i")
        if isinstance(it, Tup):
            return len(it.items), lambda j: it.items[j]
        if isinstance(it, Ref) and it.kind == "list":
            c = st.heap[it.cell]
            if isinstance(c, ListVal):
                items = list(c.items)
                return len(items), lambda j: items[j]
            if c.cond is not None:
                raise Unsupported("iteration over a filtered list")
            if isinstance(c.n, Phi):
                raise Unsupported("list of gated length")
            k = c.n.as_int()
            if k is not None:
                return k, lambda j: c.fn(R(j))
            return c.n, lambda j: c.fn(j)
        if isinstance(it, Ref) and it.kind == "dict":
            ks = list(st.heap[it.cell].d)
            return len(ks), lambda j: self.fromkey(ks[j])
        if isinstance(it, Arr):
            av = self.aval(st, it)
            n = av.shape[0]
            k = n.as_int()

            def item(j):
                j = R(j) if isinstance(j, int) else j
                return self.getitem(it, Sc(j, "i"), st, None)
            return (k if k is not None else n), item
        if isinstance(it, IterV):
            return it.n, it.fn
        if isinstance(it, str):
            return len(it), lambda j: it[j]
        if isinstance(it, Ref) and it.kind == "obj":
            K = st.heap[it.cell].cls
            if isinstance(K, ClassV) and all(isinstance(b, ClassV) or b == "object" or getattr(b, "name", "") == "object"
                                             for c in K.mro() for b in c.bases) and not any(
                    K.lookup(n)[0] for n in ("__iter__", "__getitem__")):
                from . import npmodel
                raise npmodel.error("TypeError", "iteration over an instance of %s" % K.name)
        raise Unsupported("iteration over %r" % (it,))

    def fromkey(self, k):
        if isinstance(k, tuple) and k and k[0] == "num":
            return Sc(R(k[1]), "i")
        return k

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.note(Unknown("expression %s" % type(e).__name__), st, e)
        try:
            return m(e, st)
        except Unsupported as x:
            return self.note(Unknown("%s at %s" % (x, self.loc(st, e))), st, e)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as x:
            if STRICT:
                raise
            return self.note(Unknown("analysis: %s at %s" % (x, self.loc(st, e))), st, e)

    def note(self, u, st, e):
        self.unknowns.append((u.reason, self.loc(st, e)))
        return u

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return ELL
        if isinstance(v, int):
            return Sc(R(v), "i")
        if isinstance(v, float):
            return Sc(fconst(v), "f")
        raise Unsupported("constant %r" % (v,))

    def e_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                spec = "".join(x.value for x in p.format_spec.values) if p.format_spec else "s"
                v = self.eval(p.value, st)
                if isinstance(v, str) and spec == "s":
                    parts.append(v)
                else:
                    parts.append((spec, v))
        return mkstr(parts)

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def lookup(self, n, st, node=None):
        v = self.find(n, st)
        if v is MISSING or (isinstance(v, Phi) and any(x is MISSING for x in leaves(v))):
            if isinstance(v, Phi):
                c = lift(lambda x: x is MISSING, v)
                self.events.append(("maybe-unbound", A.rawand(st.pc, c), n, self.loc(st, node)))
                if self.try_depth:
                    self.may_raise(st, c, "UnboundLocalError", node)
                return strip_missing(v)
            self.events.append(("unbound", st.pc, n, self.loc(st, node)))
            self.may_raise(st, True, "NameError", node)
            return Unknown("name %s is not bound" % n)
        return v

    def find(self, n, st):
        fr = st.frame
        if n in st.env and n not in fr.globals_:
            return st.env[n]
        p = fr.parent
        env = fr.snapshot_env
        if env is not None:
            # late binding: the defining frame may still be live
            if p is not None and p in self.frames and p.cur is not None and n in p.cur.env:
                return p.cur.env[n]
            if n in env:
                return env[n]
            q = p
            while q is not None:
                if q.snapshot_env and n in q.snapshot_env:
                    return q.snapshot_env[n]
                q = q.parent
        m = self.modules.get(fr.module)
        if m is not None and n in m.env:
            return m.env[n]
        b = self.np.BUILTINS.get(n)
        if b is not None:
            return b
        return MISSING

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value, st), st))
            else:
                out.append(self.eval(x, st))
        return Tup(out)

    def e_List(self, e, st):
        return self.mklist(st, self.e_Tuple(e, st).items)

    def e_Set(self, e, st):
        return self.e_Tuple(e, st)

    def e_Dict(self, e, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, st)
                d.update(st.heap[o.cell].d)
                continue
            d[self.tokey(self.eval(k, st))] = self.eval(v, st)
        return self.mkdict(st, d)

    def tokey(self, k):
        if isinstance(k, str) or k is None or isinstance(k, bool):
            return k
        if isinstance(k, Sc) and isinstance(k.e, Rat):
            c = k.e.const()
            if c is not None:
                return ("num", c)
            return ("sym", k.e.key(), )
        return ("key", vkey(k))

    def concrete_items(self, v, st):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and v.kind == "list" and isinstance(st.heap[v.cell], ListVal):
            return list(st.heap[v.cell].items)
        n, item = self.iterspace(v, st)
        if isinstance(n, int):
            return [item(j) for j in range(n)]
        raise Unsupported("concrete items of %r" % (v,))

    def e_Lambda(self, e, st):
        f = FuncV(e, st.frame.module, st.frame.qual + ".<lambda>", dict(st.env), st.frame)
        self.set_defaults(f, e.args, st)
        return f

    def e_IfExp(self, e, st):
        c = self.truth(self.eval(e.test, st), st)
        if c is True:
            return self.eval(e.body, st)
        if c is False:
            return self.eval(e.orelse, st)
        res = {}

        def run(k, ex):
            def f(x):
                res[k] = self.eval(ex, x)
            return f
        self.branch(st, c, run(0, e.body), run(1, e.orelse))
        if 0 not in res:
            return res[1]
        if 1 not in res:
            return res[0]
        return self.merge(c, res[0], res[1], st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        for x in e.values[1:]:
            if st.dead:
                return v
            c = self.truth(v, st)
            if c is True and not isand or c is False and isand:
                return v
            if c is True or c is False:
                v = self.eval(x, st)
                continue
            res = {}

            def f(y):
                res[0] = self.eval(x, y)
            if isand:
                self.branch(st, c, f, lambda y: None)
            else:
                self.branch(st, c, lambda y: None, f)
            w = res.get(0, v)
            if isbool(v) or isbool(w):
                w = self.truth(w, st)
                v = band(c, w) if isand else bor(c, w)
            else:
                v = self.merge(c, w, v, st) if isand else self.merge(c, v, w, st)
        return v

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            return self.binop("Mult", Sc(R(-1), "i"), v, st, e)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isbool(v):
                return bnot(v)
            return self.np.elementwise1(self, st, v, lambda x: bnot(x), dtype="b")
        raise Unsupported("unary")

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            c = self.compare(type(op).__name__, left, right, st)
            if res is True:
                res = c
            elif isbool(res) and isbool(c):
                res = band(res, c)
            else:
                raise Unsupported("chained array comparison")
            left = right
        return res

    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.getattr(o, e.attr, st, e)

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        ix = self.eval_index(e.slice, st)
        return self.getitem(o, ix, st, e)

    def eval_index(self, s, st):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, st)
            return SliceV(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_index(x, st) for x in s.elts])
        return self.eval(s, st)

    def e_Slice(self, s, st):
        return self.eval_index(s, st)

    def e_Starred(self, e, st):
        raise Unsupported("starred expression")

    def e_ListComp(self, e, st):
        return self.comp(e, st, lambda s2: self.eval(e.elt, s2))

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, lambda s2: self.eval(e.elt, s2))

    e_SetComp = e_GeneratorExp

    def e_DictComp(self, e, st):
        r = self.comp(e, st, lambda s2: Tup([self.eval(e.key, s2), self.eval(e.value, s2)]))
        c = st.heap[r.cell]
        if isinstance(c, ListVal):
            return self.mkdict(st, {self.tokey(t.items[0]): t.items[1] for t in c.items})
        raise Unsupported("symbolic dict comprehension")

    def comp(self, e, st, fin, gi=0):
        g = e.generators[gi]
        it = self.eval(g.iter, st)
        last = gi == len(e.generators) - 1

        def scope(x):
            s2 = St(dict(x.env), x.heap, x.frame, x.pc, x.loop)
            return s2
        filt = None
        if isinstance(it, Ref) and it.kind == "list" and isinstance(st.heap[it.cell], SymList) \
                and st.heap[it.cell].cond is not None:
            sl = st.heap[it.cell]
            n, item, filt = sl.n, sl.fn, sl.cond
        else:
            n, item = self.iterspace(it, st)
        if isinstance(n, int):
            out, gates = [], []
            for j in range(n):
                s2 = scope(st)
                saved, st.frame.cur = st.frame.cur, s2
                self.assign(g.target, item(j), s2, e)
                keep = True
                for c in g.ifs:
                    keep = band(keep, self.truth(self.eval(c, s2), s2))
                if keep is False:
                    continue
                if keep is not True and not last:
                    raise Unsupported("gated filter in a nested comprehension")
                if last:
                    if keep is True:
                        out.append(fin(s2))
                    else:
                        with A.assuming(keep):
                            out.append(fin(s2))
                    gates.append(keep)
                else:
                    r = self.comp(e, s2, fin, gi + 1)
                    out.extend(self.concrete_items(r, s2))
                st.frame.cur = saved
            if any(k is not True for k in gates):
                fr = [freeze(self, st, v) for v in out]
                return self.mksym(st, R(len(out)),
                                  lambda j: self.np.select(R(j), [lambda v=v: subst_val(v, {}, self, st) for v in fr]),
                                  lambda j: self.np.select(R(j), [lambda k=k: k for k in gates]))
            return self.mklist(st, out)
        # symbolic comprehension: evaluate the element once, at a symbolic index
        if not last:
            raise Unsupported("nested symbolic comprehension")
        i = A.fresh("ci", nonneg=True)
        iat = A._single_atom(i)
        with A.facts(i, n - i - 1):
            s2 = scope(st)
            saved, st.frame.cur = st.frame.cur, s2
            self.assign(g.target, item(i), s2, e)
            keep = True
            for c in g.ifs:
                keep = band(keep, self.truth(self.eval(c, s2), s2))
            if filt is not None:
                keep = band(filt(i), keep)
            v = fin(s2)
            st.frame.cur = saved
            if s2.dead:
                st.dead = True
                st.pc = False
                return Unknown("comprehension element always raises")
        frozen = freeze(self, st, v)
        cond = None
        if keep is not True:
            cond = lambda j: A.subst(keep, {iat.id: R(j)})
        return self.mksym(st, n, lambda j: subst_val(frozen, {iat.id: R(j) if not isinstance(j, Rat) else j},
                                                     self, st), cond)

    def e_Await(self, e, st):
        raise Unsupported("await")

    def e_Call(self, e, st):
        # super().__init__ etc.
        f = self.eval(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value, st), st))
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, st)
                for kk, vv in st.heap[d.cell].d.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, st)
        if st.dead:
            return Unknown("dead")
        return self.call(f, args, kw, st, e)

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------
    def call(self, f, args, kw, st, node=None):
        self.calls += 1
        if isinstance(f, Phi):
            res = {}

            def run(k, ff):
                def g(x):
                    res[k] = self.call(ff, args, kw, x, node)
                return g
            c = Phi(f.cond, True, False)
            self.branch(st, c, run(0, f.hi), run(1, f.lo))
            if 0 in res and 1 in res:
                return self.merge(c, res[0], res[1], st)
            return res.get(0, res.get(1))
        if isinstance(f, Unknown):
            return f
        if isinstance(f, BoundM):
            return self.call_func(f.func, [f.obj] + list(args), kw, st, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, ClassV):
            h = self.contracts.get(f.qual())
            if h is not None:
                return h(self, args, kw, st, node)
            o = self.mkobj(st, f, {})
            c, init = f.lookup("__init__")
            if init is not None:
                self.call_func(init, [o] + list(args), kw, st, node)
            elif args or kw:
                self.events.append(("bad-call", st.pc, f.qual(), self.loc(st, node)))
            return o
        if isinstance(f, (Intr, BoundI, TypeV)):
            nm = f.name
            h = self.contracts.get(nm)
            if h is not None:
                return h(self, args, kw, st, node)
            return self.np.call_intrinsic(self, f, args, kw, st, node)
        if isinstance(f, Opq):
            self.events.append(("opaque-call", st.pc, (f, args, kw), self.loc(st, node)))
            return Opq(("call", f.key) + tuple(vkey(a) for a in args) +
                       tuple((k, vkey(v)) for k, v in sorted(kw.items())))
        if f is None:
            return Unknown("call of None")
        if isinstance(f, (Sc, Tup, str, bool, Arr)) or (isinstance(f, Ref) and f.kind != "obj"):
            raise self.np.error("TypeError", "call of %s, which is not callable" % type(f).__name__)
        raise Unsupported("call of %r" % (f,))

    def call_func(self, f, args, kw, st, node=None):
        h = self.contracts.get(f.qual)
        if h is not None:
            return h(self, args, kw, st, node)
        if f.kind and f.kind.startswith("decorated:"):
            dn = f.kind.split(":", 1)[1]
            if not any(x in dn for x in ("cython", "lru_cache", "cache", "wraps")):
                raise Unsupported("decorator %s" % dn)
        a = f.node.args
        env = {}
        if f.kind == "staticmethod" and f.cls is not None and args and isinstance(args[0], Ref) \
                and len(args) > len(a.args):
            args = args[1:]
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            self.events.append(("bad-call", st.pc, f.qual, self.loc(st, node)))
            self.may_raise(st, True, "TypeError", node)
            return Unknown("too many arguments for %s" % f.qual)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.events.append(("bad-call", st.pc, f.qual, self.loc(st, node)))
                self.may_raise(st, True, "TypeError", node)
                return Unknown("unexpected keyword %s for %s" % (k, f.qual))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.mkdict(st, extra)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in env:
                env[n] = d
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in env and d is not None:
                env[x.arg] = d
        for n in names:
            if n not in env:
                self.events.append(("bad-call", st.pc, f.qual, self.loc(st, node)))
                self.may_raise(st, True, "TypeError", node)
                return Unknown("missing argument %s of %s" % (n, f.qual))
        return self.run_body(f, env, st, node)

    MAXDEPTH = 40

    def run_body(self, f, env, st, node):
        same = [fr for fr in self.frames if fr.qual == f.qual and fr.node is f.node
                and not f.qual.endswith("<lambda>")] if self.frames else []
        if len(same) >= 1 and f.qual in getattr(self, "recursive", {}):
            return self.recursive[f.qual](self, env, st, node)
        if len(same) >= getattr(self, "maxrec", 3):
            raise Unsupported("recursion of %s" % f.qual)
        if self.depth > self.MAXDEPTH:
            raise Unsupported("call depth")
        self.functions.add(f.qual)
        fr = Frame(f.qual, f.module, f.frame)
        fr.node = f.node
        fr.snapshot_env = f.snapshot
        st2 = St(env, st.heap, fr)
        fr.cur = st2
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st2)
                if not st2.dead:
                    fr.returns.append((st2.pc, v, st2.fork()))
            else:
                self.exec_block(f.node.body, st2)
                if not st2.dead:
                    fr.returns.append((st2.pc, None, st2.fork()))
        finally:
            self.frames.pop()
            self.depth -= 1
        for pc, n, s2 in fr.raises:
            x = st.fork()
            x.heap = dict(s2.heap)
            st.frame.raises.append((A.rawand(st.pc, pc), n, x))
        rets = [r for r in fr.returns if r[0] is not False]
        st.frame.cur = st
        if not rets:
            st.dead = True
            st.pc = False
            return Unknown("%s never returns" % f.qual)
        val, cur, tot = self.join_many(rets, st2)
        st.heap.clear()
        st.heap.update(cur.heap)
        st.pc = A.rawand(st.pc, tot)
        return val

    # ------------------------------------------------------------------
    # attributes
    # ------------------------------------------------------------------
    def getattr(self, o, name, st, node=None):
        if isinstance(o, Phi):
            return self.lift_st(lambda x, s: self.getattr(x, name, s, node), o, st)
        if isinstance(o, Unknown):
            return o
        if isinstance(o, Ref) and o.kind == "obj":
            c = st.heap[o.cell]
            h = self.contracts.get(("attr", c.cls.qual() if isinstance(c.cls, ClassV) else c.cls, name))
            if h is not None:
                return h(self, o, st)
            v = c.attrs.get(name, MISSING)
            if isinstance(v, Phi) and any(x is MISSING for x in leaves(v)):
                cond = lift(lambda x: x is MISSING, v)
                if self.try_depth:
                    self.may_raise(st, cond, "AttributeError", node)
                return strip_missing(v)
            if v is not MISSING:
                return v
            if isinstance(c.cls, ClassV):
                cc, f = c.cls.lookup(name)
                if f is not None or (cc is not None):
                    if isinstance(f, FuncV):
                        if f.kind == "staticmethod":
                            return f
                        if f.kind == "classmethod":
                            return BoundM(f, c.cls)
                        if f.kind == "property":
                            return self.call_func(f, [o], {}, st, node)
                        return BoundM(f, o)
                    return f
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    return Ref(o.cell, "obj")
            self.events.append(("no-attr", st.pc, (c.cls.qual() if isinstance(c.cls, ClassV) else str(c.cls), name),
                                self.loc(st, node)))
            self.may_raise(st, True, "AttributeError", node)
            return Unknown("no attribute %s" % name)
        if isinstance(o, ModV):
            v = o.env.get(name, MISSING)
            if v is MISSING:
                self.events.append(("no-attr", st.pc, (o.name, name), self.loc(st, node)))
                self.may_raise(st, True, "AttributeError", node)
                return Unknown("module %s has no %s" % (o.name, name))
            return v
        if isinstance(o, ClassV):
            _, v = o.lookup(name)
            if v is None:
                if name == "__name__":
                    return o.name
                raise Unsupported("class attribute %s" % name)
            return v
        return self.np.getattr_builtin(self, o, name, st, node)

    def setattr(self, o, name, v, st, node):
        if isinstance(o, Ref) and o.kind == "obj":
            c = st.heap[o.cell]
            d = dict(c.attrs)
            d[name] = v
            st.heap[o.cell] = ObjVal(c.cls, d, c.label)
            self.effect(st, o.cell, "attr:" + name, node)
            return
        if isinstance(o, Phi):
            def f(x, s):
                self.setattr(x, name, v, s, node)
            return self.lift_st(f, o, st)
        if isinstance(o, ClassV):
            o.ns[name] = v
            return
        if isinstance(o, Unknown):
            return
        if isinstance(o, Opq):
            self.events.append(("opaque-setattr", st.pc, (o, name, v), self.loc(st, node)))
            return
        if isinstance(o, ModV):
            o.env[name] = v
            return
        if isinstance(o, Arr) and name == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported("attribute assignment on %r" % (o,))

    def lift_st(self, fn, v, st):
        """apply a possibly effectful fn(leaf, state) to a gated value"""
        if not isinstance(v, Phi):
            return fn(v, st)
        res = {}

        def run(k, x):
            def g(s):
                res[k] = self.lift_st(fn, x, s)
            return g
        c = Phi(v.cond, True, False)
        self.branch(st, c, run(0, v.hi), run(1, v.lo))
        if 0 in res and 1 in res:
            return self.merge(c, res[0], res[1], st)
        return res.get(0, res.get(1))

    # ------------------------------------------------------------------
    # truth, comparison, arithmetic, indexing -> npmodel
    # ------------------------------------------------------------------
    def truth(self, v, st):
        return self.np.truth(self, v, st)

    def compare(self, op, a, b, st):
        return self.np.compare(self, op, a, b, st)

    def binop(self, op, a, b, st, node):
        return self.np.binop(self, op, a, b, st, node)

    def getitem(self, o, ix, st, node):
        return self.np.getitem(self, o, ix, st, node)

    def setitem(self, o, ix, v, st, node):
        return self.np.setitem(self, o, ix, v, st, node)

    def list_extend(self, st, ref, rhs, node):
        c = st.heap[ref.cell]
        items = self.concrete_items(rhs, st)
        if isinstance(c, ListVal):
            st.heap[ref.cell] = ListVal(c.items + items)
            self.effect(st, ref.cell, "extend", node)
        else:
            raise Unsupported("extend of a symbolic list")


class IterV:
    """iteration space n, fn(j) (zip, enumerate, ...)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


def strip_missing(v):
    if isinstance(v, Phi):
        a, b = strip_missing(v.hi), strip_missing(v.lo)
        if a is MISSING:
            return b
        if b is MISSING:
            return a
        return A._node(v.cond, a, b)
    return v


def fconst(v):
    """exact rational of a float literal; near-rational literals such as
    0.3333333333333333 are read as the rational they round to"""
    if v == float("inf"):
        return A.mk("inf", (), pos=True)
    f = Fr(repr(v))
    import math
    if abs(v - math.pi) <= 1e-15:
        return A.PI
    if f.denominator > 10 ** 11 and f != 0:
        g = f.limit_denominator(10000)
        if g != 0 and abs(g - f) <= abs(f) * Fr(3, 10 ** 16):
            f = g
    return R(f)


def mkstr(parts):
    s = SStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


# -- values detached from the state, substitutable in a bound index -----------

class FrozenArr:
    def __init__(self, av):
        self.av = av


class FrozenList:
    def __init__(self, items):
        self.items = items


def freeze(ip, st, v):
    if isinstance(v, Arr):
        return FrozenArr(ip.aval(st, v))
    if isinstance(v, Tup):
        return Tup([freeze(ip, st, x) for x in v.items])
    if isinstance(v, Ref) and v.kind == "list" and isinstance(st.heap[v.cell], ListVal):
        return FrozenList([freeze(ip, st, x) for x in st.heap[v.cell].items])
    if isinstance(v, Phi) and not isbool(v):
        return A._node(v.cond, freeze(ip, st, v.hi), freeze(ip, st, v.lo))
    return v


def subst_val(v, mp, ip=None, st=None):
    """substitute index atoms inside a frozen value"""
    if isinstance(v, FrozenArr):
        av = v.av
        r = subst_av(av, mp)
        return ip.mkarr(st, r)
    if isinstance(v, FrozenList):
        return ip.mklist(st, [subst_val(x, mp, ip, st) for x in v.items])
    if isinstance(v, Sc):
        return Sc(A.subst(v.e, mp), v.k)
    if isinstance(v, Tup):
        return Tup([subst_val(x, mp, ip, st) for x in v.items])
    if isinstance(v, (bool, str, type(None))):
        return v
    if isinstance(v, Phi):
        if isbool(v):
            return A.subst(v, mp)
        c = A.subst(Phi(v.cond, True, False), mp)
        return ite(c, subst_val(v.hi, mp, ip, st), subst_val(v.lo, mp, ip, st))
    return v


def subst_av(av, mp):
    """array contents with atoms substituted, evaluated lazily at a fresh
    generic index so that the substitution cannot capture the index"""
    shape = [A.subst(s, mp) for s in av.shape]

    def fn(idx):
        fr = [A.fresh("fi", nonneg=True) for _ in idx]
        consts = [i.const() for i in idx]
        gen = tuple(i if c is not None else f for i, c, f in zip(idx, consts, fr))
        nn = []
        for f, c, s in zip(fr, consts, av.shape):
            if c is None:
                nn += [f, s - f - 1]
        # facts about the generic index only; other facts of the caller stay
        with A.facts(*nn):
            e = av.at(gen)
        m2 = dict(mp)
        e = A.subst(e, mp)
        m3 = {A._single_atom(f).id: i for f, i, c in zip(fr, idx, consts) if c is None}
        return A.subst(e, m3) if m3 else e
    return ArrVal(shape, fn, av.dtype, av.tag)
