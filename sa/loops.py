"""Loop summaries by scalar and array evolution.

The body of a loop is transferred once at a symbolic iteration index with
placeholders for everything it carries; the resulting recurrences are solved in
closed form where they have one (unchanged, last value, sums, products, disjoint
array fills) and become inspectable recurrence terms otherwise.
"""
import ast
from . import alg as A
from .alg import Rat, Phi, R, lift, ite, band, bor, bnot, ZERO, RONE
from .values import *
from .interp import LoopRec, LoopCtx, St, freeze, subst_val, subst_av, FrozenArr, FrozenList

PARAMS = {}        # recurrence id -> symbols of enclosing loops
RECDEFS = {}       # recurrence id -> RecDef
_ids = [0]


class RecDef:
    """recurrence of an array filled along a loop:
    X(q) = region(q) ? step(q, X) : init(q)"""

    def __init__(self):
        self.rid = None
        self.shape = None
        self.index = None      # generic index atoms (Rats)
        self.region = None     # gated boolean in index
        self.step = None       # gated Rat in index, with ra-atoms for references
        self.init = None       # gated Rat in index
        self.istar = None
        self.n = None
        self.qual = None

    params = ()

    def at(self, e, idx):
        mp = {A._single_atom(q).id: R(x) for q, x in zip(self.index, idx)}
        return A.subst(e, mp)


def nid():
    _ids[0] += 1
    return _ids[0]


def assigned_names(body):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ClassDef(self, n):
            raise Unsupported("class in loop")

        def visit_Import(self, n):
            raise Unsupported("import in loop")
    v = V()
    for s in body:
        v.visit(s)
    return out


def used_names(fnode, skip):
    """names loaded in the function outside node `skip` (a loop)"""
    out = set()

    def go(n):
        if n is skip:
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            go(c)
    go(fnode)
    return out


class Ph:
    """placeholder description of one carried location"""

    def __init__(self, loc, init):
        self.loc, self.init = loc, init
        self.id = nid()
        self.kind = None     # sc, bool, arr, opq, tup, list
        self.atom = None
        self.value = None
        self.av = None
        self.frozen = None


def make_ph(ip, st, loc, init, hint=None):
    p = Ph(loc, init)
    if isinstance(init, Sc) or isinstance(init, Phi) and not isbool(init) and \
            all(isinstance(x, Sc) for x in leaves(init)):
        if hint is not None and isinstance(hint, ArrVal):
            return arr_ph(ip, st, p, hint.shape, "f",
                          const_av(hint.shape, init))
        p.kind = "sc"
        k = init.k if isinstance(init, Sc) else "f"
        integer = k in "iI" and (hint is None or hint == "i")
        p.atom = A.mk("ca", (p.id,), integer=integer)
        p.value = Sc(p.atom, k if hint != "f" else ("f" if k == "i" else "F"))
        return p
    if isbool(init):
        p.kind = "bool"
        p.atom = A.condatom("cab", p.id)
        p.value = Phi(p.atom, True, False)
        return p
    if isinstance(init, Arr):
        av = ip.aval(st, init)
        return arr_ph(ip, st, p, hint.shape if isinstance(hint, ArrVal) else av.shape, av.dtype, av)
    if isinstance(init, Tup):
        p.kind = "tup"
        p.parts = [make_ph(ip, st, loc + (i,), x) for i, x in enumerate(init.items)]
        p.value = Tup([q.value for q in p.parts])
        return p
    p.kind = "opq"
    p.value = init if isinstance(init, (Ref, FuncV, ClassV, ModV, Intr)) else Opq(("ca", p.id))
    return p


def const_av(shape, init):
    e = init.e if isinstance(init, Sc) else lift(lambda s: s.e, init)
    return ArrVal(shape, lambda idx: e, "f")


def arr_ph(ip, st, p, shape, dtype, init_av):
    p.kind = "arr"
    p.init_av = init_av
    pid = p.id
    p.av = ArrVal(shape, lambda idx: A.mk("ca", (pid,) + tuple(idx)), dtype)
    p.value = None      # Arr created by the installer
    return p


class Loop:
    def __init__(self, ip, node, st, n, bind, cond=None):
        self.ip, self.node, self.st, self.n, self.bind = ip, node, st, n, bind
        self.outer = list(getattr(ip, "loopstack", []))
        self.test = cond
        self.i = A.fresh("i", nonneg=True)
        self.iid = A._single_atom(self.i).id
        self.names = assigned_names(node.body + ([ast.Expr(node.target)] if isinstance(node, ast.For) else []))
        self.targets = set(assigned_names([ast.Expr(node.target)])) if isinstance(node, ast.For) else set()
        if isinstance(node, ast.While):
            self.names += [x for x in assigned_names([ast.Expr(node.test)]) if x not in self.names]
        self.phs = {}
        self.hints = {}
        self.lists = {}

    def all_phs(self):
        out = []

        def go(p):
            out.append(p)
            for x in getattr(p, "parts", ()):
                go(x)
        for p in self.phs.values():
            go(p)
        return out

    # locations: ("n", name), ("c", cell), ("a", cell, attr), ("d", cell, key)
    def initial_locs(self):
        return [("n", x) for x in self.names if x in self.st.env and x not in self.targets]

    def get(self, st, loc):
        if loc[0] == "n":
            return st.env.get(loc[1], MISSING)
        if loc[0] == "c":
            return Arr(loc[1])
        if loc[0] == "a":
            return st.heap[loc[1]].attrs.get(loc[2], MISSING)
        if loc[0] == "d":
            return st.heap[loc[1]].d.get(loc[2], MISSING)
        if loc[0] == "l":
            return st.heap[loc[1]].items[loc[2]]
        raise Unsupported("location")

    def put(self, st, loc, v):
        if loc[0] == "n":
            st.env[loc[1]] = v
        elif loc[0] == "c":
            st.heap[loc[1]] = self.ip.aval(st, v)
        elif loc[0] == "a":
            c = st.heap[loc[1]]
            d = dict(c.attrs)
            d[loc[2]] = v
            st.heap[loc[1]] = ObjVal(c.cls, d, c.label)
        elif loc[0] == "d":
            d = dict(st.heap[loc[1]].d)
            d[loc[2]] = v
            st.heap[loc[1]] = DictVal(d)
        elif loc[0] == "l":
            it = list(st.heap[loc[1]].items)
            it[loc[2]] = v
            st.heap[loc[1]] = ListVal(it)

    def install(self, st, values=None):
        """placeholders (or given values) at the loop head"""
        for loc, p in self.phs.items():
            if values is not None:
                self.put(st, loc, values[loc](st))
            elif p.kind == "arr":
                self.put(st, loc, self.ip.mkarr(st, p.av))
            else:
                self.put(st, loc, p.value)
        for cell, (k, items, pid) in self.lists.items():
            if values is not None:
                st.heap[cell] = values[("L", cell)](st)
            else:
                st.heap[cell] = self.list_ph(cell)

    def list_ph(self, cell):
        k, items, pid = self.lists[cell]
        n0 = len(items)
        return SymList(R(n0) + R(k) * self.i, lambda j: Unknown("element of a growing list"))

    def run_body(self, st):
        """one iteration at symbolic index self.i on state st"""
        ip = self.ip
        fr = st.frame
        ctx = LoopCtx()
        outer, st.loop = st.loop, ctx
        nret, nraise = len(fr.returns), len(fr.raises)
        st.pc = True
        cond = True
        if self.bind is not None:
            self.bind(self.i, st)
        if self.test is not None:
            cond = ip.truth(ip.eval(self.test, st), st)
            st.pc = A.rawand(st.pc, cond)
            if st.pc is False:
                st.dead = True
        if not hasattr(ip, "loopstack"):
            ip.loopstack = []
        ip.loopstack.append(self)
        try:
            with A.assuming(cond) as ok:
                ip.exec_block(self.node.body, st)
                ip.rejoin(st, ctx.continues)
        finally:
            ip.loopstack.pop()
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        raises = fr.raises[nraise:]
        del fr.raises[nraise:]
        st.loop = outer
        return ctx.breaks, rets, raises, cond

    def fork(self):
        s = self.st.fork()
        return s

    def facts(self):
        if self.n is not None:
            return A.facts(self.i, self.n - self.i - 1)
        return A.facts(self.i)

    def probe(self):
        """fixpoint of the carried locations; returns the final body state"""
        ip = self.ip
        for loc in self.initial_locs():
            v = self.get(self.st, loc)
            if isinstance(v, (FuncV, ClassV, ModV, Intr)):
                continue
            self.phs[loc] = make_ph(ip, self.st, loc, v)
        for attempt in range(8):
            s = self.fork()
            self.install(s)
            before = dict(s.heap)
            benv = dict(s.env)
            with self.facts():
                out = self.run_body(s)
            redo = False
            if not s.dead or True:
                states = [s] if not s.dead else []
                states += [x for _, x in out[0]] + [x for _, _, x in out[1]]
                for x in states:
                    redo |= self.diff(before, x)
            if not s.dead:
                redo |= self.refine(s)
            if not redo:
                return s, out
        raise Unsupported("carried locations did not stabilise")

    def diff(self, before, s):
        redo = False
        for c, old in before.items():
            new = s.heap.get(c)
            if new is old or new is None:
                continue
            if ("c", c) in self.phs or c in self.lists and isinstance(new, (SymList, ListVal)) and \
                    self.list_ok(c, new):
                continue
            if isinstance(old, ArrVal):
                if c not in self.st.heap:
                    continue          # placeholder array of a name
                self.phs[("c", c)] = make_ph(self.ip, self.st, ("c", c), Arr(c))
                redo = True
            elif isinstance(old, ObjVal):
                for a in set(old.attrs) | set(new.attrs):
                    if old.attrs.get(a, MISSING) is not new.attrs.get(a, MISSING) and \
                            not A.same(old.attrs.get(a, MISSING), new.attrs.get(a, MISSING)) and \
                            ("a", c, a) not in self.phs:
                        v = self.st.heap[c].attrs.get(a, MISSING)
                        self.phs[("a", c, a)] = make_ph(self.ip, self.st, ("a", c, a), v)
                        redo = True
            elif isinstance(old, DictVal):
                for a in set(old.d) | set(new.d):
                    if not A.same(old.d.get(a, MISSING), new.d.get(a, MISSING)) and ("d", c, a) not in self.phs:
                        v = self.st.heap[c].d.get(a, MISSING)
                        self.phs[("d", c, a)] = make_ph(self.ip, self.st, ("d", c, a), v)
                        redo = True
            elif isinstance(old, ListVal):
                if isinstance(new, ListVal) and len(new.items) == len(old.items):
                    for j, (x, y) in enumerate(zip(old.items, new.items)):
                        if not A.same(x, y) and ("l", c, j) not in self.phs:
                            self.phs[("l", c, j)] = make_ph(self.ip, self.st, ("l", c, j), x)
                            redo = True
                elif isinstance(new, ListVal) and len(new.items) > len(old.items) and \
                        all(x is y for x, y in zip(old.items, new.items)) and c in self.st.heap:
                    self.lists[c] = (len(new.items) - len(old.items), list(old.items), nid())
                    redo = True
                else:
                    raise Unsupported("list changed in a loop in an unsupported way")
            elif isinstance(old, SymList):
                raise Unsupported("symbolic list changed in a loop")
        return redo

    def list_ok(self, c, new):
        k, items, pid = self.lists[c]
        if isinstance(new, SymList):
            want = R(len(items)) + R(k) * (self.i + 1)
            if A.same(new.n, want):
                return True
        raise Unsupported("list grows irregularly in a loop")

    def refine(self, s):
        """placeholder kinds that the body contradicts"""
        redo = False
        for loc, p in list(self.phs.items()):
            v = self.get(s, loc)
            if p.kind == "sc":
                if isinstance(v, Arr):
                    self.phs[loc] = make_ph(self.ip, self.st, loc, p.init, self.ip.aval(s, v))
                    redo = True
                elif isinstance(v, Sc) and v.k in "fF" and p.value.k in "iI":
                    self.phs[loc] = make_ph(self.ip, self.st, loc, p.init, "f")
                    redo = True
            elif p.kind == "arr" and isinstance(v, Arr) and loc[0] != "c":
                av = self.ip.aval(s, v)
                if len(av.shape) != len(p.av.shape):
                    raise Unsupported("array of varying rank carried by a loop")
        return redo


def contains(v, ids):
    return not ids.isdisjoint(A.deep_ids(v)) if isinstance(v, (Rat, Phi)) else False


def contains_cond(v, conds):
    return any(c in conds for c in A.conds_of(v)) if isinstance(v, Phi) else False


def ca_ids(v, pid):
    """ids of placeholder atoms of location pid in v"""
    return {a.id for a in A.all_atoms(v) if a.head == "ca" and a.args[0] == pid}


def dep_pids(v):
    out = set()
    if isinstance(v, (Rat, Phi)):
        for a in A.all_atoms(v):
            if a.head == "ca":
                out.add(a.args[0])
        s = set()
        _cabs(v, s)
        out |= s
    return out


def _cabs(v, s):
    for c in A.conds_of(v) if isinstance(v, Phi) else ():
        if c.kind == "cab":
            s.add(c.args[0])
    for a in A.all_atoms(v):
        for x in a.args:
            if isinstance(x, Phi):
                for c in A.conds_of(x):
                    if c.kind == "cab":
                        s.add(c.args[0])


def lt(a, b):
    return lift(lambda x, y: A.gt0(y - x), a, b)


class Solver:
    """closed forms at time t of the carried locations"""

    def __init__(self, L, s):
        self.L, self.ip, self.s = L, L.ip, s
        self.closed = {}       # loc -> callable(t, state) -> value
        self.sc = {}           # pid -> callable(t) -> gated Rat
        self.ar = {}           # pid -> callable(t, idx) -> gated Rat
        self.bo = {}           # pid -> callable(t) -> gated boolean
        self.steps = {}
        self.recs = {}
        self.info = {}

    def params(self, *exprs):
        """symbols of enclosing loops an expression depends on (None: an array
        carried by an enclosing loop)"""
        L = self.L
        if not L.outer:
            return ()
        own = {p.id for p in L.all_phs()}
        iids = {x.iid for x in L.outer}
        out = {}
        for e in exprs:
            if not isinstance(e, (Rat, Phi)):
                continue
            for a in A.all_atoms(e):
                if a.id in iids:
                    out[a.id] = A.R(a)
                elif a.head == "ca" and a.args[0] not in own:
                    if len(a.args) > 1:
                        return None
                    out[a.id] = A.R(a)
            s = set()
            _cabs(e, s)
            if s - own:
                return None
        return tuple(out[k] for k in sorted(out))

    # substitute solved placeholders (at time t) in an expression
    def close(self, e, t, only=None):
        sc, ar, bo = self.sc, self.ar, self.bo

        def fn(at, args):
            if at.head != "ca":
                return None
            pid = at.args[0]
            if pid in sc:
                return sc[pid](t)
            if pid in ar:
                return lift(lambda *ix: ar[pid](t, ix), *args[1:])
            return None
        if isinstance(e, (Rat, Phi)):
            e = self.close_bool(e, t)
            if any(p in sc or p in ar for p in dep_pids(e)):
                return A.subst(e, {}, fn)
        return e

    def close_bool(self, e, t):
        while isinstance(e, Phi):
            for c in A.conds_of(e):
                if c.kind == "cab" and c.args[0] in self.bo:
                    e = ite(self.bo[c.args[0]](t), A.cofactor(e, c, True), A.cofactor(e, c, False))
                    break
            else:
                return e
        return e

    def at_i(self, e, t):
        return A.subst(e, {self.L.iid: t}) if isinstance(e, (Rat, Phi)) else e

    def solve(self):
        L = self.L
        pend = []
        for loc, p in L.phs.items():
            pend += self.flatten(loc, p, L.get(self.s, loc))
        # order by dependency
        progress = True
        while pend and progress:
            progress = False
            for item in list(pend):
                loc, p, v = item
                if self.try_solve(p, v, {q.id for _, q, _ in pend}):
                    pend.remove(item)
                    progress = True
        for loc, p, v in pend:
            self.give_up(p, v, pend)

    def flatten(self, loc, p, v):
        if p.kind == "tup":
            if isinstance(v, Tup) and len(v.items) == len(p.parts):
                out = []
                for q, x in zip(p.parts, v.items):
                    out += self.flatten(q.loc, q, x)
                return out
            p.kind = "opq"
            p.value = Opq(("ca", p.id))
        return [(loc, p, v)]

    # -- one location ----------------------------------------------------
    def try_solve(self, p, v, pending):
        with self.L.facts():
            if p.kind == "sc":
                return self.solve_sc(p, v, pending)
            if p.kind == "bool":
                return self.solve_bool(p, v, pending)
            if p.kind == "arr":
                return self.solve_arr(p, v, pending)
            return self.solve_opq(p, v, pending)

    def step_expr(self, v):
        if isinstance(v, Sc):
            return v.e
        if isinstance(v, Phi) and not isbool(v):
            return lift(lambda x: x.e if isinstance(x, Sc) else unk("carried %r" % (x,)), v)
        if isinstance(v, Unknown):
            return unk(v.reason)
        if isbool(v):
            return tonum(v)
        return unk("carried %r" % (v,))

    def init_expr(self, p):
        return p.init.e if isinstance(p.init, Sc) else lift(lambda s: s.e, p.init)

    def solve_sc(self, p, v, pending):
        e = self.step_expr(v)
        e = self.close(e, self.L.i)
        deps = dep_pids(e)
        if (deps & pending) - {p.id}:
            return False
        f = self.scalar_form(p.atom, p.id, self.init_expr(p), e)
        if f is None:
            # inspectable recurrence
            f = self.rec_scalar(p, self.init_expr(p), e)
        self.sc[p.id] = f
        self.info[p.id] = dict(init=self.init_expr(p), step=e, closed=f)
        return True

    def rec_scalar(self, p, init, e):
        rid = nid()
        self.recs[p.id] = rid
        RECDEFS[rid] = ("scalar", p, init, e, self.L, self)
        integer = p.value.k in "iI"
        ps = self.params(init, e)
        PARAMS[rid] = ps

        def f(t):
            k = t.as_int() if isinstance(t, Rat) else None
            if k == 0:
                return init
            if ps is None:
                return unk("recurrence over data of an enclosing loop")
            return A.mk("rs", (rid, t) + ps, integer=integer)
        return f

    def scalar_form(self, atom, pid, init, e):
        """closed form of x' = e(x, i), or None"""
        i = self.L.i
        ids = ca_ids(e, pid)
        if A.same(e, atom):
            return lambda t: init
        bdep = dep_pids(e)
        if not ids and pid not in bdep:
            return lambda t: ite(lift(A.gt0, t), self.at_i(e, t - 1), init) if isinstance(t, Rat) else \
                lift(lambda tt: ite(A.gt0(tt), self.at_i(e, tt - 1), init), t)
        d = sub(e, atom)
        if not ca_ids(d, pid):
            return lambda t: add(init, self.sum_to(d, t))
        q = div(e, atom)
        if not ca_ids(q, pid):
            return lambda t: mul(init, self.prod_to(q, t))
        # x' = a x + b with a, b independent of x
        if isinstance(e, Rat):
            mx = self.extremum(atom, pid, init, e)
            if mx is not None:
                return mx
        return None

    def extremum(self, atom, pid, init, e):
        # e == fmax(x, g)  <=> e + min(x,g) = x + g ; detect a single min atom with x as one argument
        mins = [a for a in A.all_atoms(e) if a.head == "min" and ca_ids(R(a), pid)]
        if len(mins) != 1:
            return None
        x, y = mins[0].args
        if A.same(x, atom):
            g = y
        elif A.same(y, atom):
            g = x
        else:
            return None
        if ca_ids(g, pid):
            return None
        m = R(mins[0])
        if A.same(e, m):
            op = "amin"
        elif A.same(e, atom + g - m):
            op = "amax"
        else:
            return None
        v = A.fresh("sv", nonneg=True)
        gg = self.at_i(g, v)

        def f(t):
            b = A.binder(op, v, (t,), gg)
            return lift(A.fmin if op == "amin" else A.fmax, init, b)
        return f

    def sum_to(self, d, t):
        v = A.fresh("sv", nonneg=True)
        t0 = t
        with A.facts(v, t - v - 1):
            b = self.at_i(d, v)
        return A.summation(v, t0, b)

    def prod_to(self, q, t):
        if isinstance(q, Rat) and self.L.iid not in A.deep_ids(q):
            return lift(lambda a, b: A.power(a, b), q, t)
        v = A.fresh("sv", nonneg=True)
        b = self.at_i(q, v)
        if isinstance(b, Phi):
            b = A.indicator(b)
        return A.binder("prod", v, (t,), b)

    # -- booleans ----------------------------------------------------------
    def solve_bool(self, p, v, pending):
        if not isbool(v):
            if isinstance(v, Sc):
                v = lift(lambda x: bnot(A.eq0(x)), v.e)
            else:
                return self.solve_opq(p, v, pending)
        e = self.close(v, self.L.i)
        if (dep_pids(e) & pending) - {p.id}:
            return False
        init = p.init
        c = p.atom
        hi, lo = A.cofactor(e, c, True), A.cofactor(e, c, False)
        if p.id in dep_pids(hi) or p.id in dep_pids(lo):
            return False
        i = self.L.i
        if A.same(hi, lo):
            f = lambda t: ite(A.gt0(t), self.at_i(hi, t - 1), init)
        elif hi is True and lo is False:
            f = lambda t: init
        elif hi is True:        # b or g(i)
            def f(t):
                v = A.fresh("sv", nonneg=True)
                return bor(init, exists(v, t, self.at_i(lo, v)))
        elif lo is False:       # b and g(i)
            def f(t):
                v = A.fresh("sv", nonneg=True)
                return band(init, bnot(exists(v, t, bnot(self.at_i(hi, v)))))
        else:
            f = lambda t: Phi(A.condatom("unk", "carried flag"), True, False)
        self.bo[p.id] = f
        self.info[p.id] = dict(init=init, step=e, closed=f)
        return True

    def solve_opq(self, p, v, pending):
        fz = freeze(self.ip, self.s, v)
        if A.same(v, p.value) or v is p.value:
            p.result = lambda t, st: p.init
            return True
        dep = vdeps(fz)
        if dep & pending or "?" in dep:
            return False
        L = self.L

        def res(t, st):
            last = subst_val(fz, {L.iid: t - 1}, self.ip, st)
            return self.ip.merge(A.gt0(t), last, p.init, st)
        p.result = res
        return True

    # -- arrays ------------------------------------------------------------
    def solve_arr(self, p, v, pending):
        L = self.L
        if isinstance(v, Unknown) or not isinstance(v, Arr):
            r = v.reason if isinstance(v, Unknown) else "array became %r" % (v,)
            self.ar[p.id] = lambda t, idx: unk(r)
            return True
        av = self.ip.aval(self.s, v)
        # shape evolution
        shape = p.av.shape
        if len(av.shape) != len(shape):
            self.ar[p.id] = lambda t, idx: unk("rank change")
            return True
        q = [A.fresh("q", nonneg=True) for _ in shape]
        ff = []
        for a, n in zip(q, shape):
            ff += [a, n - a - 1]
        with A.facts(*ff):
            e = av.at(tuple(q))
            e = self.close(e, L.i)
            deps = dep_pids(e)
            if (deps & pending) - {p.id}:
                return False
            me = A.mk("ca", (p.id,) + tuple(q))
            f = self.array_form(p, q, e, me)
        self.ar[p.id] = f
        self.info[p.id] = dict(init=p.init_av, step=e, q=q, closed=f)
        return True

    def array_form(self, p, q, e, me):
        L = self.L
        meid = A._single_atom(me).id
        qids = [A._single_atom(x).id for x in q]
        init = p.init_av

        def iv(idx):
            return init.at(idx)

        def inst(x, idx, extra=None):
            mp = {k: R(v) for k, v in zip(qids, idx)}
            if extra:
                mp.update(extra)
            return A.subst(x, mp)
        if A.same(e, me):
            return lambda t, idx: iv(idx)
        ids = ca_ids(e, p.id)
        if not ids:
            # every element overwritten every iteration, unless gated on i
            return lambda t, idx: ite(A.gt0(t), self.at_i(inst(e, idx), t - 1), iv(idx))
        if ids == {meid}:
            d = sub(e, me)
            if not ca_ids(d, p.id):
                return lambda t, idx: add(iv(idx), self.sum_to(inst(d, idx), t))
            r = div(e, me)
            if not ca_ids(r, p.id):
                return lambda t, idx: mul(iv(idx), self.prod_to(inst(r, idx), t))
        cand = self.writes(e, me, q)
        if cand is not None:
            return self.fill_form(p, q, e, me, cand, inst, iv)
        if ids == {meid} and isinstance(e, Rat):
            pass
        return self.opaque_arr(p, q, e, me, inst, iv)

    def opaque_arr(self, p, q, e, me, inst, iv):
        rid = nid()
        RECDEFS[rid] = ("array-iterate", p, q, e, me, self.L, self)
        self.recs[p.id] = rid
        ps = self.params(iv(tuple(q)), e)
        PARAMS[rid] = ps

        def f(t, idx):
            if isinstance(t, Rat) and t.as_int() == 0:
                return iv(idx)
            if ps is None:
                return unk("recurrence over data of an enclosing loop")
            return A.mk("rit", (rid, t) + tuple(idx) + ps)
        return f

    def writes(self, e, me, q):
        """the distinct iteration indices at which element q may be written:
        [i*(q)], or None when a write region does not determine i"""
        L = self.L
        out = []
        for c, leaf in gleaves(e):
            if c is False or A.same(leaf, me):
                continue
            sol = None
            for a, pol in A.literals(c):
                if a.kind == "eq0" and pol:
                    s = solve_for(a.args[0], L.iid)
                    if s is not None:
                        sol = s
                        break
            if sol is None:
                return None
            if not any(A.same(sol, x) for x in out):
                out.append(sol)
        return out

    def fill_form(self, p, q, e, me, cand, inst, iv):
        L = self.L
        wr = lift(lambda x: not A.same(x, me), e)      # written at iteration i
        pid = p.id
        vals = []
        for s in cand:
            reg = A.subst(wr, {L.iid: s})
            # value written, given that it is written
            with A.assuming(A.subst(wr, {L.iid: s})) as ok:
                val = A.subst(e, {L.iid: s})
            vals.append([s, reg, val])
        # self references
        refs = set()
        for s, reg, val in vals:
            for a in A.all_atoms(val):
                if a.head == "ca" and a.args[0] == pid:
                    refs.add(a.id)
        meid = A._single_atom(me).id
        if len(cand) == 1:
            s, reg, val = vals[0]
            others = [A.atom_of(r) for r in refs if r != meid]
            n = L.n
            if not others:
                def f(t, idx):
                    si = inst(s, idx)
                    ok = band(lift(A.ge0, si), lift(lambda a, b: A.gt0(b - a), si, t))
                    ok = band(ok, inst(reg, idx))
                    if ok is False:
                        return iv(idx)
                    with A.assuming(ok) as good:
                        x = A.subst(val, {meid: iv_lazy(iv, q)}) if False else val
                        x = self.sub_me(val, me, q, idx, iv, inst)
                    if not good:
                        return iv(idx)
                    if ok is True:
                        return x
                    return ite(ok, x, iv(idx))
                return f
            # recurrence: references to elements written at other iterations
            rid = nid()
            D = RecDef()
            D.rid, D.shape, D.index, D.istar, D.n = rid, p.av.shape, q, s, n
            D.qual = L.st.frame.qual
            D.region = band(band(lift(A.ge0, s), lift(lambda a: A.gt0(n - a), s)), reg)
            order_ok = True
            ps = self.params(D.region, val, iv(tuple(q)))
            PARAMS[rid] = ps
            D.params = ps
            if ps is None:
                return self.opaque_arr(p, q, e, me, inst, iv)

            def fn(at, args):
                nonlocal order_ok
                if at.head == "ca" and at.args[0] == pid:
                    idx = args[1:]
                    if at.id == meid:
                        return iv(tuple(q))
                    # when is that element written, relative to now?
                    so = inst(s, idx)
                    with A.assuming(D.region):
                        dlt = lift(lambda a, b: a - b, s, so)
                        before = lift(A.gt0, dlt)
                    if before is True:
                        return A.mk("ra", (rid,) + tuple(idx) + ps)
                    after = lift(lambda a: A.ge0(-a), dlt) if isinstance(dlt, Rat) else None
                    if after is True:
                        return iv(tuple(idx))
                    order_ok = False
                    return unk("element read before or after it is written")
                return None
            with A.assuming(D.region):
                D.step = A.subst(val, {}, fn)
            D.init = iv(tuple(q))
            D.initf = iv
            RECDEFS[rid] = D
            self.recs[pid] = rid

            def f(t, idx):
                si = inst(s, idx)
                ok = band(band(lift(A.ge0, si), lift(lambda a, b: A.gt0(b - a), si, t)), inst(reg, idx))
                if ok is False:
                    return iv(idx)
                x = A.mk("ra", (rid,) + tuple(idx) + ps)
                if ok is True:
                    return x
                return ite(ok, x, iv(idx))
            return f
        # several write times per element: the later one wins
        if refs - {meid}:
            return self.opaque_arr(p, q, e, me, inst, iv)

        def f(t, idx):
            res = iv(idx)
            items = []
            for s, reg, val in vals:
                si = inst(s, idx)
                ok = band(band(lift(A.ge0, si), lift(lambda a, b: A.gt0(b - a), si, t)), inst(reg, idx))
                if ok is not False:
                    items.append((si, ok, val))
            if meid in refs and len(items) > 1:
                return unk("element updated at two iterations")
            for k, (si, ok, val) in enumerate(items):
                win = ok
                for k2, (sj, okj, _) in enumerate(items):
                    if k2 != k:
                        later = lift(lambda a, b: A.gt0(b - a), si, sj)
                        win = band(win, bnot(band(okj, later)))
                with A.assuming(win) as good:
                    x = self.sub_me(val, me, q, idx, iv, inst) if good else None
                if x is not None:
                    res = ite(win, x, res)
            return res
        return f

    def sub_me(self, val, me, q, idx, iv, inst):
        meid = A._single_atom(me).id
        if meid in A.deep_ids(val):
            z = A.fresh("me", integer=False)
            val = A.subst(val, {meid: z})
            x = inst(val, idx)
            return lift(lambda i0: A.subst(x, {A._single_atom(z).id: i0}), iv(idx))
        return inst(val, idx)

    # -- no closed form ------------------------------------------------------
    def give_up(self, p, v, pend):
        rid = nid()
        RECDEFS[rid] = ("mutual", p, v, self.L, self)
        self.recs[p.id] = rid
        self.info[p.id] = dict(init=p.init, step=v, closed=None)
        if self.L.outer:
            self.sc[p.id] = lambda t: unk("mutual recurrence in a nested loop")
            self.ar[p.id] = lambda t, idx: unk("mutual recurrence in a nested loop")
            if p.kind in ("sc", "arr"):
                (self.ar if p.kind == "sc" else self.sc).pop(p.id)
                return
            self.sc.pop(p.id)
            self.ar.pop(p.id)
        PARAMS[rid] = ()
        if p.kind == "sc":
            init = self.init_expr(p)
            self.sc[p.id] = lambda t: init if t.as_int() == 0 else A.mk("rs", (rid, t))
        elif p.kind == "arr":
            iv = p.init_av
            self.ar[p.id] = lambda t, idx: iv.at(idx) if t.as_int() == 0 else A.mk("rit", (rid, t) + tuple(idx))
        elif p.kind == "bool":
            self.bo[p.id] = lambda t: p.init if t.as_int() == 0 else \
                Phi(A.condatom("unk", "flag carried by a loop"), True, False)
        else:
            p.result = lambda t, st: Unknown("value carried by a loop")

    def value(self, p, t, st):
        """value of location at time t (materialised in st)"""
        if p.kind == "sc":
            k = p.value.k
            return Sc(self.sc[p.id](t), k)
        if p.kind == "bool":
            if p.id in self.bo:
                return self.bo[p.id](t)
            return p.result(t, st)
        if p.kind == "arr":
            f = self.ar[p.id]
            return self.ip.mkarr(st, ArrVal(p.av.shape, lambda idx: f(t, idx), p.av.dtype))
        if p.kind == "tup":
            return Tup([self.value(x, t, st) for x in p.parts])
        return p.result(t, st)


def iv_lazy(iv, q):
    return None


def vdeps(v):
    """placeholder ids occurring in a frozen value"""
    out = set()
    if isinstance(v, (Rat, Phi)) and not isinstance(v, Phi) or isbool(v):
        return dep_pids(v) if not isinstance(v, bool) else out
    if isinstance(v, Sc):
        return dep_pids(v.e)
    if isinstance(v, Tup):
        for x in v.items:
            out |= vdeps(x)
    elif isinstance(v, FrozenList):
        for x in v.items:
            out |= vdeps(x)
    elif isinstance(v, Phi):
        out |= dep_pids(Phi(v.cond, True, False)) | vdeps(v.hi) | vdeps(v.lo)
    elif isinstance(v, Opq):
        if v.key and v.key[0] == "ca":
            out.add(v.key[1])
    elif isinstance(v, FrozenArr):
        q = [A.fresh("q", nonneg=True) for _ in v.av.shape]
        out |= dep_pids(v.av.at(tuple(q)))
    return out


def solve_for(p, iid):
    """index i from p(i) == 0 when p is linear in i with coefficient +-c"""
    p = p.canon()
    if p.den:
        return None
    co, rest = None, {}
    for m, c in p.num.items():
        has = [x for x in m if iid in A.deep_ids_atom(x[0])]
        if not has:
            rest[m] = c
        elif len(m) == 1 and m[0] == (iid, 1):
            co = c
        else:
            return None
    if co is None:
        return None
    s = Rat(rest, {}) * R(-1 / co)
    if abs(co) != 1 and not A.is_int_valued(s):
        return None
    return s


def havoc(ip, L, st, body, breaks, rets, raises):
    """forget what the loop computes; the analyser looks at one transfer of its body"""
    ip.havoc(L, body)
    if breaks or rets:
        raise Unsupported("early exit from a loop without closed form")
    L.install(st)
    for x in L.names:
        if ("n", x) not in L.phs:
            st.env[x] = Unknown("loop-local %s" % x)
    st.frame.cur = st


def summarise(ip, node, st, n, bind, test=None):
    L = Loop(ip, node, st, n, bind, test)
    body, (breaks, rets, raises, cond) = L.probe()
    if getattr(ip, "havoc", None) is not None:
        return havoc(ip, L, st, body, breaks, rets, raises)
    S = Solver(L, body)
    S.solve()
    rec = LoopRec()
    rec.node, rec.qual, rec.i, rec.cond = node, st.frame.qual, L.i, cond
    rec.loop, rec.solver = L, S
    rec.breaks, rec.rets = breaks, rets
    rec.body_state = body
    rec.pre = st.fork()
    ip.loops.append(rec)
    rec.where = ip.loc(st, node)
    breaks = [b for b in breaks if b[0] is not False]
    rets = [b for b in rets if b[0] is not False]
    raises = [b for b in raises if b[0] is not False]
    if n is None:
        n = trip_count(L, S, cond)
    L.n = n
    rec.n = n
    lists = {}
    for cell, (k, items, pid) in L.lists.items():
        lists[cell] = appended(L, S, body, cell)

    def values_at(t):
        d = {loc: (lambda s, p=p: S.value(p, t, s)) for loc, p in L.phs.items()}
        for cell in L.lists:
            d[("L", cell)] = lambda s, cell=cell: lists[cell](t)
        return d
    fnode = getattr(st.frame, "node", None)
    live = used_names(fnode, node) if fnode is not None else set(L.names)
    temps = [x for x in L.names if ("n", x) not in L.phs and (x in live or fnode is None)]
    exits = breaks or rets or raises
    fin = None
    if exits or temps:
        # second transfer of the body with closed forms in place
        s2 = L.fork()
        L.install(s2, values_at(L.i))
        with L.facts():
            b2, r2, x2, c2 = L.run_body(s2)
        fin = s2
        breaks = [b for b in b2 if b[0] is not False]
        rets = [b for b in r2 if b[0] is not False]
        raises = [b for b in x2 if b[0] is not False]
    i = L.i
    outer_pc = st.pc
    # ---- exits -----------------------------------------------------------
    if exits:
        stop = False
        for b in breaks:
            stop = bor(stop, b[0])
        for b in rets:
            stop = bor(stop, b[0])
        for b in raises:
            stop = bor(stop, b[0])
        ex = exists(i, n, stop)
        rec.stop, rec.exists = stop, ex
        kstar = first_index(i, n, stop) if ex is not False else None
    fr = st.frame
    if exits and ex is not False:
        def at_exit(s, v=None):
            x = st.fork()
            transplant(ip, x, s, {L.iid: kstar}, L)
            vv = subst_val(freeze(ip, s, v), {L.iid: kstar}, ip, x) if v is not None else None
            return x, vv
        def at_star(pc):
            if A.same(pc, stop):
                return ex
            return band(ex, A.subst(pc, {L.iid: kstar}))
        for pc, v, s in rets:
            x, vv = at_exit(s, v)
            g = at_star(pc)
            fr.returns.append((A.rawand(outer_pc, g), vv, x))
        for pc, nm, s in raises:
            x, _ = at_exit(s)
            fr.raises.append((A.rawand(outer_pc, at_star(pc)), nm, x))
        bx = []
        for pc, s in breaks:
            x, _ = at_exit(s)
            bx.append((A.rawand(outer_pc, at_star(pc)), x))
        normal_pc = A.rawand(outer_pc, bnot(ex))
    else:
        bx = []
        normal_pc = outer_pc
    # ---- normal termination ---------------------------------------------------
    t = lift(lambda m: A.fmax(m, ZERO), n) if A.decide_gt0(n, False) is not True else n
    L.install(st, values_at(t))
    for x in L.names:
        if ("n", x) in L.phs:
            continue
        if x in temps and fin is not None and not fin.dead and x in fin.env:
            fz = freeze(ip, fin, fin.env[x])
            try:
                last = subst_val(fz, {L.iid: n - 1}, ip, st)
            except Unsupported as u:
                last = Unknown(str(u))
            old = st.env.get(x, MISSING)
            pos = A.gt0(n)
            if pos is True:
                st.env[x] = last
            elif pos is not False:
                st.env[x] = ip.merge(pos, last, old, st)
        elif x not in temps:
            st.env[x] = Unknown("loop-local %s" % x)
    st.pc = normal_pc
    if st.pc is False:
        st.dead = True
    if not st.dead and node.orelse:
        ip.exec_block(node.orelse, st)
    if bx:
        ip.rejoin(st, bx)
    st.frame.cur = st
    return rec


def transplant(ip, x, s, mp, L):
    """state x := s with the loop index substituted"""
    for k, v in s.env.items():
        if x.env.get(k, MISSING) is v:
            continue
        x.env[k] = subst_val(freeze(ip, s, v), mp, ip, x)
    for c, v in s.heap.items():
        if x.heap.get(c) is v:
            continue
        if isinstance(v, ArrVal):
            x.heap[c] = subst_av(v, mp)
        elif isinstance(v, ListVal):
            x.heap[c] = ListVal([subst_val(freeze(ip, s, y), mp, ip, x) for y in v.items])
        elif isinstance(v, ObjVal):
            x.heap[c] = ObjVal(v.cls, {a: (y if x.heap.get(c) is not None and isinstance(x.heap[c], ObjVal) and
                                           x.heap[c].attrs.get(a, MISSING) is y
                                           else subst_val(freeze(ip, s, y), mp, ip, x))
                                       for a, y in v.attrs.items()}, v.label)
        elif isinstance(v, DictVal):
            x.heap[c] = DictVal({a: subst_val(freeze(ip, s, y), mp, ip, x) for a, y in v.d.items()})
        else:
            x.heap[c] = v


def appended(L, S, body, cell):
    """list contents as a function of time"""
    k, items, pid = L.lists[cell]
    ip = L.ip
    n0 = len(items)
    new = body.heap[cell]
    got = [freeze(ip, body, new.fn(R(n0) + R(k) * L.i + R(j))) for j in range(k)]

    def at(t):
        def fn(j):
            j = R(j)
            for a in range(n0):
                if A.same(j, R(a)):
                    return items[a]
            jj = j - R(n0)
            if k == 1:
                it, off = jj, 0
            else:
                it = A.floor(jj / R(k))
                off = (jj - R(k) * it).as_int()
                if off is None:
                    return Unknown("element of a list extended by several items per iteration")
            v = close_val(S, got[off], L.i)
            return subst_val(v, {L.iid: it}, ip, fr_state(L))
        if n0 == 0 or True:
            return SymList(R(n0) + R(k) * t, fn)
    return at


def fr_state(L):
    cur = L.st.frame.cur
    return cur if cur is not None else L.st


def close_val(S, v, t):
    if isinstance(v, Sc):
        return Sc(S.close(v.e, t), v.k)
    if isinstance(v, Tup):
        return Tup([close_val(S, x, t) for x in v.items])
    if isinstance(v, FrozenList):
        return FrozenList([close_val(S, x, t) for x in v.items])
    if isinstance(v, FrozenArr):
        av = v.av
        return FrozenArr(ArrVal(av.shape, lambda idx: S.close(av.at(idx), t), av.dtype))
    if isinstance(v, Phi):
        if isbool(v):
            return S.close(v, t)
        return A._node(v.cond, close_val(S, v.hi, t), close_val(S, v.lo, t))
    return v


def trip_count(L, S, cond):
    """number of iterations of a while loop from its closed-form condition"""
    with A.facts(L.i):
        c = S.close(cond, L.i)
    if c is False:
        return ZERO
    if isinstance(c, Phi):
        lits = A.literals(c)
        if c.hi in (True, False) and c.lo in (True, False):
            a, pol = c.cond, c.hi is True
            if a.kind == "gt0" and L.iid in A.deep_ids(a.args[0]):
                p = a.args[0].canon()
                co, rest = lin(p, L.iid)
                if co is not None and not p.den:
                    # pol: co*i + rest > 0 ; not pol: co*i + rest <= 0
                    s = A.sign_of(co)
                    if pol and s == "-":
                        # i < rest/(-co): count = ceil(rest / -co)
                        return -A.floor(-(rest / (-co)))
                    if not pol and s == "+":
                        # i <= -rest/co : count = floor(-rest/co) + 1
                        return A.floor(-rest / co) + 1
    rid = nid()
    RECDEFS[rid] = ("trips", c, L)
    ps = S.params(c)
    PARAMS[rid] = ps
    if ps is None:
        raise Unsupported("loop condition over data of an enclosing loop")
    return A.mk("trips", (rid,) + ps, integer=True, nonneg=True)


def lin(p, iid):
    co, rest = ZERO, ZERO
    for m, c in p.num.items():
        has = [x for x in m if iid in A.deep_ids_atom(x[0])]
        if not has:
            rest = rest + Rat({m: c}, {})
        elif has == [(iid, 1)]:
            m2 = tuple(x for x in m if x[0] != iid)
            co = co + Rat({m2: c}, {})
        else:
            return None, None
    return co, rest


def summarise_while(ip, node, st):
    c = ip.truth(ip.eval(node.test, st.fork()), st)
    if c is False:
        ip.eval(node.test, st)
        if node.orelse:
            ip.exec_block(node.orelse, st)
        return
    return summarise(ip, node, st, None, None, node.test)


_INFO = {}


def rec_info(rid):
    """(index symbols, step closed in the loop index, loop index id, init(idx)) of
    a recurrence without closed form"""
    if rid in _INFO:
        return _INFO[rid]
    D = RECDEFS[rid]
    kind, p = D[0], D[1]
    S = D[-1]
    L = S.L
    if kind == "scalar":
        with L.facts():
            r = ([], S.close(D[3], L.i), L.iid, lambda idx, v=D[2]: v)
    elif kind == "array-iterate":
        with L.facts():
            r = (D[2], S.close(D[3], L.i), L.iid, lambda idx: p.init_av.at(idx))
    elif kind == "mutual" and p.kind == "sc":
        with L.facts():
            r = ([], S.close(S.step_expr(D[2]), L.i), L.iid, lambda idx, v=S.init_expr(p): v)
    elif kind == "mutual" and p.kind == "arr" and isinstance(D[2], Arr):
        av = S.ip.aval(S.s, D[2])
        q = [A.fresh("q", nonneg=True) for _ in av.shape]
        ff = []
        for a, n in zip(q, p.av.shape):
            ff += [a, n - a - 1]
        with L.facts():
            with A.facts(*ff):
                r = (q, S.close(av.at(tuple(q)), L.i), L.iid, lambda idx: p.init_av.at(idx))
    else:
        r = None
    _INFO[rid] = r
    return r


def unfold(v):
    """one unfolding of every array recurrence in v"""
    def fn(at, args):
        if at.head != "ra":
            return None
        D = RECDEFS[at.args[0]]
        k = len(D.index)
        idx, ps = [R(x) for x in args[1:1 + k]], args[1 + k:]

        def inst(e):
            mp = {A._single_atom(q).id: x for q, x in zip(D.index, idx)}
            mp.update({A._single_atom(q).id: R(x) for q, x in zip(PARAMS.get(at.args[0]) or (), ps)})
            return A.subst(e, mp)
        reg = inst(D.region)
        if reg is True:
            return inst(D.step)
        if reg is False:
            return inst(D.init)
        return ite(reg, inst(D.step), inst(D.init))
    return A.subst(v, {}, fn)


def resolve(v):
    """replace references to elements outside the recurrence by their initial value"""
    def fn(at, args):
        if at.head != "ra":
            return None
        D = RECDEFS[at.args[0]]
        k = len(D.index)
        idx, ps = [R(x) for x in args[1:1 + k]], args[1 + k:]

        def inst(e):
            mp = {A._single_atom(q).id: x for q, x in zip(D.index, idx)}
            mp.update({A._single_atom(q).id: R(x) for q, x in zip(PARAMS.get(at.args[0]) or (), ps)})
            return A.subst(e, mp)
        reg = inst(D.region)
        me = A.mk("ra", (at.args[0],) + tuple(idx) + tuple(ps))
        if reg is True:
            return me
        if reg is False:
            return inst(D.init)
        return ite(reg, me, inst(D.init))
    return A.subst(v, {}, fn)
