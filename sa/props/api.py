"""C30: names, attributes, signatures and local variables of the whole package."""
import ast
import builtins
import glob
from ..model import *
from .. import pyxload
from . import prop

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__builtins__"}
SKIP = ("_setup.py", "setup.py")
ANY = object()


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.rel = "CasimirRio/" + os.path.basename(path)
        self.star = False
        self.env = {}
        self.collect(tree.body)

    def collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                # a second definition replaces the first
                self.env[s.name] = s if s.name not in self.env or isinstance(self.env[s.name], type(s)) else ANY
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.env[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        self.star = True
                    self.env[a.asname or a.name] = ("from", s.module, a.name)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for f in ("body", "orelse", "finalbody"):
                    self.collect(getattr(s, f, []))
                for h in getattr(s, "handlers", []):
                    self.collect(h.body)
                if isinstance(s, ast.With):
                    for i in s.items:
                        if i.optional_vars is not None:
                            self.store(i.optional_vars)
                if isinstance(s, ast.For):
                    self.store(s.target)
            for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.env[x.id] = ANY if x.id in self.env else ("value", s.value if isinstance(s, ast.Assign) else None)
        # names made global inside functions
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Global):
                    for n in x.names:
                        self.env.setdefault(n, ANY)

    def store(self, t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                self.env.setdefault(x.id, ANY)


def live(tree):
    """drop statements that control never reaches"""
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                        del b[i + 1:]
                        break
    return tree


class Pkg:
    def __init__(self, ck):
        self.ck = ck
        self.mods = {}
        for p in sorted(glob.glob(os.path.join(I.REPO, "*.py")) + glob.glob(os.path.join(I.REPO, "*.pyx"))):
            n = os.path.basename(p)
            if n.endswith(SKIP):
                continue
            with open(p, encoding="utf-8") as f:
                t = pyxload.load(p) if p.endswith(".pyx") else ast.parse(f.read(), p)
            self.mods[n.rsplit(".", 1)[0]] = Mod(n.rsplit(".", 1)[0], p, live(t))

    def resolve(self, m, name, seen=()):
        """definition behind a global name: FunctionDef, ClassDef (with module), module or None when not followed"""
        d = m.env.get(name)
        if isinstance(d, (ast.FunctionDef, ast.ClassDef)):
            return (m, d)
        if isinstance(d, tuple) and d[0] == "mod" and d[1] in self.mods:
            return self.mods[d[1]]
        if isinstance(d, tuple) and d[0] == "from" and d[1] in self.mods and d[2] != "*":
            if d[2] in self.mods and d[2] not in self.mods[d[1]].env:
                return self.mods[d[2]]
            if (d[1], d[2]) not in seen:
                return self.resolve(self.mods[d[1]], d[2], seen + ((d[1], d[2]),))
        return None


class Func:
    """one function (or module body): names, calls, attributes"""

    def __init__(self, pk, m, node, qual, outer, cls):
        self.pk, self.ck, self.m, self.node, self.qual, self.outer, self.cls = pk, pk.ck, m, node, qual, outer, cls
        self.isf = isinstance(node, (ast.FunctionDef, ast.Lambda))
        self.locals = set()
        self.body = node.body if isinstance(node.body, list) else [node.body]
        if self.isf:
            a = node.args
            for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                self.locals.add(x.arg)
            self.params = set(self.locals)
            glob_ = set()
            for x in self.walk():
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.locals.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    self.locals.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for n in x.names:
                        self.locals.add(n.asname or n.name.split(".")[0])
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    self.locals.add(x.name)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    glob_ |= set(x.names)
            self.locals -= glob_

    def walk(self):
        """nodes of this scope; nested functions are scopes of their own"""
        todo = list(self.body)
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                todo += x.args.defaults + [d for d in x.args.kw_defaults if d] + getattr(x, "decorator_list", [])
                continue
            if isinstance(x, ast.ClassDef):
                todo += x.bases + x.decorator_list
                continue
            todo += list(ast.iter_child_nodes(x))

    def where(self, n):
        return "%s:%s (line %d)" % (self.m.rel, self.qual, n.lineno)

    def visible(self, n):
        f = self
        while f is not None:
            if f.isf and n in f.locals:
                return True
            f = f.outer
        return n in self.m.env or n in BUILTINS or self.m.star

    def islocal(self, n):
        f = self
        while f is not None:
            if f.isf and n in f.locals:
                return True
            f = f.outer
        return False

    def run(self):
        ck = self.ck
        ck.functions.add("%s:%s" % (self.m.rel, self.qual))
        bad = []
        for x in self.walk():
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if not self.visible(x.id):
                    bad.append(x)
        if bad:
            for x in bad:
                ck.violated("%s.%s: name %s" % (self.m.name, self.qual, x.id), self.where(x), "is not defined anywhere")
        else:
            ck.holds("%s.%s: every name is defined" % (self.m.name, self.qual), self.where(self.node) if self.isf else self.m.rel)
        for x in self.walk():
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                if isinstance(x.value, ast.Name):
                    self.attr(x)
                c = self.typed(x.value)
                if c is not None and not c.open:
                    self.ck.truth("%s.%s: geometry.%s" % (self.m.name, self.cls.node.name, x.attr), x.attr in c.attrs, self.where(x),
                                  "no method or attribute of that name in %s, its bases or subclasses" % c.node.name)
            elif isinstance(x, ast.ImportFrom) and x.module in self.pk.mods:
                for a in x.names:
                    if a.name != "*":
                        t = self.pk.mods[x.module]
                        ck.truth("%s: from %s import %s" % (self.m.name, x.module, a.name), a.name in t.env or t.star, self.where(x) if self.isf else
                                 "%s (line %d)" % (self.m.rel, x.lineno), "%s has no such name" % x.module)
            if isinstance(x, ast.Call):
                self.call(x)
        if self.isf and not isinstance(self.node, ast.Lambda):
            Assign(self).run()

    # -- attributes ---------------------------------------------------------------------
    def attr(self, x):
        n = x.value.id
        if n == "self" and self.cls is not None and "self" in getattr(self.root(), "params", ()):
            c = self.cls
            if c.open:
                return
            self.ck.truth("%s.%s: self.%s" % (self.m.name, c.node.name, x.attr), x.attr in c.attrs, self.where(x),
                          "no method or attribute of that name in %s, its bases or subclasses" % c.node.name)
            return
        if self.islocal(n):
            return
        t = self.pk.resolve(self.m, n)
        if isinstance(t, Mod) and not t.star:
            self.ck.truth("%s.%s: %s.%s" % (self.m.name, self.qual, n, x.attr), x.attr in t.env or x.attr.startswith("__"), self.where(x),
                          "module %s has no such name" % t.name)

    def typed(self, e):
        """class of the geometry an object of the package was built with"""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and self.cls is not None:
            if all(e.attr in k.geom or e.attr not in k.own for k in self.cls.up()) and any(e.attr in k.geom for k in self.cls.up()):
                return CLASSES.get(("geometry", "SphereSphere"))
        if isinstance(e, ast.Name) and e.id == "geom" and self.cls is not None and self.isf and "geom" in self.params:
            return CLASSES.get(("geometry", "SphereSphere"))
        return None

    def root(self):
        f = self
        while f.outer is not None and f.outer.isf:
            f = f.outer
        return f

    # -- calls ----------------------------------------------------------------------------
    def target(self, f):
        """-> (FunctionDef, number of bound arguments, description) or None"""
        if isinstance(f, ast.Name) and not self.islocal(f.id):
            d = self.pk.resolve(self.m, f.id)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id == "self" and self.cls is not None and not self.cls.open:
                d = self.cls.method(f.attr)
                return (d, 1) if d is not None else None
            if self.islocal(f.value.id):
                return None
            t = self.pk.resolve(self.m, f.value.id)
            d = self.pk.resolve(t, f.attr) if isinstance(t, Mod) else None
        else:
            return None
        if isinstance(d, tuple) and isinstance(d[1], ast.FunctionDef):
            return (d[1], 0) if not d[1].decorator_list else None
        if isinstance(d, tuple) and isinstance(d[1], ast.ClassDef):
            c = CLASSES.get((d[0].name, d[1].name))
            if c is None or c.open:
                return None
            i = c.method("__init__")
            return (i, 1) if i is not None else None
        return None

    def call(self, x):
        t = self.target(x.func)
        if t is None or any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
            return
        fn, bound = t
        a = fn.args
        names = [y.arg for y in a.posonlyargs + a.args][bound:]
        req = len(names) - min(len(a.defaults), len(names))
        why = None
        if len(x.args) > len(names) and a.vararg is None:
            why = "%d positional arguments, %s takes %d" % (len(x.args), fn.name, len(names))
        kws = [k.arg for k in x.keywords]
        kwonly = [y.arg for y in a.kwonlyargs]
        for k in kws:
            if k in names[:len(x.args)]:
                why = "%s is given twice" % k
            elif k not in names and k not in kwonly and a.kwarg is None:
                why = "%s has no parameter %s" % (fn.name, k)
        miss = [n for i, n in enumerate(names[:req]) if i >= len(x.args) and n not in kws]
        miss += [n for n, d in zip(kwonly, a.kw_defaults) if d is None and n not in kws]
        if miss and why is None:
            why = "%s is called without %s" % (fn.name, ", ".join(miss))
        self.ck.truth("%s.%s: call %s" % (self.m.name, self.qual, ast.unparse(x.func)), why is None, self.where(x), why or "")


class Cls:
    def __init__(self, pk, m, node):
        self.pk, self.m, self.node = pk, m, node
        self.own, self.methods = set(), {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.own.add(s.name)
                self.methods[s.name] = s if not s.decorator_list else None
            for x in ast.walk(s) if not isinstance(s, ast.FunctionDef) else ():
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.own.add(x.id)
                    self.methods[x.id] = None
        self.dyn = False
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                self.own.add(x.attr)
                self.methods.setdefault(x.attr, None)
                if not isinstance(self.methods[x.attr], type(None)):
                    self.methods[x.attr] = None
            elif isinstance(x, ast.Call) and ast.unparse(x.func) in ("setattr", "self.__dict__.update", "vars"):
                self.dyn = True
            elif isinstance(x, ast.Attribute) and x.attr == "__dict__":
                self.dyn = True
        # attributes that always hold the geometry handed to the constructor
        self.geom, other = set(), set()
        for fn in [f for f in node.body if isinstance(f, ast.FunctionDef)]:
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            g = isinstance(x.value, ast.Name) and x.value.id == "geom" and any(a.arg == "geom" for a in fn.args.args)
                            (self.geom if g else other).add(t.attr)
        self.geom -= other
        if "__getattr__" in self.own or "__getattribute__" in self.own or "__slots__" in self.own:
            self.dyn = True

    def link(self):
        self.bases, self.open = [], self.dyn or bool(self.node.keywords)
        for b in self.node.bases:
            t = None
            if isinstance(b, ast.Name):
                t = self.pk.resolve(self.m, b.id)
                if t is None and b.id == "object":
                    continue
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                mm = self.pk.resolve(self.m, b.value.id)
                t = self.pk.resolve(mm, b.attr) if isinstance(mm, Mod) else None
            c = CLASSES.get((t[0].name, t[1].name)) if isinstance(t, tuple) else None
            if c is None:
                self.open = True
            else:
                self.bases.append(c)

    def up(self):
        out = [self]
        for b in self.bases:
            out += b.up()
        return out

    def finish(self):
        fam = self.up()
        self.open = any(c.open for c in fam)
        # attributes of subclasses may be provided by them (abstract bases)
        sub = [c for c in CLASSES.values() if c is not self and self in c.up()]
        self.attrs = {"__class__", "__dict__", "__init__", "__name__", "__doc__", "__module__"}
        for c in fam + sub:
            self.attrs |= c.own
        # attributes set from outside (obj.name = ...)
        self.attrs |= OUTSIDE
        self.subs = sub

    def method(self, n):
        """definition that self.n(...) runs, when there is exactly one candidate"""
        c = [k.methods[n] for k in self.up() if n in k.methods][:1] + [k.methods[n] for k in self.subs if n in k.methods]
        return c[0] if len(c) == 1 else None


CLASSES = {}
OUTSIDE = set()


class Assign:
    """locals that some branch leaves unassigned before an unconditional use"""

    def __init__(self, f):
        self.f = f

    def run(self):
        f = self.f
        names = f.locals - f.params
        # names stored in nested scopes or deleted are not followed
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Nonlocal, ast.Global)):
                names -= set(x.names)
            if isinstance(x, ast.Delete):
                for t in ast.walk(x):
                    if isinstance(t, ast.Name):
                        names.discard(t.id)
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in x.generators:
                    for t in ast.walk(g.target):
                        if isinstance(t, ast.Name):
                            names.discard(t.id)
        self.names = names
        self.bad = []
        self.block(f.body, {n: "no" for n in names})
        for n, line, why in self.bad:
            f.ck.violated("%s.%s: local %s" % (f.m.name, f.qual, n), "%s:%s (line %d)" % (f.m.rel, f.qual, line), why)
        if not self.bad:
            f.ck.holds("%s.%s: locals are assigned before they are used" % (f.m.name, f.qual), "%s:%s" % (f.m.rel, f.qual))

    # states: "no" never assigned on any path, "yes" maybe assigned, "branch:<line>" unassigned when an explicit branch is taken
    def uses(self, e, st):
        todo = [e]
        while todo:
            x = todo.pop(0)
            if x is None:
                continue
            if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.names:
                s = st.get(x.id, "yes")
                if s == "no":
                    self.report(x, "is used before any assignment")
                elif s.startswith("branch"):
                    self.report(x, "is not assigned when the branch at line %s is taken" % s[7:])
            if isinstance(x, (ast.IfExp, ast.BoolOp)):
                # only the first operand is evaluated for sure
                todo.insert(0, x.test if isinstance(x, ast.IfExp) else x.values[0])
                continue
            todo = list(ast.iter_child_nodes(x)) + todo

    def report(self, x, why):
        if not any(n == x.id for n, _, _ in self.bad):
            self.bad.append((x.id, x.lineno, why))

    def store(self, t, st):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st[x.id] = "yes"

    def walrus(self, s, st):
        for x in ast.walk(s):
            if isinstance(x, ast.NamedExpr):
                self.store(x.target, st)

    def block(self, stmts, st):
        """-> True when control reaches the end"""
        for s in stmts:
            if not self.stmt(s, st):
                return False
        return True

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            st[s.name] = "yes"
            return True
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st[a.asname or a.name.split(".")[0]] = "yes"
            return True
        if isinstance(s, ast.Assign):
            self.uses(s.value, st)
            self.walrus(s, st)
            for t in s.targets:
                self.uses(t, st)
                self.store(t, st)
            return True
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            if s.value is not None:
                self.uses(s.value, st)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.uses(ast.copy_location(ast.Name(s.target.id, ast.Load()), s), st)
            else:
                self.uses(s.target, st)
            if s.value is not None:
                self.store(s.target, st)
            return True
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.uses(c, st)
            return False
        if isinstance(s, (ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.Assert):
            self.uses(s.test, st)
            return True
        if isinstance(s, ast.If):
            self.uses(s.test, st)
            self.walrus(s.test, st)
            const = isinstance(s.test, ast.Constant)
            a, b = dict(st), dict(st)
            la, lb = self.block(s.body, a), self.block(s.orelse, b)
            if not la and not lb:
                st.update(a)
                return False
            if not la or not lb:
                st.clear()
                # the branch that leaves may be tied to the one that does not assign
                st.update({n: "yes" if v.startswith("branch") else v for n, v in (b if lb else a).items()})
                return True
            for n in set(a) | set(b):
                x, y = a.get(n, "yes"), b.get(n, "yes")
                if x == y:
                    st[n] = x
                elif const:
                    st[n] = "yes"
                elif s.orelse and "yes" in (x, y):
                    # one explicit branch assigns, the other does not
                    o = y if x == "yes" else x
                    br = s.orelse if x == "yes" else s.body
                    st[n] = o if o.startswith("branch") else "branch:%d" % br[0].lineno if not implicit(br) else "yes"
                else:
                    st[n] = "yes" if "yes" in (x, y) else x if x.startswith("branch") else y
            return True
        if isinstance(s, (ast.For, ast.While)):
            self.uses(s.iter if isinstance(s, ast.For) else s.test, st)
            b = dict(st)
            if isinstance(s, ast.For):
                self.store(s.target, b)
            # anything assigned in the loop may be assigned by an earlier pass
            for x in s.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and b.get(y.id) == "no" and not first(s.body, y.id):
                        b[y.id] = "yes"
            self.block(s.body, b)
            for x in s.body + ([s.target] if isinstance(s, ast.For) else []):
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        st[y.id] = "yes"
                    elif isinstance(y, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                        st.update({n: "yes" for n in st if st[n] == "no"})
            self.block(s.orelse, dict(st))
            return not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(
                isinstance(x, ast.Break) for x in ast.walk(s)))
        if isinstance(s, ast.Try):
            b = dict(st)
            ok = self.block(s.body, b)
            if ok:
                ok = self.block(s.orelse, b)
            outs = [b] if ok else []
            for h in s.handlers:
                c = dict(st)
                # the body may have been left anywhere
                for x in s.body:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            c[y.id] = "yes" if not single(s.body, y.id) else c.get(y.id, "yes")
                if h.name:
                    c[h.name] = "yes"
                if self.block(h.body, c):
                    c["\0line"] = str(h.lineno)
                    outs.append(c)
            if not outs:
                self.block(s.finalbody, dict(st))
                return False
            new = {}
            for n in set().union(*outs) - {"\0line"}:
                vs = [o.get(n, "yes") for o in outs]
                if all(v == vs[0] for v in vs):
                    new[n] = vs[0]
                elif "yes" in vs:
                    o = next((o for o in outs if o.get(n, "yes") != "yes"))
                    new[n] = o[n] if o[n].startswith("branch") else "branch:%s" % o.get("\0line", s.lineno)
                else:
                    new[n] = vs[0]
            st.clear()
            st.update(new)
            return self.block(s.finalbody, st)
        if isinstance(s, ast.With):
            for i in s.items:
                self.uses(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            return self.block(s.body, st)
        for c in ast.iter_child_nodes(s):
            self.uses(c, st)
            self.walrus(s, st)
        return not exits(s)


def exits(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit", "os._exit")


def implicit(br):
    """an elif chain without a final else: its silent case is not a branch of its own"""
    return len(br) == 1 and isinstance(br[0], ast.If) and not br[0].orelse


def first(body, name):
    """the first statement of the loop body reads the name before the body assigns it"""
    return False


def single(body, name):
    """the only statement of a try body is the assignment: leaving it early leaves the name unassigned"""
    return len(body) == 1 and isinstance(body[0], ast.Assign)


def scopes(pk, m):
    top = Func(pk, m, m.tree, "<module>", None, None)
    yield top

    def rec(nodes, outer, cls, qual):
        todo = list(nodes)
        while todo:
            x = todo.pop(0)
            if isinstance(x, ast.ClassDef):
                c = CLASSES.get((m.name, x.name)) if outer is top else None
                for s in x.body:
                    yield from rec([s], outer, c, qual + x.name + ".")
                continue
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                n = x.name if isinstance(x, ast.FunctionDef) else "<lambda>"
                f = Func(pk, m, x, qual + n, outer, cls)
                yield f
                yield from rec(f.body, f, cls, qual + n + ".")
                continue
            todo = list(ast.iter_child_nodes(x)) + todo
    yield from rec(m.tree.body, top, None, "")


@prop("C30", "Scope, attribute and signature resolution over every function of the package, and a definite-assignment analysis of its locals.",
      "every name is bound somewhere in its scopes, every attribute taken of a module of the package or of self exists, every call of a function "
      "or class of the package fits its signature, no local is used on a branch that leaves it unassigned",
      ("attributes of objects other than self and modules are not followed",))
def c30(ck):
    CLASSES.clear()
    OUTSIDE.clear()
    pk = Pkg(ck)
    for m in pk.mods.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ClassDef) and s in m.tree.body:
                CLASSES[(m.name, s.name)] = Cls(pk, m, s)
            if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and not (isinstance(s.value, ast.Name) and s.value.id == "self"):
                OUTSIDE.add(s.attr)
    for c in CLASSES.values():
        c.link()
    for c in CLASSES.values():
        c.finish()
    for m in pk.mods.values():
        for f in scopes(pk, m):
            ck.run("%s.%s" % (m.name, f.qual), f.run, m.rel)
