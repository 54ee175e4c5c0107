"""Whole-package name, attribute and call resolution over the resolved class hierarchy.

Only constructs that fail whenever they are executed are reported: a name bound in no enclosing
scope, a local no assignment of which can reach the read, an attribute no class of the receiver's
hierarchy ever sets, an import of something a module does not define, and a call whose arguments
the resolved callee cannot bind.
"""
import ast
import builtins
import os

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
OBJECT = set(dir(object)) | {"__dict__", "__module__", "__weakref__", "__annotations__"}

COPYING = ("__copy__", "__deepcopy__", "__getstate__", "__setstate__")


class Module:
    def __init__(self, name, file, tree):
        self.name, self.file, self.tree = name, file, tree
        self.names = {}          # name -> binding node / ("import", module, attr) / ("module", name) / None
        self.open = False        # star import from outside the package


class Class:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual
        self.bases, self.methods, self.attrs = [], {}, set()
        self.open = False        # external base or attributes under computed names
        self.dynamic = False     # attributes may be set under names held in strings
        self.subs = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def family(self):
        out = list(self.mro())
        todo = list(self.subs)
        while todo:
            s = todo.pop()
            for c in s.mro():
                if c not in out:
                    out.append(c)
            todo += s.subs
        return out

    def is_open(self):
        return any(c.open for c in self.family())

    def method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def has(self, name, p):
        if name in p.strings and (p.loose or any(c.dynamic for c in self.family())):
            return True
        return name in OBJECT or name in p.stored or any(name in c.attrs or name in c.methods for c in self.family())


class Package:
    def __init__(self, src, package, texts=None):
        self.src, self.package = src, package
        self.mods = {}
        for n, t in (texts or {}).items():
            self.mods[n] = Module(n, n + ".py", ast.parse(t))
        root = os.path.join(src or "", *package.split("."))
        for d, ds, fs in os.walk(root) if texts is None else ():
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    n = os.path.relpath(p, src)[:-3].replace(os.sep, ".")
                    if n.endswith(".__init__"):
                        n = n[:-9]
                    with open(p) as h:
                        self.mods[n] = Module(n, p, ast.parse(h.read(), p))
        for m in self.mods.values():
            self.bind_module(m)
        for _ in range(3):
            for m in self.mods.values():
                self.star(m)
        self.classes = {}
        for m in self.mods.values():
            for n, q in self.defs(m.tree, ""):
                if isinstance(n, ast.ClassDef):
                    self.classes[n] = Class(m, n, q)
        self.stored = set()
        self.loose = False       # some setattr on an unknown object under a computed name
        self.strings = set()     # string constants and keyword names dictionaries can be made of
        for m in self.mods.values():
            copying = {k for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef) and f.name in COPYING for k in ast.walk(f)}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                    self.stored.add(n.attr)
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    self.strings.add(n.value)
                if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == "dict" or isinstance(n.func, ast.Attribute) and n.func.attr == "update"):
                    self.strings |= {k.arg for k in n.keywords if k.arg}
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                    if isinstance(n.args[1], ast.Constant):
                        self.stored.add(n.args[1].value)
                    if isinstance(n.args[0], ast.Name) and n.args[0].id in ("self", "cls") or n in copying:
                        continue
                    self.loose = self.loose or not isinstance(n.args[1], ast.Constant)
        for c in self.classes.values():
            self.fill(c)
        for c in self.classes.values():
            for b in c.bases:
                b.subs.append(c)

    # ------------------------------------------------------------ scopes
    def defs(self, node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + n.name
                yield n, q
                yield from self.defs(n, q + ".")
            elif not isinstance(n, ast.expr):
                yield from self.defs(n, prefix)

    def bind_module(self, m):
        for n in self.scope_nodes(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = ("module", a.name)
                    else:
                        m.names.setdefault(a.name.split(".")[0], ("module", a.name.split(".")[0]))
            elif isinstance(n, ast.ImportFrom):
                base = self.absolute(m, n)
                for a in n.names:
                    if a.name == "*":
                        if base not in self.mods:
                            m.open = True
                    else:
                        m.names[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                m.names[n.name] = n if n.name not in m.names else None
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                m.names[n.id] = None
            elif isinstance(n, ast.ExceptHandler) and n.name:
                m.names[n.name] = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for g in n.names:
                    m.names.setdefault(g, None)

    def star(self, m):
        for n in self.scope_nodes(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                base = self.mods.get(self.absolute(m, n))
                if base is not None:
                    m.open |= base.open
                    for k in base.names:
                        if not k.startswith("_"):
                            m.names.setdefault(k, ("import", base.name, k))

    def absolute(self, m, n):
        if not n.level:
            return n.module or ""
        parts = m.name.split(".")
        if not m.file.endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def scope_nodes(self, node):
        """Nodes of a scope without the bodies of nested functions and classes."""
        todo = list(ast.iter_child_nodes(node)) if not isinstance(node, FUNCS) else []
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo = list(node.body)
        elif isinstance(node, ast.Lambda):
            todo = [node.body]
        elif isinstance(node, ast.ClassDef):
            todo = list(node.body)
        while todo:
            n = todo.pop(0)
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo += n.decorator_list + [x for x in n.args.defaults + n.args.kw_defaults if x is not None]
            elif isinstance(n, ast.ClassDef):
                todo += n.decorator_list + n.bases + [k.value for k in n.keywords]
            elif isinstance(n, ast.Lambda):
                todo += [x for x in n.args.defaults + n.args.kw_defaults if x is not None]
            else:
                todo += list(ast.iter_child_nodes(n))

    def resolve(self, m, name, depth=0):
        """Definition a module level name stands for: def/class node, Module, or None."""
        if depth > 8 or name not in m.names:
            return None
        b = m.names[name]
        if isinstance(b, ast.AST):
            return b
        if isinstance(b, tuple) and b[0] == "module":
            return self.mods.get(b[1])
        if isinstance(b, tuple):
            base = self.mods.get(b[1])
            if base is None:
                return None
            if b[2] in base.names:
                return self.resolve(base, b[2], depth + 1)
            return self.mods.get(b[1] + "." + b[2])
        return None

    def expr(self, m, e):
        """Definition a dotted expression stands for, module scope only."""
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.expr(m, e.value)
            if isinstance(b, Module):
                if e.attr in b.names:
                    return self.resolve(b, e.attr)
                return self.mods.get(b.name + "." + e.attr)
        return None

    def fill(self, c):
        for b in c.node.bases:
            d = self.expr(c.mod, b)
            if isinstance(d, ast.ClassDef) and d in self.classes:
                c.bases.append(self.classes[d])
            elif isinstance(b, ast.Name) and b.id in ("ABC", "object") or isinstance(b, ast.Attribute) and b.attr == "ABC":
                pass
            else:
                c.open = True
        if c.node.keywords and any(k.arg != "metaclass" for k in c.node.keywords) or c.node.decorator_list:
            c.open = True
        for n in self.scope_nodes(c.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[n.name] = n
                if n.name in ("__getattr__", "__getattribute__"):
                    c.open = True
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id != "__slots__":
                c.attrs.add(n.id)
            elif isinstance(n, ast.ClassDef):
                c.attrs.add(n.name)
        copying = {k for m in c.methods.values() if m.name in COPYING for k in ast.walk(m)}
        for k in ast.walk(c.node):
            if k in copying:
                continue
            if isinstance(k, ast.Attribute) and isinstance(k.ctx, (ast.Store, ast.Del)) and isinstance(k.value, ast.Name) and k.value.id in ("self", "cls"):
                c.attrs.add(k.attr)
            if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == "setattr":
                if len(k.args) == 3 and isinstance(k.args[1], (ast.Name, ast.Constant)):
                    c.dynamic = True
                else:
                    c.open = True
            if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == "vars":
                c.dynamic = True
            if isinstance(k, ast.Attribute) and k.attr in ("__dict__", "__setattr__"):
                c.dynamic = True


# ---------------------------------------------------------------- per function rules


def bindings(fn):
    """Names local to a function."""
    out = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    for a in (fn.args.vararg, fn.args.kwarg):
        if a:
            out.add(a.arg)
    params = set(out)
    outer = set()
    todo = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            todo += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        todo += list(ast.iter_child_nodes(n))
    return out - outer, params


def catches(h, names=("NameError", "UnboundLocalError", "AttributeError", "Exception", "BaseException")):
    """Whether an except clause handles the failure of a lookup."""
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(t is None or isinstance(t, ast.Name) and t.id in names for t in ts)


class Flow:
    """Names some assignment of which may reach each program point (no entry: unreachable)."""

    def __init__(self, fn, local, report):
        self.local, self.report = local, report
        self.loops = []
        self.dead = set()        # nodes never executed

    def reads(self, e, st):
        if e is None:
            return
        todo = [(e, frozenset())]
        while todo:
            n, shadow = todo.pop()
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in self.local and n.id not in shadow and n.id not in st:
                    self.report(n)
            if isinstance(n, FUNCS):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                bound = {w.id for g in n.generators for w in ast.walk(g.target) if isinstance(w, ast.Name)}
                todo.append((n.generators[0].iter, shadow))
                inner = shadow | bound
                for i, g in enumerate(n.generators):
                    if i:
                        todo.append((g.iter, inner))
                    todo += [(x, inner) for x in g.ifs]
                todo += [(x, inner) for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt])]
                continue
            todo += [(c, shadow) for c in ast.iter_child_nodes(n)]

    def walrus(self, e, st):
        if e is not None:
            for n in ast.walk(e):
                if isinstance(n, ast.NamedExpr):
                    st = st | {n.target.id}
        return st

    def expr(self, e, st):
        pre = self.walrus(e, st)
        self.reads(e, pre)
        return pre

    def targets(self, t, st):
        new = set()
        todo = [t]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Name):
                new.add(n.id)
            elif isinstance(n, (ast.Tuple, ast.List)):
                todo += n.elts
            elif isinstance(n, ast.Starred):
                todo.append(n.value)
            else:
                self.reads(n, st)
        return st | new

    def block(self, body, st):
        for i, s in enumerate(body):
            if st is None:
                for x in body[i:]:
                    self.dead |= set(ast.walk(x))
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        return frozenset().union(*sts) if sts else None

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.targets(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local and s.target.id not in st:
                    self.report(s.target)
                return st | {s.target.id}
            self.reads(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            st = self.expr(s.value, st)
            return self.targets(s.target, st)
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.expr(e, st)
            return None
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1].append(st)
            return None
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            k = s.test.value if isinstance(s.test, ast.Constant) else None
            a = None if k is not None and not k else self.block(s.body, st)
            b = None if k is not None and k else self.block(s.orelse, st)
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                st = self.expr(s.test, st)
                start = st
            else:
                st = self.expr(s.iter, st)
                start = st
            quiet, self.report = self.report, lambda n: None
            cur = start
            for k in range(3):
                self.loops.append(([], []))
                inner = cur if isinstance(s, ast.While) else self.targets(s.target, cur)
                if k == 2:
                    self.report = quiet
                end = self.block(s.body, inner)
                brk, cont = self.loops.pop()
                cur = self.join(start, end, *cont)
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            out = None if forever else self.block(s.orelse, cur)
            return self.join(out, *brk)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            loud = self.report
            if any(catches(h) for h in s.handlers):
                self.report = lambda n: None
            a = self.block(s.body, st)
            self.report = loud
            every = self.join(st, a, self.assigned(s.body, st))
            if a is not None:
                a = self.block(s.orelse, a)
            hs = []
            for h in s.handlers:
                self.expr(h.type, every)
                hs.append(self.block(h.body, every | ({h.name} if h.name else set())))
            out = self.join(a, *hs)
            if s.finalbody:
                f = self.block(s.finalbody, self.join(every, out))
                if out is not None:
                    out = None if f is None else self.join(out, f)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.targets(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for e in s.decorator_list + [x for x in s.args.defaults + s.args.kw_defaults if x is not None]:
                self.expr(e, st)
            return st | {s.name}
        if isinstance(s, ast.ClassDef):
            for e in s.decorator_list + s.bases:
                self.expr(e, st)
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name).split(".")[0] for a in s.names}
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.local and t.id not in st:
                        self.report(t)
                    st = st - {t.id}
                else:
                    self.reads(t, st)
            return st
        if isinstance(s, ast.Match):
            st = self.expr(s.subject, st)
            outs = [st]
            for c in s.cases:
                names = {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
                outs.append(self.block(c.body, st | names))
            return self.join(*outs)
        if isinstance(s, ast.Assert):
            return self.expr(s.test, st)
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                st = self.expr(e, st)
        return st

    def assigned(self, body, st):
        out = set(st)
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
        return frozenset(out)


class Result:
    def __init__(self):
        self.checked = {}        # (file, function, rule) -> constructs examined
        self.problems = []       # (file, function, line, rule, name, text)


def run(src, package="hypervehicle", texts=None):
    p = Package(src, package, texts)
    res = Result()
    for m in p.mods.values():
        Scan(p, m, res).module()
    return p, res


class Scan:
    def __init__(self, p, m, res):
        self.p, self.m, self.res = p, m, res

    def bad(self, fn, node, rule, name, text):
        self.res.problems.append((self.m.file, fn, node.lineno, rule, name, text))

    def count(self, fn, rule, k=1):
        key = (self.m.file, fn, rule)
        self.res.checked[key] = self.res.checked.get(key, 0) + k

    def module(self):
        m = self.m
        fl = Flow(None, set(), lambda n: None)
        fl.block(m.tree.body, frozenset())
        self.scope(m.tree, "<module>", [], None, fl.dead)

    def scope(self, node, qual, outer, cls, dead):
        """node: module, class or function; outer: enclosing function scopes (sets of names)."""
        if isinstance(node, FUNCS):
            local, params = bindings(node)
            seen = []
            if not isinstance(node, ast.Lambda):
                fl = Flow(node, local, seen.append)
                fl.block(node.body, frozenset(params))
                dead = dead | fl.dead
            self.count(qual, "locals", len(local))
            for n in {x.lineno * 100000 + x.col_offset: x for x in seen}.values():
                if n not in dead:
                    self.bad(qual, n, "locals", n.id, "local %s is read where no assignment can have reached" % n.id)
            if isinstance(node, ast.FunctionDef):
                unset, k = options(node)
                self.count(qual, "options", k)
                for n, how in unset:
                    self.bad(qual, n, "options", n.id, "local %s is unset when %s" % (n.id, " and ".join(sorted(
                        "%s is %s%s" % (a, "" if pol else "not ", form) for a, form, pol in how)) or "called"))
            chain = outer + [local]
            first = node.args.args[0].arg if cls is not None and node.args.args and not any(
                isinstance(x, ast.Name) and x.id in ("staticmethod", "classmethod") for x in getattr(node, "decorator_list", [])) else None
        else:
            chain, first, local = outer, None, set()
        self.names(node, qual, chain, dead, local if isinstance(node, ast.ClassDef) else None)
        if first:
            self.attributes(node, qual, cls, first, dead)
        self.known = self.instances(node, chain) if isinstance(node, FUNCS) else {}
        for v, c in self.known.items():
            self.attributes(node, qual, c, v, dead, False)
        self.calls(node, qual, chain, cls, first, dead)
        self.imports(node, qual, dead)
        for n in self.p.scope_nodes(node):
            if n in dead:
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = (qual + "." if qual != "<module>" else "") + n.name
                self.scope(n, q, chain, self.p.classes.get(node) if isinstance(node, ast.ClassDef) else None, dead)
            elif isinstance(n, ast.Lambda):
                self.scope(n, qual + ".<lambda>", chain, None, dead)
            elif isinstance(n, ast.ClassDef):
                q = (qual + "." if qual != "<module>" else "") + n.name
                self.scope(n, q, chain, None, dead)

    def live(self, node, dead):
        for n in self.p.scope_nodes(node):
            if n not in dead:
                yield n

    def names(self, node, qual, chain, dead, _):
        m = self.m
        if m.open:
            return
        own = set()
        if isinstance(node, ast.ClassDef):
            own = {n.id for n in self.p.scope_nodes(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
                  {n.name for n in self.p.scope_nodes(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        comp = set()
        for n in self.p.scope_nodes(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                comp |= {w.id for g in n.generators for w in ast.walk(g.target) if isinstance(w, ast.Name)}
        ann = {w for n in self.p.scope_nodes(node) if isinstance(n, ast.Try) and any(catches(h) for h in n.handlers) for b in n.body for w in ast.walk(b)}
        for n in self.p.scope_nodes(node):
            for k in ("annotation", "returns"):
                a = getattr(n, k, None)
                if a is not None:
                    ann |= set(ast.walk(a))
        for n in self.live(node, dead):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n not in ann:
                self.count(qual, "names")
                if n.id in own or n.id in comp or any(n.id in c for c in chain) or n.id in m.names or n.id in BUILTINS:
                    continue
                self.bad(qual, n, "names", n.id, "name %s is defined nowhere" % n.id)

    def instances(self, node, chain):
        """Locals every assignment of which constructs the same class of the package."""
        out, bad = {}, set()
        if isinstance(node, ast.Lambda):
            return out
        for n in self.p.scope_nodes(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                f = n.value.func
                base = f
                while isinstance(base, ast.Attribute):
                    base = base.value
                d = None
                if isinstance(base, ast.Name) and not any(base.id in c for c in chain):
                    d = self.p.classes.get(self.p.expr(self.m, f)) if isinstance(self.p.expr(self.m, f), ast.ClassDef) else None
                v = n.targets[0].id
                if d is None or d.method("__new__") is not None or out.get(v, d) is not d:
                    bad.add(v)
                else:
                    out[v] = d
        made = {id(n.targets[0]) for n in self.p.scope_nodes(node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.Call)}
        params = bindings(node)[1]
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in made:
                bad.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                bad |= set(n.names)
            if isinstance(n, ast.arg):
                bad.add(n.arg)
        return {v: c for v, c in out.items() if v not in bad and v not in params and not c.is_open()}

    def attributes(self, node, qual, cls, me, dead, own=True):
        if cls.is_open():
            return
        rebound = own and [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store)]
        if rebound:
            return
        safe = self.guarded(node, me)
        for n in ast.walk(node):
            if n in dead or not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                continue
            if isinstance(n.value, ast.Name) and n.value.id == me:
                self.count(qual, "attributes")
                if n.attr in safe or cls.has(n.attr, self.p):
                    continue
                self.bad(qual, n, "attributes", n.attr, "attribute %s is never set on a %s" % (n.attr, cls.node.name))

    def guarded(self, node, me):
        """Attributes asked for by hasattr, or read inside a try handling AttributeError."""
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
            if isinstance(n, ast.Try) and n.handlers:
                for s in n.body:
                    out |= {w.attr for w in ast.walk(s) if isinstance(w, ast.Attribute)}
        return out

    def imports(self, node, qual, dead):
        tried = set()
        for n in self.p.scope_nodes(node):
            if isinstance(n, ast.Try) and n.handlers:
                for s in n.body:
                    tried |= set(ast.walk(s))
        for n in self.live(node, dead):
            if n in tried:
                continue
            if isinstance(n, ast.ImportFrom):
                base = self.p.absolute(self.m, n)
                if base.split(".")[0] != self.p.package.split(".")[0]:
                    continue
                for a in n.names:
                    self.count(qual, "imports")
                    mod = self.p.mods.get(base)
                    if mod is None:
                        self.bad(qual, n, "imports", base, "module %s does not exist" % base)
                    elif a.name != "*" and a.name not in mod.names and base + "." + a.name not in self.p.mods and not mod.open and a.name not in BUILTINS:
                        self.bad(qual, n, "imports", a.name, "module %s does not define %s" % (base, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == self.p.package.split(".")[0]:
                        self.count(qual, "imports")
                        if a.name not in self.p.mods:
                            self.bad(qual, n, "imports", a.name, "module %s does not exist" % a.name)
        shadow = None
        for n in self.live(node, dead):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                if shadow is None:
                    shadow = bindings(node)[0] if isinstance(node, FUNCS) else set()
                if n.value.id in shadow:
                    continue
                d = self.p.resolve(self.m, n.value.id)
                if isinstance(d, Module):
                    self.count(qual, "attributes")
                    if n.attr not in d.names and d.name + "." + n.attr not in self.p.mods and not d.open and n.attr not in BUILTINS and n.attr not in self.p.stored:
                        self.bad(qual, n, "attributes", n.attr, "module %s does not define %s" % (d.name, n.attr))

    # ------------------------------------------------------------ calls
    def calls(self, node, qual, chain, cls, me, dead):
        for n in self.live(node, dead):
            if not isinstance(n, ast.Call):
                continue
            f, skip, what = self.callee(n, chain, cls, me)
            if f is None:
                continue
            self.count(qual, "calls")
            err = mismatch(f, n, skip)
            if err:
                self.bad(qual, n, "calls", what, "call of %s: %s" % (what, err))

    def callee(self, n, chain, cls, me):
        """(function node, number of implicit arguments, name)"""
        f = n.func
        p = self.p
        if isinstance(f, ast.Name):
            if any(f.id in c for c in chain):
                return None, 0, ""
            return self.target(p.resolve(self.m, f.id), f.id)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and me and f.value.id == me and cls is not None:
                k = cls.method(f.attr)
                if k is None or f.attr in self.p.stored or any(f.attr in c.attrs for c in cls.family()) or cls.is_open():
                    return None, 0, ""
                return self.bound(k, f.attr)
            if isinstance(f.value, ast.Name) and f.value.id in self.known:
                k = self.known[f.value.id].method(f.attr)
                if k is None or f.attr in self.p.stored or any(f.attr in c.attrs for c in self.known[f.value.id].family()):
                    return None, 0, ""
                return self.bound(k, f.attr)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and cls is not None and not f.value.args and not cls.is_open():
                for c in cls.mro()[1:]:
                    if f.attr in c.methods:
                        return self.bound(c.methods[f.attr], f.attr)
                return None, 0, ""
            base = f.value
            while isinstance(base, ast.Attribute):
                base = base.value
            if isinstance(base, ast.Name) and not any(base.id in c for c in chain):
                return self.target(p.expr(self.m, f), ast.unparse(f))
        return None, 0, ""

    def bound(self, k, name):
        ds = [x.id if isinstance(x, ast.Name) else getattr(x, "attr", "") for x in k.decorator_list]
        if "staticmethod" in ds:
            return k, 0, name
        if any(x not in ("classmethod", "abstractmethod") for x in ds):
            return None, 0, ""
        return k, 1, name

    def target(self, d, name):
        if isinstance(d, (ast.FunctionDef,)):
            if d.decorator_list:
                return None, 0, ""
            return d, 0, name
        if isinstance(d, ast.ClassDef) and d in self.p.classes:
            c = self.p.classes[d]
            if any(x.open for x in c.mro()) and c.method("__init__") is None or c.method("__new__") is not None or c.node.decorator_list:
                return None, 0, ""
            i = c.method("__init__")
            if i is None:
                return None, 0, ""
            return self.bound(i, name)
        return None, 0, ""


def mismatch(f, call, skip):
    """Why the arguments of a call cannot be bound to the parameters of f, or None."""
    a = f.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    n = len(call.args)
    if n > len(pos) and a.vararg is None:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    given = set(pos[:n])
    only = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return "argument %s given twice" % k.arg
        if (k.arg not in pos or k.arg in only) and k.arg not in kwonly and a.kwarg is None:
            return "unknown argument %s" % k.arg
        given.add(k.arg)
    nd = len(a.defaults)
    req = [x.arg for x in a.posonlyargs + a.args]
    req = (req[:len(req) - nd] if nd else req)[skip:]
    req += [x for x, dflt in zip(kwonly, a.kw_defaults) if dflt is None]
    miss = [x for x in req if x not in given]
    if miss:
        return "missing argument %s" % ", ".join(miss)
    return None


# ---------------------------------------------------------------- options leaving a local unset


def atom(e, params, changed):
    """(parameter, form, polarity) of a test on an option nobody reassigns, or None."""
    pol = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, pol = e.operand, not pol
    if isinstance(e, ast.Name) and e.id in params and e.id not in changed:
        return e.id, "true", pol
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and e.left.id in params and e.left.id not in changed \
            and isinstance(e.comparators[0], ast.Constant):
        op = e.ops[0]
        if isinstance(op, (ast.Is, ast.Eq)):
            return e.left.id, repr(e.comparators[0].value), pol
        if isinstance(op, (ast.IsNot, ast.NotEq)):
            return e.left.id, repr(e.comparators[0].value), not pol
    return None


class Options(Flow):
    """Local -> choices of options under which it is certainly still unset."""

    def __init__(self, fn, local, params, report):
        super().__init__(fn, local, report)
        self.params = params
        self.changed = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        self.vars = sorted(local - params)
        # options something may refuse are left alone
        for n in ast.walk(fn):
            if isinstance(n, ast.If) and any(isinstance(w, ast.Raise) for b in n.body + n.orelse for w in ast.walk(b)) and atom(n.test, params, ()) is None:
                self.changed |= {w.id for w in ast.walk(n.test) if isinstance(w, ast.Name)}
            elif isinstance(n, ast.Assert):
                self.changed |= {w.id for w in ast.walk(n.test) if isinstance(w, ast.Name)}
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                self.changed |= {w.id for a in n.value.args + [k.value for k in n.value.keywords] for w in ast.walk(a) if isinstance(w, ast.Name)}

    def start(self):
        return {v: frozenset([frozenset()]) for v in self.vars}

    @staticmethod
    def join(*sts):
        """Branches whose choice depends on values: unset only if unset on every one of them."""
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = {}
        for v in sts[0]:
            if all(v in s for s in sts):
                ks = {a | b for a in sts[0][v] for b in sts[0][v] if a == b}
                for s in sts[1:]:
                    ks = {c for a in ks for b in s[v] for c in [meet(a, b)] if c is not None}
                if ks and len(ks) <= 32:
                    out[v] = frozenset(ks)
        return out

    def reads(self, e, st):
        if e is None:
            return
        cond = set()
        for n in ast.walk(e):
            if isinstance(n, (ast.BoolOp, ast.IfExp, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp) + FUNCS):
                cond |= set(ast.walk(n)) - {n}
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in st and n not in cond:
                self.report(n, st[n.id])

    def walrus(self, e, st):
        if e is not None:
            for n in ast.walk(e):
                if isinstance(n, ast.NamedExpr):
                    st = {k: v for k, v in st.items() if k != n.target.id}
        return st

    def kill(self, st, names):
        return {k: v for k, v in st.items() if k not in names}

    def targets(self, t, st):
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if not isinstance(t, (ast.Name, ast.Tuple, ast.List)):
            self.reads(t, st)
        return self.kill(st, names)

    def stmt(self, s, st):
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                names |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            a = atom(s.test, self.params, self.changed)
            if a is None:
                return self.join(self.block(s.body, dict(st)), self.block(s.orelse, dict(st)))
            p, form, pol = a
            yes, no = choose(st, (p, form, pol)), choose(st, (p, form, not pol))
            b, o = self.block(s.body, yes), self.block(s.orelse, no)
            if b is None or o is None:
                return o if b is None else b
            out = {}
            for v in set(b) | set(o):
                ks = b.get(v, frozenset()) | o.get(v, frozenset())
                # a choice unset on both sides needs no decision here
                free = {k - {(p, form, True), (p, form, False)} for k in ks}
                ks = {k for k in free if all(any(meet(k, x) == x for x in side.get(v, ())) for side in (b, o))} | set(ks)
                if len(ks) <= 32:
                    out[v] = frozenset(ks)
            return out
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return, ast.Raise)):
            return super_simple(self, s, st)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.targets(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.reads(s.iter if not isinstance(s, ast.While) else s.test, st)
            return self.kill(st, names)
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        return self.kill(st, names)


def super_simple(flow, s, st):
    if isinstance(s, ast.Assign):
        st = flow.expr(s.value, st)
        for t in s.targets:
            st = flow.targets(t, st)
        return st
    if isinstance(s, ast.AnnAssign) and s.value is None:
        return st
    if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        st = flow.expr(s.value, st)
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in st:
            flow.report(s.target, st[s.target.id])
        return flow.targets(s.target, st)
    for e in ast.iter_child_nodes(s):
        st = flow.expr(e, st)
    return None if isinstance(s, (ast.Return, ast.Raise)) else st


def meet(a, b):
    """Union of two sets of choices, None if they may contradict each other."""
    out = a | b
    seen = {}
    for p, form, pol in out:
        if seen.setdefault(p, (form, pol)) != (form, pol):
            return None
    return out


def choose(st, c):
    out = {}
    for v, ks in st.items():
        new = {m for k in ks for m in [meet(k, frozenset([c]))] if m is not None}
        if new:
            out[v] = frozenset(new)
    return out


def options(fn):
    """Reads of locals left unset by some choice of options: [(node, choices)], number of locals followed."""
    local, params = bindings(fn)
    out = {}

    def report(n, ks):
        out.setdefault(n, min(ks, key=lambda k: sorted(map(str, k))))
    nested = {w for f in ast.walk(fn) if isinstance(f, FUNCS) and f is not fn for w in ast.walk(f)}
    fl = Options(fn, local, params, report)
    fl.block(fn.body, fl.start())
    return [(n, k) for n, k in out.items() if n not in nested and n not in fl.dead], len(fl.vars)


# ---------------------------------------------------------------- self test

EXAMPLE = {
    "demo": "from .part import Thing, helper\n"
            "from .part import missing\n"
            "import math\n"
            "def names(a):\n    return a + nowhere\n"
            "def unset(a):\n    b = c\n    c = a\n    return b\n"
            "def choice(a, loud=False):\n    if loud:\n        text = 1\n    return text\n"
            "def badcall(a):\n    return helper(a, a, a) + helper() + helper(a, third=1)\n"
            "def local(a):\n    t = Thing(1)\n    return t.size + t.weight + t.grow(1, 2, 3)\n"
            "def fine(a, loud=False):\n    if loud:\n        t = Thing(a)\n    if loud:\n        t.grow(2)\n    return [math.sin(x) for x in a if helper(x, k=2)]\n"
            "def late():\n    raise NotImplementedError('no')\n    return gone\n",
    "demo.part": "class Base:\n    def __init__(self, size):\n        self.size = size\n"
                 "class Thing(Base):\n    def grow(self, n=1):\n        self.size += n\n        return self.shape\n"
                 "    def again(self):\n        return self.grow(n=2)\n"
                 "def helper(a, k=1):\n    return a + k\n",
}
EXPECTED = {("demo", "names", "names", "nowhere"), ("demo", "unset", "locals", "c"), ("demo", "choice", "options", "text"),
            ("demo", "badcall", "calls", "helper"), ("demo", "local", "attributes", "weight"), ("demo", "local", "calls", "grow"),
            ("demo", "<module>", "imports", "missing"), ("demo.part", "Thing.grow", "attributes", "shape"), ("demo", "unset", "options", "c")}


def self_test():
    """Each rule reports its example and nothing else."""
    mods = dict(EXAMPLE)
    mods["demo"] = mods["demo"].replace("from .part", "from demo.part")
    res = run(None, "demo", mods)[1]
    got = {(f[:-3], fn, rule, name) for f, fn, _, rule, name, _ in res.problems}
    return got == EXPECTED, got ^ EXPECTED
