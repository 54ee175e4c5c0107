"""Abstract interpreter over Python source.

Every statement is interpreted once over an abstract state (gated value numbering): at a branch
whose condition is not a compile-time constant both arms are interpreted and their states are
joined with gated (ite) values; loops over sequences of unknown length are summarised by one
generic iteration (loop-carried values are solved to closed forms, appended elements become
mapped segments).  No path is ever enumerated and no code of /repo is executed.
"""
import ast
import os

from . import terms as tm
from .terms import Term, K, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, isk, kval, T, unk, eq, not_, and_, or_, ite, lt, le
from .values import *

SRC = "/repo/src"
MAXDEPTH = 70


class Unreach(Exception):
    """The current abstract state is unreachable."""


class Broken(Exception):
    """The analysis cannot be carried out (vanished anchor, unsupported construct)."""


class State:
    __slots__ = ("heap", "pc", "fam", "thawed", "dirty", "famdirty")

    def __init__(self):
        self.heap, self.pc, self.fam, self.thawed, self.dirty, self.famdirty = {}, (), {}, {}, set(), set()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.fam = dict(self.fam)
        s.thawed = dict(self.thawed)
        s.dirty = set()
        s.famdirty = set()
        return s


class Event:
    __slots__ = ("kind", "data", "pc", "loops", "where")

    def __init__(self, kind, data, pc, loops, where):
        self.kind, self.data, self.pc, self.loops, self.where = kind, data, pc, loops, where

    def __repr__(self):
        return "Event(%s, %r, pc=%r, loops=%r, %s)" % (self.kind, self.data, self.pc, self.loops, self.where)


class Frame:
    __slots__ = ("env", "mod", "fn", "ret", "yields", "locals", "globals_", "node")

    def __init__(self, env, mod, fn, locals_=frozenset(), globals_=frozenset()):
        self.env, self.mod, self.fn, self.locals, self.globals_ = env, mod, fn, locals_, globals_
        self.ret = []
        self.yields = None
        self.node = None


def plain_terms(o):
    """A short sequence of plain values."""
    return len(o.segs) <= 16 and all(x[0] == "i" and x[2] is None and isinstance(x[1], Term) for x in o.segs)


class LoopCtx:
    __slots__ = ("brk", "cont")

    def __init__(self):
        self.brk, self.cont = [], []


_LOCALS = {}


def local_names(fn):
    """Names bound in a function body (without nested scopes), and its global/nonlocal names."""
    r = _LOCALS.get(id(fn))
    if r is not None and r[2] is fn:
        return r[0], r[1]
    names, glob = set(), set()
    body = fn.body if isinstance(fn.body, list) else []

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign,)):
            tgt(n.target)
        elif isinstance(n, ast.AnnAssign):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            tgt(n.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in body:
        visit(s)
    names -= glob
    a = getattr(fn, "args", None)
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            names.add(x.arg)
    _LOCALS[id(fn)] = (frozenset(names), frozenset(glob), fn)
    return _LOCALS[id(fn)][:2]


_HASYIELD = {}


def has_yield(fn):
    if id(fn) in _HASYIELD:
        return _HASYIELD[id(fn)]

    def v(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            return False
        return any(v(c) for c in ast.iter_child_nodes(n))

    r = any(v(s) for s in fn.body) if isinstance(fn.body, list) else False
    _HASYIELD[id(fn)] = r
    return r


EXC_BASES = {
    "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "ModuleNotFoundError": "ImportError",
    "ImportError": "Exception", "OSError": "Exception", "FileNotFoundError": "OSError", "StopIteration": "Exception",
    "AssertionError": "Exception", "OverflowError": "ArithmeticError", "FileExistsError": "OSError",
    "PermissionError": "OSError", "IOError": "Exception", "Warning": "Exception", "UserWarning": "Warning",
    "DeprecationWarning": "Warning", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "RecursionError": "RuntimeError", "MemoryError": "Exception", "UnicodeError": "ValueError",
}


def exc_isa(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_BASES.get(name)
    return False


class Interp:
    def __init__(self, src=SRC):
        self.src = src
        self.st = State()
        self.next_id = 1
        self.readonly = set()
        self.mods = {}
        self.frames = []
        self.loops = []          # break/continue contexts
        self.loopvars = []       # enclosing generic loops: (var, n)
        self.raises = []         # raised states pending in the current try/call context
        self.events = []
        self.functions = {}      # functions interpreted: qual -> count
        self.callsites = set()
        self.externals = {}      # unmodelled external calls
        self.unsupported = {}
        self.captured = set()
        self.depth = 0
        self.where = None
        self.nloops = 0
        self.nbranches = 0
        self.hooks = {}          # path -> python model override
        self.noexc = 0
        from . import models
        self.models = models
        self.stubs = {}
        self.fsknown = []        # paths known to exist
        self.xmlfiles = []       # (path, root element)
        self.csvfiles = []       # (path, table)

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        i = self.next_id
        self.next_id += 1
        self.st.heap[i] = obj
        self.st.dirty.add(i)
        return Ref(i)

    def obj(self, ref):
        return self.st.heap[ref.id]

    def put(self, ref, obj):
        self.st.heap[ref.id] = obj
        self.st.dirty.add(ref.id)

    def new_list(self, vals, kind="list"):
        return self.alloc(LList([("i", v, None) for v in vals], kind))

    def new_dict(self, pairs=()):
        return self.alloc(DDict([("e", k, v, None) for k, v in pairs]))

    def norm(self, v):
        """Resolve gated values decided by the path condition; thaw family members."""
        while isinstance(v, IteV):
            d = self.decide(v.c)
            if d is None:
                return v
            v = v.a if d else v.b
        if isinstance(v, FamRef):
            return self.thaw(v)
        if isinstance(v, Fn) and isinstance(v.env, FamRef):
            return v.copy(env=self.thaw(v.env))
        if isinstance(v, Bound):
            s = self.norm(v.self_)
            f = self.norm(v.fn)
            if s is not v.self_ or f is not v.fn:
                return Bound(f, s)
        if isinstance(v, Term) and v.op == "ite":
            d = self.decide(v.args[0])
            if d is not None:
                return self.norm(v.args[1] if d else v.args[2])
        return v

    def thaw(self, fr):
        key = (fr.tid, fr.idx)
        i = self.st.thawed.get(key)
        if i is not None and i in self.st.heap:
            return Ref(i)
        fam = self.st.fam[fr.tid]
        o = subst_obj(fam.obj, dict(zip(fam.params, fr.idx)))
        r = self.alloc(o)
        self.st.thawed[key] = r.id
        return r

    # ------------------------------------------------------------------ events, raising
    def event(self, kind, **data):
        self.events.append(Event(kind, data, self.st.pc if self.st else (), tuple(self.loopvars), self.where))

    def do_raise(self, exc):
        if isinstance(exc, ExcV) and exc.where is None:
            exc = ExcV(exc.cls, exc.args, self.where)
        self.raises.append((self.st, exc))
        self.event("raise", exc=exc)
        self.st = None
        raise Unreach()

    def exc(self, name, *args):
        return ExcV(name, args, self.where)

    def may_raise(self, cond, exc):
        d = self.decide(cond)
        if d is False:
            return
        if d is True:
            self.do_raise(exc)
        s = self.st.copy()
        s.pc = self.st.pc + (cond,)
        s.dirty = set(self.st.dirty)
        self.raises.append((s, exc))
        self.events.append(Event("raise", {"exc": exc}, s.pc, tuple(self.loopvars), self.where))
        self.st.pc = self.st.pc + (not_(cond),)

    def decide(self, c):
        if isk(c):
            return bool(kval(c))
        return tm.entails(self.st.pc, c)

    # ------------------------------------------------------------------ joins
    def branch(self, cond, then_fn, else_fn):
        d = self.decide(cond)
        if d is True:
            return then_fn()
        if d is False:
            return else_fn()
        self.nbranches += 1
        s0 = self.st
        base = s0.pc
        mark = self.next_id
        res = []
        for c, f in ((cond, then_fn), (not_(cond), else_fn)):
            s = s0.copy()
            s.pc = base + (c,)
            self.st = s
            try:
                v = f()
                if self.st is not None:
                    res.append((self.st, v))
            except Unreach:
                pass
        if not res:
            self.st = None
            raise Unreach()
        if len(res) == 1:
            s, v = res[0]
            s.dirty |= s0.dirty
            s.famdirty |= s0.famdirty
            self.st = s
            return v
        s, v = self.merge(base, res)
        if isinstance(v, IteV):
            v = self.join_fresh(s, s0, v, mark)
        s.dirty |= s0.dirty
        s.famdirty |= s0.famdirty
        self.st = s
        return v

    def join_fresh(self, s, s0, v, mark):
        """One object for two that were both made inside the branch, hold plain values only and are referenced by the result alone."""
        a, b = v.a, v.b
        if not (isinstance(a, Ref) and isinstance(b, Ref) and a.id >= mark and b.id >= mark and a.id != b.id):
            return v
        x, y = s.heap[a.id], s.heap[b.id]
        if not (isinstance(x, Inst) and isinstance(y, Inst) and x.cls is y.cls and isinstance(x.cls, ClassV) and list(x.f) == list(y.f)):
            return v
        arrays = {}
        for k in x.f:
            p, q = x.f[k], y.f[k]
            if isinstance(p, Term) and isinstance(q, Term):
                continue
            if not (isinstance(p, Ref) and isinstance(q, Ref) and p.id >= mark and q.id >= mark):
                return v
            p, q = s.heap[p.id], s.heap[q.id]
            if not (isinstance(p, LList) and isinstance(q, LList) and p.kind == q.kind and len(p.segs) == len(q.segs) and plain_terms(p) and plain_terms(q)):
                return v
            arrays[k] = self.merge_obj(v.c, p, q)
        if s.famdirty or any(i < mark and s.heap.get(i) is not s0.heap.get(i) for i in s.dirty):
            return v
        i = self.next_id
        self.next_id += 1
        s.heap[i] = self.merge_obj(v.c, x, y)
        s.dirty.add(i)
        for k, o in arrays.items():
            j = self.next_id
            self.next_id += 1
            s.heap[j] = o
            s.dirty.add(j)
            s.heap[i] = s.heap[i].with_(k, Ref(j))
        return Ref(i)

    def merge(self, base, pairs):
        """Join [(state, value)] all derived from a state with path condition base."""
        s, v = pairs[-1]
        for s1, v1 in reversed(pairs[:-1]):
            s, v = self.merge2(base, s1, v1, s, v)
        return s, v

    def merge2(self, base, s1, v1, s2, v2):
        n = len(base)
        c1, c2 = and_(*s1.pc[n:]), and_(*s2.pc[n:])
        c = c1
        if isk(c1):
            c = not_(c2)
        out = State()
        out.heap = s2.heap
        h1, h2 = s1.heap, s2.heap
        heap = dict(h2)
        for i in s1.dirty | s2.dirty:
            a, b = h1.get(i), h2.get(i)
            if a is b or a is None:
                continue
            heap[i] = a if b is None else self.merge_obj(c, a, b)
        out.heap = heap
        out.dirty = s1.dirty | s2.dirty
        fam = dict(s2.fam)
        for t in s1.famdirty | s2.famdirty:
            a, b = s1.fam.get(t), s2.fam.get(t)
            if a is b or a is None:
                continue
            fam[t] = a if b is None else Family(b.params, b.ns, self.merge_obj(
                c, subst_obj(a.obj, dict(zip(a.params, b.params))), b.obj))
        out.fam = fam
        out.famdirty = s1.famdirty | s2.famdirty
        th = dict(s1.thawed)
        th.update(s2.thawed)
        out.thawed = th
        o = or_(c1, c2)
        out.pc = base if o is TRUE else base + (o,)
        return out, self.vite(c, v1, v2)

    def vite(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.vite(c, x, y) for x, y in zip(a.items, b.items)])
        try:
            if a == b:
                return a
        except Exception:
            pass
        return mk_itev(c, a, b)

    def merge_obj(self, c, a, b):
        if isinstance(a, Inst) and isinstance(b, Inst):
            f = {}
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                f[k] = self.vite(c, a.f.get(k, UNDEF), b.f.get(k, UNDEF))
            return Inst(a.cls, f)
        if isinstance(a, LList) and isinstance(b, LList):
            sa, sb = a.segs, b.segs
            k = 0
            while k < len(sa) and k < len(sb) and sa[k] == sb[k]:
                k += 1
            ta, tb = sa[k:], sb[k:]
            if len(ta) == len(tb) and all(x[0] == "i" and y[0] == "i" and x[2] == y[2] for x, y in zip(ta, tb)):
                tail = tuple(("i", self.vite(c, x[1], y[1]), x[2]) for x, y in zip(ta, tb))
            else:
                tail = guard_segs(ta, c) + guard_segs(tb, not_(c))
            return LList(sa[:k] + tail, a.kind)
        if isinstance(a, DDict) and isinstance(b, DDict):
            sa, sb = a.segs, b.segs
            k = 0
            while k < len(sa) and k < len(sb) and sa[k] == sb[k]:
                k += 1
            ta, tb = list(sa[k:]), list(sb[k:])
            out = []
            for x in ta:
                if x[0] == "e":
                    m = [y for y in tb if y[0] == "e" and y[1] == x[1] and y[3] == x[3]]
                    if m:
                        tb.remove(m[0])
                        out.append(("e", x[1], self.vite(c, x[2], m[0][2]), x[3]))
                        continue
                if x in tb:
                    tb.remove(x)
                    out.append(x)
                    continue
                out += guard_segs((x,), c)
            out += guard_segs(tuple(tb), not_(c))
            return DDict(sa[:k] + tuple(out), a.kind)
        return a

    # ------------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is not None and (m.env is None or self.st is None or m.env.id in self.st.heap):
            return m
        # not imported on this path yet
        self.mods.pop(name, None)
        path = os.path.join(self.src, *name.split("."))
        file = None
        if os.path.isdir(path) and os.path.exists(os.path.join(path, "__init__.py")):
            file = os.path.join(path, "__init__.py")
        elif os.path.exists(path + ".py"):
            file = path + ".py"
        if file is None:
            m = Mod(name)
            self.mods[name] = m
            return m
        if "." in name:
            self.module(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        with open(file) as f:
            tree = ast.parse(f.read(), file)
        env = self.alloc(Inst("env", {"__name__": K(name), "__file__": K(file)}))
        m = Mod(name, env, tree, file)
        self.mods[name] = m
        fr = Frame(env, m, None)
        self.frames.append(fr)
        saved, self.loopvars, sl, self.loops = self.loopvars, [], self.loops, []
        try:
            self.exec_block(tree.body)
        finally:
            self.frames.pop()
            self.loopvars, self.loops = saved, sl
        if self.st is None:
            raise Broken("module %s does not load" % name)
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            p = self.mods.get(par)
            if p is not None and p.env is not None:
                self.setvar(p.env, leaf, m)
        return m

    def lookup_public(self, path):
        """'pkg.mod:Name.attr' -> value."""
        mod, name = path.split(":")
        m = self.module(mod)
        if m.env is None:
            raise Broken("module %s not found" % mod)
        v = self.obj(m.env).f.get(name.split(".")[0])
        if v is None:
            raise Broken("%s not found in %s" % (name, mod))
        for a in name.split(".")[1:]:
            v = self.getattr(v, a)
        return v

    def import_name(self, mod, name):
        m = self.module(mod)
        if m.env is None:
            if mod.startswith("hypervehicle"):
                self.event("missing", what="module", name=mod)
                self.do_raise(self.exc("ModuleNotFoundError", K(mod)))
            return self.ext_attr(mod, name)
        v = self.obj(m.env).f.get(name)
        if v is None:
            sub = self.module(mod + "." + name)
            if sub.env is not None:
                return sub
            self.event("missing", what="name", name=mod + "." + name)
            self.do_raise(self.exc("ImportError", K(name)))
        return v

    def ext_attr(self, path, name):
        p = path + "." + name
        p = self.models.ALIASES.get(p, p)
        if p in self.models.CONSTS:
            return self.models.CONSTS[p]
        if p in self.models.EXTMODS:
            return Mod(p)
        return Bi(p)

    # ------------------------------------------------------------------ variables
    def setvar(self, env, name, v):
        self.put(env, self.obj(env).with_(name, v))

    def lookup_name(self, name):
        fr = self.frames[-1]
        env = fr.env
        o = self.obj(env)
        first = True
        while True:
            if name in o.f:
                v = self.norm(o.f[name])
                return self.chk_undef(v, name)
            if first and name in fr.locals and name not in fr.globals_ and o.cls == "env" and not o.f.get("#comp"):
                self.event("unbound", name=name)
                self.do_raise(self.exc("UnboundLocalError", K(name)))
            if not o.f.get("#comp"):
                first = False
            p = o.f.get("#parent")
            if p is None:
                break
            p = self.norm(p)
            o = self.obj(p)
        m = fr.mod
        if m is not None and m.env is not None:
            o = self.obj(m.env)
            if name in o.f:
                return self.chk_undef(self.norm(o.f[name]), name)
        if name in self.models.BUILTINS:
            return self.models.BUILTINS[name]
        if name in EXC_BASES or name == "BaseException":
            return Bi("builtins." + name)
        self.event("unbound", name=name)
        self.do_raise(self.exc("NameError", K(name)))

    def chk_undef(self, v, name):
        if v is UNDEF:
            self.event("unbound", name=name)
            self.do_raise(self.exc("UnboundLocalError", K(name)))
        c = self.undef_cond(v)
        if c is not None and c is not FALSE:
            d = self.decide(c)
            if d is not False:
                self.event("maybe_unbound", name=name, cond=c)
                self.may_raise(c, self.exc("UnboundLocalError", K(name)))
                v = self.norm(v)
            v = self.strip_undef(v)
        return v

    def undef_cond(self, v):
        if v is UNDEF:
            return TRUE
        if isinstance(v, Term) and v.op == "ite":
            a, b = self.undef_cond(v.args[1]), self.undef_cond(v.args[2])
        elif isinstance(v, IteV):
            a, b = self.undef_cond(v.a), self.undef_cond(v.b)
        else:
            return None
        if a is None and b is None:
            return None
        c = v.args[0] if isinstance(v, Term) else v.c
        return ite(c, a or FALSE, b or FALSE)

    def strip_undef(self, v):
        if isinstance(v, Term) and v.op == "ite":
            a, b = self.strip_undef(v.args[1]), self.strip_undef(v.args[2])
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return ite(v.args[0], a, b)
        if isinstance(v, IteV):
            a, b = self.strip_undef(v.a), self.strip_undef(v.b)
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return mk_itev(v.c, a, b)
        return v

    def assign_name(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_:
            # nonlocal / global: find the defining environment
            o = self.obj(fr.env)
            e = fr.env
            p = o.f.get("#parent")
            while p is not None:
                p = self.norm(p)
                if name in self.obj(p).f:
                    self.setvar(p, name, v)
                    return
                p = self.obj(p).f.get("#parent")
            if fr.mod.env is not None:
                self.setvar(fr.mod.env, name, v)
            return
        e = fr.env
        while self.obj(e).f.get("#comp") and name in fr.locals and not self.obj(e).f.get("#own", {}) :
            # assignment expression inside a comprehension
            break
        self.setvar(e, name, v)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            try:
                self.exec_stmt(s)
            except Unreach:
                self.st = None
                return

    def exec_stmt(self, s):
        fr = self.frames[-1]
        self.where = (fr.mod.file if fr.mod else None, fr.fn.qual if fr.fn else "<module>", getattr(s, "lineno", 0))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported[type(s).__name__] = self.unsupported.get(type(s).__name__, 0) + 1
            raise Broken("unsupported statement %s at %s" % (type(s).__name__, self.where))
        m(s)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                m = self.module(a.name)
                self.assign_name(a.asname, m)
            else:
                self.module(a.name)
                self.assign_name(a.name.split(".")[0], self.module(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            fr = self.frames[-1]
            parts = fr.mod.name.split(".")
            if not (fr.mod.file or "").endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                m = self.module(mod)
                if m.env is not None:
                    for k, v in self.obj(m.env).f.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                continue
            if mod == "__future__":
                continue
            self.assign_name(a.asname or a.name, self.import_name(mod, a.name))

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.may_raise(not_(c), self.exc("AssertionError"))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.put(self.frames[-1].env, self.obj(self.frames[-1].env).without(t.id))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                i = self.eval(t.slice)
                self.models.delitem(self, o, i)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Ref):
                    self.put(o, self.obj(o).without(t.attr))

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id)
            v = self.augop(s.op, cur, self.eval(s.value))
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            v = self.augop(s.op, cur, self.eval(s.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval(t.slice)
            cur = self.getitem(o, i)
            v = self.augop(s.op, cur, self.eval(s.value))
            self.setitem(o, i, v)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.frames[-1].ret.append((self.st, v))
        self.st = None

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            self.do_raise(cur[-1] if cur else self.exc("Exception"))
        v = self.eval(s.exc)
        if isinstance(v, Bi):
            v = ExcV(v.path.split(".")[-1], (), self.where)
        elif isinstance(v, ClassV):
            v = ExcV(v, (), self.where)
        elif isinstance(v, Ref) and isinstance(self.obj(v), Inst):
            v = ExcV(self.obj(v).cls, (v,), self.where)
        elif not isinstance(v, ExcV):
            v = ExcV("Exception", (v,), self.where)
        self.do_raise(v)

    def s_FunctionDef(self, s):
        f = self.make_fn(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.assign_name(s.name, v)

    def decorate(self, d, v):
        if isinstance(d, ast.Name):
            if d.id == "property":
                return Prop(v)
            if d.id == "staticmethod":
                return v.copy(kind="static") if isinstance(v, Fn) else v
            if d.id == "classmethod":
                return v.copy(kind="class") if isinstance(v, Fn) else v
            if d.id in ("abstractmethod", "lru_cache", "cache"):
                return v
        if isinstance(d, ast.Attribute):
            if d.attr == "setter" and isinstance(d.value, ast.Name):
                p = self.obj(self.frames[-1].env).f.get(d.value.id)
                if isinstance(p, Prop):
                    return Prop(p.fget, v)
            if d.attr in ("abstractmethod", "wraps", "lru_cache", "cache"):
                return v
            if d.attr == "cached_property":
                return Prop(v)
        if isinstance(d, ast.Call):
            f = d.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm in ("wraps", "lru_cache", "cache"):
                return v
        dv = self.eval(d)
        return self.call(dv, [v], {})

    def make_fn(self, node, name, cls=None):
        fr = self.frames[-1]
        a = node.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        env = fr.env
        if env is not None and (fr.mod is None or env != fr.mod.env):
            # functions defined in class bodies do not see the class namespace
            while self.obj(env).f.get("#class"):
                env = self.obj(env).f.get("#parent")
                if env is None:
                    break
            if env is not None:
                self.captured.add(env.id)
        else:
            env = None
        prefix = ""
        if fr.fn is not None:
            prefix = fr.fn.qual + ".<locals>."
        elif self.obj(fr.env).f.get("#class"):
            prefix = self.obj(fr.env).f["#class"] + "."
        if self.obj(fr.env).f.get("#class"):
            prefix = self.obj(fr.env).f["#class"] + "."
        return Fn(node, fr.mod, env, name, defaults, kwd, None, "func", prefix + name)

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        fr = self.frames[-1]
        parent = fr.env if fr.mod is None or fr.env != fr.mod.env else None
        env = self.alloc(Inst("env", {"#class": s.name, "#parent": parent}))
        cfr = Frame(env, fr.mod, None)
        self.frames.append(cfr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        if self.st is None:
            raise Unreach()
        ns = {k: v for k, v in self.obj(env).f.items() if not k.startswith("#")}
        qual = (fr.mod.name + "." if fr.mod else "") + s.name
        c = ClassV(s.name, qual, fr.mod, bases, ns, s)
        for k, v in list(ns.items()):
            if isinstance(v, Fn):
                ns[k] = v.copy(cls=c)
            elif isinstance(v, Prop):
                ns[k] = Prop(v.fget.copy(cls=c) if isinstance(v.fget, Fn) else v.fget,
                             v.fset.copy(cls=c) if isinstance(v.fset, Fn) else v.fset)
        v = c
        for d in reversed(s.decorator_list):
            nm = d.id if isinstance(d, ast.Name) else getattr(getattr(d, "func", d), "id", getattr(d, "attr", ""))
            if nm == "dataclass":
                self.models.make_dataclass(self, c)
        self.assign_name(s.name, v)

    def s_If(self, s):
        c = self.truth(self.eval(s.test))

        def run(block):
            def f():
                self.exec_block(block)
                if self.st is None:
                    raise Unreach()
            return f

        self.branch(c, run(s.body), run(s.orelse))

    def s_With(self, s):
        self.with_items(list(s.items), s.body)

    def with_items(self, items, body):
        if not items:
            self.exec_block(body)
            if self.st is None:
                raise Unreach()
            return
        it = items[0]
        cm = self.eval(it.context_expr)
        v = self.models.enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)

        def go():
            self.with_items(items[1:], body)

        self.protected(go, lambda abrupt: self.models.exit_(self, cm, abrupt))

    def protected(self, go, final):
        """Run go(); run final on every way out (normal, return, break, continue, raise)."""
        fr = self.frames[-1]
        nr = len(fr.ret)
        lc = self.loops[-1] if self.loops else None
        nb, nc = (len(lc.brk), len(lc.cont)) if lc else (0, 0)
        saved = self.raises
        self.raises = []
        try:
            go()
        except Unreach:
            self.st = None
        normal = self.st
        raised = self.raises
        self.raises = saved

        def fin(st, abrupt):
            self.st = st
            try:
                final(abrupt)
            except Unreach:
                self.st = None
            return self.st

        for (st, e) in raised:
            r = fin(st, True)
            if r is not None:
                self.raises.append((r, e))
        for lst, k in ((fr.ret, nr),) + (((lc.brk, nb), (lc.cont, nc)) if lc else ()):
            for j in range(k, len(lst)):
                x = lst[j]
                r = fin(x[0] if isinstance(x, tuple) else x, False)
                lst[j] = (r, x[1]) if isinstance(x, tuple) else r
            lst[:] = [x for x in lst if (x[0] if isinstance(x, tuple) else x) is not None]
        if normal is None:
            self.st = None
            raise Unreach()
        self.st = fin(normal, False)
        if self.st is None:
            raise Unreach()

    def s_Try(self, s):
        if s.finalbody:
            def final(abrupt):
                self.exec_block(s.finalbody)
                if self.st is None:
                    raise Unreach()
            self.protected(lambda: self.try_core(s), final)
        else:
            self.try_core(s)

    def try_core(self, s):
        if not s.handlers:
            self.exec_block(s.body)
            if self.st is None:
                raise Unreach()
            return
        base = self.st.pc
        dirty0, fd0 = set(self.st.dirty), set(self.st.famdirty)
        saved = self.raises
        self.raises = []
        self.exec_block(s.body)
        normal = self.st
        raised = self.raises
        self.raises = saved
        outs = []
        if normal is not None:
            self.st = normal
            if s.orelse:
                self.exec_block(s.orelse)
            if self.st is not None:
                outs.append((self.st, NONE))
        caught = {}
        for (st, e) in raised:
            h = self.match_handler(s.handlers, e)
            if h is None:
                self.raises.append((st, e))
            else:
                caught.setdefault(h, []).append((st, e))
        for hi, lst in caught.items():
            h = s.handlers[hi]
            st, e = self.merge(base, [(a, b) for a, b in lst]) if len(lst) > 1 else lst[0]
            self.st = st
            if h.name:
                self.assign_name(h.name, e)
            if not hasattr(self, "cur_exc"):
                self.cur_exc = []
            self.cur_exc.append(e)
            self.exec_block(h.body)
            self.cur_exc.pop()
            if self.st is not None:
                outs.append((self.st, NONE))
        if not outs:
            self.st = None
            raise Unreach()
        # order: exceptional outcomes first so that their conditions select them
        if len(outs) > 1:
            st, _ = self.merge(base, outs[1:] + outs[:1])
        else:
            st = outs[0][0]
        st.dirty |= dirty0
        st.famdirty |= fd0
        self.st = st

    def match_handler(self, handlers, e):
        for i, h in enumerate(handlers):
            if h.type is None:
                return i
            st0 = self.st
            names = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for n in names:
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else ""
                ecls = e.cls if isinstance(e, ExcV) else "Exception"
                if isinstance(ecls, ClassV):
                    if any(c.name == nm for c in ecls.mro()) or nm in ("Exception", "BaseException") or \
                            any(isinstance(b, Bi) and exc_isa(b.path.split(".")[-1], nm) for b in ecls.ext_bases()):
                        return i
                elif exc_isa(ecls, nm):
                    return i
        return None

    def s_Break(self, s):
        self.loops[-1].brk.append(self.st)
        self.st = None

    def s_Continue(self, s):
        self.loops[-1].cont.append(self.st)
        self.st = None

    def s_For(self, s):
        it = self.eval(s.iter)

        def body(v):
            self.assign(s.target, v)
            self.exec_block(s.body)
            if self.st is None:
                raise Unreach()

        self.run_loop(it, body, s.orelse, names=None)

    def s_While(self, s):
        # unroll while the condition is a compile-time constant, otherwise summarise
        base = self.st.pc
        lc = LoopCtx()
        d0, f0 = set(self.st.dirty), set(self.st.famdirty)
        exits = []
        n = 0
        while True:
            cv = self.truth(self.eval(s.test))
            d = self.decide(cv)
            if d is False:
                break
            if d is None or n > 300:
                self.while_generic(s, cv)
                break
            n += 1
            self.loops.append(lc)
            self.exec_block(s.body)
            self.loops.pop()
            outs = ([(self.st, NONE)] if self.st is not None else []) + [(x, NONE) for x in lc.cont]
            lc.cont = []
            if not outs:
                self.st = None
                break
            st, _ = self.merge(base, outs)
            st.dirty |= d0
            st.famdirty |= f0
            self.st = st
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        outs = ([(self.st, NONE)] if self.st is not None else []) + [(x, NONE) for x in lc.brk]
        if not outs:
            self.st = None
            raise Unreach()
        st, _ = self.merge(base, list(reversed(outs)))
        st.dirty |= d0
        st.famdirty |= f0
        self.st = st

    def while_generic(self, s, cv):
        """while with a symbolic condition: recognise counted loops, otherwise havoc."""
        # pattern: test is `x < bound` (or <=, >, !=) with x increasing by a constant and bound invariant
        test = s.test
        n = None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name):
            x0 = self.lookup_name(test.left.id)
            bound = self.eval(test.comparators[0])
            step = self.const_step(s, test.left.id)
            if isinstance(x0, Term) and isinstance(bound, Term) and step is not None:
                op = test.ops[0]
                if isinstance(op, (ast.Lt, ast.NotEq)) and step == 1:
                    n = tm.sub(bound, x0)
                elif isinstance(op, ast.LtE) and step == 1:
                    n = tm.add(tm.sub(bound, x0), ONE)
                elif isinstance(op, ast.Gt) and step == -1:
                    n = tm.sub(x0, bound)
                elif isinstance(op, ast.GtE) and step == -1:
                    n = tm.add(tm.sub(x0, bound), ONE)
        if n is None:
            n = unk("trip", cv, ty="int")

        def body(_):
            self.exec_block(s.body)
            if self.st is None:
                raise Unreach()

        v = tm.fresh_bv("w")
        self.run_loop(SeqV((("m", v, n, (("i", v, None),)),)), body, [])

    def const_step(self, s, name):
        """Constant increment of name per iteration when it is updated once at top level."""
        step = None
        for st in ast.walk(s):
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.For)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    if isinstance(t, ast.Name) and t.id == name:
                        if step is not None or st not in s.body:
                            return None
                        if isinstance(st, ast.AugAssign) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, int):
                            step = st.value.value if isinstance(st.op, ast.Add) else -st.value.value if isinstance(st.op, ast.Sub) else None
                        elif isinstance(st, ast.Assign) and isinstance(st.value, ast.BinOp) and isinstance(st.value.left, ast.Name) \
                                and st.value.left.id == name and isinstance(st.value.right, ast.Constant):
                            step = st.value.right.value if isinstance(st.value.op, ast.Add) else -st.value.right.value
                        else:
                            return None
            if isinstance(st, (ast.Break, ast.Continue, ast.Return)):
                return None
        return step

    # ------------------------------------------------------------------ loops
    def run_loop(self, it, body, orelse=(), names=None):
        it = self.norm(it)
        if isinstance(it, IteV):
            def one(x):
                def f():
                    self.run_loop(x, body, orelse, names)
                return f
            self.branch(it.c, one(it.a), one(it.b))
            return
        segs = self.to_segs(it)
        base = self.st.pc
        d0, f0 = set(self.st.dirty), set(self.st.famdirty)
        lc = LoopCtx()
        self.loops.append(lc)
        ok = True
        try:
            self.iter_segs(segs, body, lc)
        except Unreach:
            ok = False
            self.st = None
        finally:
            self.loops.pop()
        if self.st is not None and orelse:
            self.exec_block(orelse)
        outs = [(x, NONE) for x in lc.brk] + ([(self.st, NONE)] if self.st is not None else [])
        if not outs:
            self.st = None
            raise Unreach()
        if len(outs) > 1:
            st, _ = self.merge(base, outs)
        else:
            st = outs[0][0]
        st.dirty |= d0
        st.famdirty |= f0
        self.st = st

    def iter_segs(self, segs, body, lc):
        for sg in segs:
            if sg[0] == "i":
                def one(v=sg[1]):
                    base = self.st.pc
                    nc = len(lc.cont)
                    d0, f0 = set(self.st.dirty), set(self.st.famdirty)
                    try:
                        body(self.norm(v))
                    except Unreach:
                        self.st = None
                    outs = [(x, NONE) for x in lc.cont[nc:]] + ([(self.st, NONE)] if self.st is not None else [])
                    del lc.cont[nc:]
                    if not outs:
                        self.st = None
                        raise Unreach()
                    st, _ = self.merge(base, outs) if len(outs) > 1 else outs[0]
                    st.dirty |= d0
                    st.famdirty |= f0
                    self.st = st
                if sg[2] is None:
                    one()
                else:
                    self.branch(sg[2], one, lambda: None)
            elif sg[0] == "m":
                self.gen_loop(sg[1], sg[2], lambda var, sg=sg: self.iter_segs(subst_segs(sg[3], {sg[1]: var}), body, lc), lc)
            elif sg[0] == "u":
                v = tm.fresh_bv("u")
                n = unk("len", sg[1] if isinstance(sg[1], str) else str(sg[1]), ty="int")
                self.gen_loop(v, n, lambda var, sg=sg: body(unk("elem", str(sg[1]), var)), lc)

    def gen_loop(self, var0, n, body, lc):
        """Summarise `for var in range(n): body(var)` by one generic iteration."""
        d = self.decide(le(n, ZERO)) if isinstance(n, Term) else None
        if d is True:
            return
        if isk(n) and isinstance(kval(n), int) and kval(n) <= 64:
            for k in range(kval(n)):
                body(K(k))
            return
        self.nloops += 1
        var = tm.fresh_bv(var0.args[0].rstrip("0123456789") or "i")
        st0 = self.st
        base = st0.pc
        mark = self.next_id
        tmark = self.next_id
        nev = len(self.events)
        carried = {}   # loc -> dict(prev=, solved=)
        saved_raises = self.raises
        final = None
        for rnd in range(14):
            del self.events[nev:]
            self.next_id = max(self.next_id, mark)
            it_mark = self.next_id
            s = st0.copy()
            s.pc = base + (lt(var, n),) if not isk(lt(var, n)) else base
            self.st = s
            for loc, info in carried.items():
                self.install(loc, info["start"])
            start = self.st
            start_heap = dict(start.heap)
            start_fam = dict(start.fam)
            start.dirty = set()
            start.famdirty = set()
            self.raises = []
            inner = LoopCtx()
            nb, nc = len(lc.brk), len(lc.cont)
            self.loopvars.append((var, n))
            try:
                body(var)
            except Unreach:
                self.st = None
            finally:
                self.loopvars.pop()
            brk = lc.brk[nb:]
            del lc.brk[nb:]
            conts = lc.cont[nc:]
            del lc.cont[nc:]
            iter_raises = self.raises
            outs = [(x, NONE) for x in conts] + ([(self.st, NONE)] if self.st is not None else [])
            if not outs and not brk:
                # body never completes an iteration
                self.raises = saved_raises + iter_raises
                for x, e in iter_raises:
                    pass
                # zero-trip continues, otherwise unreachable
                s = st0.copy()
                s.pc = base + (le(n, ZERO),)
                s.dirty = st0.dirty
                self.st = s
                if tm.entails(base, lt(ZERO, n)) is True:
                    self.st = None
                    raise Unreach()
                return
            if brk or len(self.frames[-1].ret) > 0 and self._ret_in_loop(self.frames[-1], var):
                outs = outs + [(x, NONE) for x in brk]
            end, _ = self.merge(base, outs) if len(outs) > 1 else outs[0]
            changed = self.changed_locs(start_heap, end, it_mark, carried, var)
            new = [l for l in changed if l not in carried]
            if not new:
                progress = self.solve(carried, start_heap, end, var, n, st0)
                if not progress:
                    final = (end, start_heap, start_fam, it_mark, brk, iter_raises)
                    break
                continue
            for l in new:
                carried[l] = {"start": self.prev_value(l, st0, var, mark), "solved": False}
                carried[l]["prev"] = carried[l]["start"]
        else:
            for l, info in carried.items():
                if not info["solved"]:
                    info["solved"] = True
                    info["start"] = info["prev"] = self.havoc_value(l, st0, var)
                    info["post"] = self.havoc_value(l, st0, n)
            if final is None:
                final = (end, start_heap, start_fam, it_mark, brk, iter_raises)
        self.finish_loop(final, carried, st0, var, n, saved_raises, lc)

    def _ret_in_loop(self, fr, var):
        return False

    def finish_loop(self, final, carried, st0, var, n, saved_raises, lc):
        end, start_heap, start_fam, it_mark, brk, iter_raises = final
        base = st0.pc
        self.st = end
        gen = {}
        fams = {}

        def g(x):
            if isinstance(x, Ref):
                if x.id >= it_mark:
                    # thawed family member?
                    for key, i in end.thawed.items():
                        if i == x.id:
                            return FamRef(key[0], key[1])
                    if x.id in gen:
                        return gen[x.id]
                    tid = self.next_id
                    self.next_id += 1
                    fr = FamRef(tid, (var,))
                    gen[x.id] = fr
                    o = end.heap.get(x.id)
                    fams[tid] = Family((var,), (n,), map_obj(o, g))
                    return fr
                return x
            if isinstance(x, FamRef) and x.tid >= it_mark and x.tid not in fams:
                # family created by an inner loop of this iteration: add this loop's index
                inner = end.fam[x.tid]
                fams[x.tid] = None
                fams[x.tid] = Family((var,) + inner.params, (n,) + inner.ns, map_obj(inner.obj, g))
                return FamRef(x.tid, (var,) + x.idx)
            if isinstance(x, FamRef) and x.tid in fams and x.tid >= it_mark and len(x.idx) == (len(fams[x.tid].params) - 1 if fams[x.tid] else len(end.fam[x.tid].params)) and x.tid in end.fam:
                return FamRef(x.tid, (var,) + x.idx)
            return x

        out = st0.copy()
        out.dirty = set(st0.dirty)
        out.famdirty = set(st0.famdirty)
        # carried locations
        for loc, info in carried.items():
            post = info.get("post")
            if callable(post):
                if loc[0] == "c":
                    # the elements as the last interpretation of the body made them
                    ps, bs = info["start"].segs, end.heap[loc[1]].segs
                    if bs[:len(ps)] == ps:
                        info["tail"] = bs[len(ps):]
                post = post(g)
            self.st = out
            if post is not None:
                self.install(loc, post)
        # variables first assigned inside the loop
        for i in end.dirty:
            if i >= it_mark or i not in st0.heap:
                continue
            a, b = start_heap.get(i), end.heap.get(i)
            if isinstance(a, Inst) and isinstance(b, Inst):
                for k, v in b.f.items():
                    if k not in a.f and ("f", i, k) not in carried:
                        gv = map_val(v, g)
                        last = subst_val(gv, {var: tm.sub(n, ONE)})
                        self.st = out
                        cond = lt(ZERO, n)
                        dd = tm.entails(base, cond)
                        val = last if dd is True else self.vite(cond, last, UNDEF)
                        out.heap[i] = out.heap[i].with_(k, val)
                        out.dirty.add(i)
        # objects of families updated in this iteration
        for key, i in list(end.thawed.items()):
            tid, idx = key
            if not any(var in tm.free(t) for t in idx):
                continue
            o = end.heap.get(i)
            if o is None:
                continue
            fam = end.fam.get(tid) or out.fam.get(tid)
            if fam is None:
                continue
            ref = subst_obj(fam.obj, dict(zip(fam.params, idx)))
            if self.obj_same(ref, o):
                continue
            if tid in fams and fams[tid] is not None:
                continue
            cover = idx[-1] is var and fam.ns[-1] is n and all(
                isinstance(t, Term) and t.op == "bv" for t in idx)
            if idx == (var,) and len(fam.params) == 1 and (fam.ns[0] is n):
                out.fam[tid] = Family((var,), fam.ns, map_obj(o, g))
                out.famdirty.add(tid)
                # stale thawed members of this family
                for kk in [k for k in out.thawed if k[0] == tid]:
                    oi = out.thawed[kk]
                    fresh = subst_obj(out.fam[tid].obj, dict(zip(out.fam[tid].params, kk[1])))
                    out.heap[oi] = fresh
                    out.dirty.add(oi)
            else:
                nf = {}
                if isinstance(o, Inst):
                    for k in o.f:
                        if fam.obj.f.get(k) is None or not self.val_same(subst_val(fam.obj.f[k], dict(zip(fam.params, idx))), o.f[k]):
                            nf[k] = unk("partial family update", k)
                        else:
                            nf[k] = fam.obj.f[k]
                    out.fam[tid] = Family(fam.params, fam.ns, Inst(o.cls, nf))
                    out.famdirty.add(tid)
        for tid, fam in fams.items():
            if fam is not None:
                out.fam[tid] = fam
                out.famdirty.add(tid)
        # families changed otherwise (for example by inner loops over the same family)
        for tid in end.famdirty:
            if tid in fams or tid not in st0.fam:
                continue
            if end.fam[tid] is not start_fam.get(tid) and tid not in out.famdirty:
                nobj = map_obj(end.fam[tid].obj, g)
                vf = set()

                def chk(x):
                    if isinstance(x, Term):
                        vf.update(tm.free(x))
                    return x
                map_obj(nobj, chk)
                if var not in vf:
                    # same update in every iteration: only idempotent if repeated once more gives the same
                    out.fam[tid] = Family(end.fam[tid].params, end.fam[tid].ns, nobj)
                else:
                    out.fam[tid] = Family(end.fam[tid].params, end.fam[tid].ns, self.havoc_obj(nobj))
                out.famdirty.add(tid)
        self.raises = saved_raises
        for (s, e) in iter_raises:
            self.raises.append((s, e))
        # early exits make everything after the loop conditional on an unknown iteration
        if brk:
            self.st = out
            for loc in list(carried):
                self.install(loc, self.havoc_value(loc, st0, unk("break", var, ty="int")))
        fr = self.frames[-1]
        nret = [r for r in fr.ret if any(var in tm.free(c) for c in r[0].pc)]
        if nret:
            for j, (s, v) in enumerate(fr.ret):
                if any(var in tm.free(c) for c in s.pc):
                    cond = T("any", var, n, and_(*[c for c in s.pc[len(base):]]), ty="bool")
                    s2 = out.copy()
                    s2.pc = base + (cond,)
                    s2.dirty = set(out.dirty)
                    fr.ret[j] = (s2, self.first_value(v, cond, g))
                    out.pc = out.pc + (not_(cond),)
        self.st = out

    def first_value(self, v, cond, g):
        if isinstance(v, Term) and not tm.free(v) & set(tm.free(v)):
            return v
        if isinstance(v, Term):
            if isk(v):
                return v
            return T("first", v, cond, ty=v.ty)
        return T("first", unk("object"), cond)

    def val_same(self, a, b):
        try:
            return a is b or a == b
        except Exception:
            return False

    def obj_same(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Inst):
            return set(a.f) == set(b.f) and all(self.fam_same(a.f[k], b.f[k]) for k in a.f)
        return a.segs == b.segs

    def fam_same(self, a, b):
        if self.val_same(a, b):
            return True
        if isinstance(a, FamRef) and isinstance(b, Ref):
            return self.st.thawed.get((a.tid, a.idx)) == b.id
        if isinstance(b, FamRef) and isinstance(a, Ref):
            return self.st.thawed.get((b.tid, b.idx)) == a.id
        return False

    def havoc_obj(self, o):
        if isinstance(o, Inst):
            return Inst(o.cls, {k: (v if k.startswith("#") else unk("havoc", k)) for k, v in o.f.items()})
        if isinstance(o, LList):
            return LList((("u", "havoc"),), o.kind)
        return DDict((("u", "havoc"),), o.kind)

    def changed_locs(self, start_heap, end, it_mark, carried, var):
        out = []
        for i in sorted(end.dirty):
            if i >= it_mark:
                continue
            a, b = start_heap.get(i), end.heap.get(i)
            if a is None or a is b or b is None:
                continue
            if isinstance(a, Inst):
                for k in a.f:
                    if k in b.f and not self.val_same(a.f[k], b.f[k]):
                        out.append(("f", i, k))
            else:
                if a.segs != b.segs:
                    out.append(("c", i, None))
        # family members of other index touched: ignored
        return out

    def install(self, loc, v):
        kind, i, k = loc
        o = self.st.heap[i]
        if kind == "f":
            self.st.heap[i] = o.with_(k, v)
        else:
            self.st.heap[i] = v
        self.st.dirty.add(i)

    def prev_value(self, loc, st0, var, mark):
        kind, i, k = loc
        o = st0.heap[i]
        if kind == "c":
            if isinstance(o, LList):
                return LList(o.segs + (("u", "prev%d" % i),), o.kind)
            return DDict(o.segs + (("u", "prev%d" % i),), o.kind)
        v = o.f[k]
        return self.prev_of(v, (i, k), var, st0)

    def prev_of(self, v, key, var, st0, depth=0):
        if isinstance(v, Term):
            ty = v.ty if v.ty in ("int", "real", "str", "bool", "arr", "vec3", "mat3") else "any"
            if ty == "int":
                ty = "real" if False else "int"
            return T("prev", "%s" % (key,), var, ty=ty)
        if isinstance(v, Ref) and depth < 3:
            o = st0.heap.get(v.id)
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                f = {k: self.prev_of(x, key + (k,), var, st0, depth + 1) for k, x in o.f.items()}
                return self.alloc_in_all(Inst(o.cls, f), st0)
            if isinstance(o, LList) and o.segs and plain_terms(o):
                return self.alloc_in_all(LList(tuple(("i", self.prev_of(x[1], key + (j,), var, st0, depth + 1), None) for j, x in enumerate(o.segs)), o.kind), st0)
        if isinstance(v, Tup):
            return Tup([self.prev_of(x, key + (j,), var, st0, depth) for j, x in enumerate(v.items)])
        return T("prev", "%s" % (key,), var)

    def havoc_value(self, loc, st0, at):
        kind, i, k = loc
        o = st0.heap[i]
        if kind == "c":
            c = LList if isinstance(o, LList) else DDict
            return c((("u", "loop"),), o.kind)
        v = o.f[k]
        ty = v.ty if isinstance(v, Term) else "any"
        return unk("loop-carried %s" % (k,), at if isinstance(at, Term) else str(at), ty=ty)

    def has_prev(self, v):
        acc = []

        def f(x):
            if isinstance(x, Term):
                for u in tm.walk(x):
                    if u.op == "prev":
                        acc.append(u)
            return x

        map_val(v, f)
        return acc

    def solve(self, carried, start_heap, end, var, n, st0):
        """Try to solve unsolved carried locations; True if the body must be re-interpreted."""
        progress = False
        todo = [l for l in carried if not carried[l]["solved"]]
        if not todo:
            return False
        for l in todo:
            kind, i, k = l
            info = carried[l]
            init = st0.heap[i] if kind == "c" else st0.heap[i].f[k]
            b = end.heap[i] if kind == "c" else end.heap[i].f.get(k, UNDEF)
            r = self.solve_container(info, init, b, var, n, end) if kind == "c" else \
                self.solve_value(info["prev"], init, b, var, n, end, start_heap, st0)
            if r is not None:
                info["start"], info["post"] = r
                info["solved"] = True
                progress = True
        if not progress:
            # cyclic dependencies: give up on the remaining locations
            for l in todo:
                info = carried[l]
                if not info["solved"]:
                    info["solved"] = True
                    info["start"] = self.havoc_value(l, st0, var)
                    info["post"] = self.havoc_value(l, st0, n)
            return True
        return progress

    def solve_value(self, prev, init, b, var, n, end, start_heap, st0):
        b = self.norm_in(end, b)
        if isinstance(prev, Term) and isinstance(b, Term) and isinstance(init, Term):
            others = [p for p in self.has_prev(b) if p is not prev]
            if others:
                return None
            if prev not in set(tm.walk(b)):
                # last value
                prevval = tm.subst(b, {var: tm.sub(var, ONE)})
                start = ite(eq(var, ZERO), init, prevval)
                last = tm.subst(b, {var: tm.sub(n, ONE)})
                if var not in tm.free(b) and b is init:
                    return init, init
                return start, ite(lt(ZERO, n), last, init)
            if b.ty == "str" and b.op == "cat" and b.args[0] is prev and not any(prev in set(tm.walk(a)) for a in b.args[1:]):
                tail = tm.cat(*b.args[1:])
                v2 = tm.fresh_bv("k")
                j = lambda up: tm.cat(init, T("join", v2, up, tm.subst(tail, {var: v2}), ty="str"))
                return j(var), j(n)
            d = self.minus(b, prev)
            if d is not None:
                if var not in tm.free(d):
                    return tm.add(init, tm.mul(var, d)), tm.add(init, tm.mul(n, d))
                v2 = tm.fresh_bv("k")
                sm = lambda up: tm.add(init, T("sum", v2, up, tm.subst(d, {var: v2}), ty=d.ty if d.ty != "int" else "int"))
                return sm(var), sm(n)
            # idempotent / maximum folds
            if b.op == "ite" and prev in (b.args[1], b.args[2]) and isk(b.args[1] if b.args[2] is prev else b.args[2]):
                const = b.args[1] if b.args[2] is prev else b.args[2]
                cond = b.args[0] if b.args[2] is prev else not_(b.args[0])
                if prev not in set(tm.walk(cond)):
                    v2 = tm.fresh_bv("k")
                    an = lambda up: ite(T("any", v2, up, tm.subst(cond, {var: v2}), ty="bool"), const, init)
                    return an(var), an(n)
            return None
        if isinstance(prev, Tup) and isinstance(b, Tup) and isinstance(init, Tup) and len(prev.items) == len(b.items):
            rs = [self.solve_value(p, x, y, var, n, end, start_heap, st0) for p, x, y in zip(prev.items, init.items, b.items)]
            if any(r is None for r in rs):
                return None
            if any(callable(r[1]) for r in rs):
                return None
            return Tup([r[0] for r in rs]), Tup([r[1] for r in rs])
        if isinstance(prev, Ref) and isinstance(b, Ref):
            o, p = end.heap.get(b.id), start_heap.get(prev.id)
            if isinstance(o, Inst) and isinstance(p, Inst) and o.cls is p.cls and isinstance(init, Ref):
                oi = self.st_heap0(init, end)
                f0, f1 = {}, {}
                for k in p.f:
                    if k not in o.f or k not in oi.f:
                        return None
                    if p.f[k] == o.f[k]:
                        r = (oi.f[k], oi.f[k])
                    else:
                        r = self.solve_value(p.f[k], oi.f[k], o.f[k], var, n, end, start_heap, st0)
                    if r is None or callable(r[1]):
                        return None
                    f0[k], f1[k] = r
                ref0 = self.alloc_in_all(Inst(o.cls, f0), st0)
                ref1 = self.alloc_in_all(Inst(o.cls, f1), st0)
                return ref0, ref1
            oi = end.heap.get(init.id) if isinstance(init, Ref) else None
            if all(isinstance(x, LList) and plain_terms(x) for x in (o, p, oi)) and len(o.segs) == len(p.segs) == len(oi.segs) and o.kind == p.kind == oi.kind:
                rs = [self.solve_value(x[1], z[1], y[1], var, n, end, start_heap, st0) for x, y, z in zip(p.segs, o.segs, oi.segs)]
                if any(r is None or callable(r[1]) for r in rs):
                    return None
                return tuple(self.alloc_in_all(LList(tuple(("i", r[j], None) for r in rs), o.kind), st0) for j in (0, 1))
        if isinstance(b, (Ref, FamRef, Fn, Bound, ClassV, Bi, Mod, Tup, SeqV, Term, IteV)):
            # last value of object kind, not depending on the previous iteration
            if self.reaches_prev(b, end, prev):
                return None

            def post(g, b=b, init=init):
                last = subst_val(map_val(b, g), {var: tm.sub(n, ONE)})
                cond = lt(ZERO, n)
                d = tm.entails(self.st.pc if self.st else (), cond)
                return last if d is True else self.vite(cond, last, init)
            return unk("previous object", var), post
        return None

    def st_heap0(self, ref, end):
        return end.heap[ref.id]

    def alloc_in_all(self, obj, st0):
        """Allocate an object visible from the pre-loop state on."""
        i = self.next_id
        self.next_id += 1
        st0.heap[i] = obj
        return Ref(i)

    def reaches_prev(self, v, end, prev):
        seen = set()
        found = []

        def f(x):
            if isinstance(x, Term):
                for u in tm.walk(x):
                    if u.op == "prev":
                        found.append(u)
            elif isinstance(x, Ref) and x.id not in seen and len(seen) < 400:
                seen.add(x.id)
                if isinstance(prev, Ref) and x.id == prev.id:
                    found.append(x)
                o = end.heap.get(x.id)
                if o is not None and not (isinstance(o, Inst) and o.cls == "env" and "__name__" in o.f):
                    map_obj(o, f)
            return x

        map_val(v, f)
        return bool(found)

    def minus(self, b, prev):
        r = tm.linear(b, prev) if prev.op in ("sym", "bv") else self.linear_prev(b, prev)
        if r is None:
            return None
        c, d = r
        if c is ONE or (isk(c) and kval(c) == 1):
            return d
        return None

    def linear_prev(self, b, prev):
        s = tm.sym("#prev%d" % (hash(prev) & 0xFFFFFF), prev.ty)
        return tm.linear(self.replace(b, prev, s), s)

    def replace(self, t, a, b, memo=None):
        memo = {} if memo is None else memo

        def go(u):
            if not isinstance(u, Term):
                return u
            if u is a:
                return b
            if u in memo:
                return memo[u]
            na = [go(x) for x in u.args]
            r = u if all(x is y for x, y in zip(na, u.args)) else tm.rebuild(u, na)
            memo[u] = r
            return r

        return go(t)

    def norm_in(self, st, v):
        s = self.st
        self.st = st
        try:
            return self.norm(v)
        finally:
            self.st = s

    def solve_container(self, info, init, b, var, n, end):
        ps = info["prev"].segs
        bs = b.segs
        k = len(init.segs)
        isl = isinstance(b, LList)
        mk = LList if isl else DDict
        if len(bs) >= len(ps) and tuple(bs[:len(ps)]) == tuple(ps):
            tail = bs[len(ps):]
            fv = []
            pv = []

            def chk(x):
                if isinstance(x, Term):
                    for u in tm.walk(x):
                        if u.op == "prev":
                            pv.append(u)
                return x

            map_segs(tail, chk)
            if pv:
                return None
            v2 = tm.fresh_bv("k")

            def gen(up, g):
                t = map_segs(info.get("tail", tail), g)
                return self.place(init, t, var, up, mk)

            start = self.place(init, self.cheap_gen(tail, info), var, var, mk)
            return start, (lambda g: gen(n, g))
        if not isl:
            # in-place update of the entries of a mapped segment with the same key
            return None
        if isl and len(bs) == len(ps):
            return None
        return None

    def cheap_gen(self, tail, info):
        return tail

    def place(self, init, tail, var, up, mk):
        """init followed by tail(k) for k < up, with overwrites folded into existing segments."""
        segs = list(init.segs)
        app = []
        for t in tail:
            if t[0] == "o":
                v2 = tm.fresh_bv("k")
                idx, val, gd = subst_val(t[1], {var: v2}), subst_val(t[2], {var: v2}), None if t[3] is None else tm.subst(t[3], {var: v2})
                if idx is v2 and len(segs) == 1 and segs[0][0] == "m" and len(segs[0][3]) == 1 and segs[0][3][0][0] == "i" and \
                        self.same_count(segs[0][2], up):
                    old = subst_val(segs[0][3][0][1], {segs[0][1]: v2})
                    nv = val if gd is None else self.vite(gd, val, old)
                    segs = [("m", v2, up, (("i", nv, None),))]
                elif idx is v2 and all(sg[0] in ("i", "m") for sg in segs) and self.same_count(self.segs_len(segs), up) and segs:
                    # element-wise rewrite of a concatenation: value may depend on old element through index reads
                    segs = [("m", v2, up, (("i", val, gd),))]
                else:
                    segs.append(("om", v2, up, idx, val, gd))
            elif t[0] == "e":
                m = None
                for j, sg in enumerate(segs):
                    if sg[0] == "m" and self.same_count(sg[2], up):
                        for q, ent in enumerate(sg[3]):
                            if ent[0] == "e" and subst_val(ent[1], {sg[1]: var}) == t[1]:
                                m = (j, q)
                if m is not None:
                    j, q = m
                    sg = segs[j]
                    ents = list(sg[3])
                    nv = subst_val(t[2], {var: sg[1]})
                    if t[3] is not None:
                        nv = self.vite(tm.subst(t[3], {var: sg[1]}), nv, ents[q][2])
                    ents[q] = ("e", ents[q][1], nv, ents[q][3])
                    segs[j] = ("m", sg[1], sg[2], tuple(ents))
                else:
                    app.append(t)
            else:
                app.append(t)
        if app:
            v2 = tm.fresh_bv("k")
            inner = subst_segs(tuple(app), {var: v2})
            if all(v2 not in self.segs_free((x,)) for x in inner) and mk is DDict:
                segs += list(inner) if up is not var else list(inner)
            else:
                segs.append(("m", v2, up, inner))
        return mk(tuple(segs), init.kind)

    def segs_free(self, segs):
        acc = set()

        def f(x):
            if isinstance(x, Term):
                acc.update(tm.free(x))
            elif isinstance(x, FamRef):
                for i in x.idx:
                    acc.update(tm.free(i))
            return x

        map_segs(segs, f)
        return acc

    def same_count(self, a, b):
        if a is b:
            return True
        if isk(a) and isk(b):
            return kval(a) == kval(b)
        v = tm.compare(a, b, n=6)
        return v.kind == "equal"

    # ------------------------------------------------------------------ sequences
    def to_segs(self, v):
        v = self.norm(v)
        return self.models.to_segs(self, v)

    def segs_len(self, segs):
        tot = ZERO
        for s in segs:
            if s[0] == "i":
                tot = tm.add(tot, ONE if s[2] is None else ite(s[2], ONE, ZERO))
            elif s[0] == "e":
                tot = tm.add(tot, ONE if s[3] is None else ite(s[3], ONE, ZERO))
            elif s[0] == "m":
                l = self.segs_len(s[3])
                if s[1] in tm.free(l):
                    tot = tm.add(tot, T("sum", s[1], s[2], l, ty="int"))
                else:
                    tot = tm.add(tot, tm.mul(s[2], l))
            elif s[0] == "u":
                tot = tm.add(tot, unk("len", str(s[1]), ty="int"))
        return tot

    # ------------------------------------------------------------------ assignment targets
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [j for j, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                j = star[0]
                vals = self.known_items(v)
                if vals is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, unk("unpack"))
                    return
                after = len(t.elts) - j - 1
                for e, x in zip(t.elts[:j], vals[:j]):
                    self.assign(e, x)
                self.assign(t.elts[j].value, self.new_list(vals[j:len(vals) - after]))
                for e, x in zip(t.elts[j + 1:], vals[len(vals) - after:]):
                    self.assign(e, x)
                return
            for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(e, x)

    def unpack(self, v, n):
        v = self.norm(v)
        if isinstance(v, IteV):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [self.vite(v.c, x, y) for x, y in zip(a, b)]
        items = self.known_items(v)
        if items is not None:
            if len(items) != n:
                self.do_raise(self.exc("ValueError", K("unpack")))
            return items
        return [self.getitem(v, K(j)) for j in range(n)]

    def known_items(self, v):
        """Elements of a fully known sequence, or None."""
        v = self.norm(v)
        if isinstance(v, Tup):
            return [self.norm(x) for x in v.items]
        if isinstance(v, (Ref, SeqV)) or isk(v):
            if isinstance(v, Ref) and isinstance(self.obj(v), Inst):
                if not isinstance(self.obj(v).cls, str) and self.obj(v).cls.lookup("__iter__") is None:
                    return None
            try:
                segs = self.to_segs(v)
            except Broken:
                return None
            segs = self.flatten(segs)
            if all(s[0] == "i" and s[2] is None for s in segs):
                return [self.norm(s[1]) for s in segs]
        return None

    def flatten(self, segs):
        """Expand mapped segments of constant small length and apply overwrites."""
        if all(s[0] == "i" for s in segs):
            return segs
        out = []
        for s in segs:
            if s[0] == "m" and isk(s[2]) and isinstance(kval(s[2]), int) and kval(s[2]) <= 64:
                for k in range(kval(s[2])):
                    out += self.flatten(subst_segs(s[3], {s[1]: K(k)}))
            elif s[0] == "o" and isk(s[1]) and all(x[0] == "i" and x[2] is None for x in out) and -len(out) <= kval(s[1]) < len(out):
                j = kval(s[1]) % len(out)
                v = s[2] if s[3] is None else self.vite(s[3], s[2], out[j][1])
                out[j] = ("i", v, None)
            else:
                out.append(s)
        return tuple(out)

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported[type(e).__name__] = self.unsupported.get(type(e).__name__, 0) + 1
            return unk("expr " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return Bi("builtins.Ellipsis")
        if isinstance(e.value, (bool, int, float, str, type(None))):
            return K(e.value)
        return unk("const %r" % (e.value,))

    def e_Name(self, e):
        return self.lookup_name(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Tuple(self, e):
        return Tup(self.eval_elts(e.elts))

    def eval_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                items = self.known_items(v)
                if items is None:
                    out.append(("*", v))
                else:
                    out += items
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        vals = self.eval_elts(e.elts)
        segs = []
        for v in vals:
            if isinstance(v, tuple):
                segs += list(self.to_segs(v[1]))
            else:
                segs.append(("i", v, None))
        return self.alloc(LList(segs))

    def e_Set(self, e):
        r = self.e_List(e)
        o = self.obj(r)
        self.put(r, LList(self.models.dedupe(self, o.segs), "set"))
        return r

    def e_Dict(self, e):
        r = self.alloc(DDict(()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, r, self.eval(v))
            else:
                kv = self.eval(k)
                self.setitem(r, kv, self.eval(v))
        return r

    def e_Lambda(self, e):
        return self.make_fn(e, "<lambda>")

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign_name(e.target.id, v)
        return v

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(vals[1:]), lambda: self.falsy(v, c))
            return self.branch(c, lambda: self.truthy(v, c), lambda: go(vals[1:]))

        return go(e.values)

    def falsy(self, v, c):
        if isinstance(v, Term) and v.ty == "bool":
            return FALSE
        return v

    def truthy(self, v, c):
        if isinstance(v, Term) and v.ty == "bool":
            return TRUE
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        return self.unop(e.op, v)

    def unop(self, op, v):
        v = self.norm(v)
        if isinstance(v, IteV):
            return self.branch(v.c, lambda: self.unop(op, v.a), lambda: self.unop(op, v.b))
        if isinstance(op, ast.Not):
            return not_(self.truth(v))
        if isinstance(v, Ref):
            o = self.obj(v)
            name = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)]
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                f = o.cls.lookup(name)
                if f is not None:
                    return self.call(Bound(f, v), [], {})
                self.do_raise(self.exc("TypeError", K(name)))
            return self.models.arr_unop(self, name, v)
        if isinstance(op, ast.USub):
            if isinstance(v, Term):
                return tm.neg(v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, Term) and v.ty in ("bool", "arr"):
                return not_(v) if v.ty == "bool" else T("not", v, ty="arr")
        return unk("unary")

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b)

    OPS = {ast.Add: ("__add__", "__radd__", "__iadd__"), ast.Sub: ("__sub__", "__rsub__", "__isub__"),
           ast.Mult: ("__mul__", "__rmul__", "__imul__"), ast.Div: ("__truediv__", "__rtruediv__", "__itruediv__"),
           ast.FloorDiv: ("__floordiv__", "__rfloordiv__", "__ifloordiv__"), ast.Mod: ("__mod__", "__rmod__", "__imod__"),
           ast.Pow: ("__pow__", "__rpow__", "__ipow__"), ast.BitAnd: ("__and__", "__rand__", "__iand__"),
           ast.BitOr: ("__or__", "__ror__", "__ior__"), ast.BitXor: ("__xor__", "__rxor__", "__ixor__"),
           ast.MatMult: ("__matmul__", "__rmatmul__", "__imatmul__"), ast.LShift: ("__lshift__", "__rlshift__", "__ilshift__"),
           ast.RShift: ("__rshift__", "__rrshift__", "__irshift__")}

    def is_src_inst(self, v):
        return isinstance(v, Ref) and isinstance(self.obj(v), Inst) and isinstance(self.obj(v).cls, ClassV)

    def binop(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, IteV):
            return self.branch(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, IteV):
            return self.branch(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        n, r, _ = self.OPS[type(op)]
        if self.is_src_inst(a):
            f = self.obj(a).cls.lookup(n)
            if f is not None:
                v = self.call(Bound(f, a), [b], {})
                if not (isinstance(v, Bi) and v.path == "builtins.NotImplemented"):
                    return v
        if self.is_src_inst(b):
            f = self.obj(b).cls.lookup(r)
            if f is not None:
                v = self.call(Bound(f, b), [a], {})
                if not (isinstance(v, Bi) and v.path == "builtins.NotImplemented"):
                    return v
        if self.is_src_inst(a) or self.is_src_inst(b):
            if isinstance(a, Term) and a.op == "unk" or isinstance(b, Term) and b.op == "unk":
                return unk("binop")
            self.event("typeerror", what="operator", name=n)
            self.do_raise(self.exc("TypeError", K(n)))
        return self.models.binop(self, n, a, b)

    def binop_named(self, name, a, b):
        for t, ns in self.OPS.items():
            if ns[0] == name:
                return self.binop(t(), a, b)
        if name in self.CMPS:
            return self.compare(self.CMPS[name](), a, b)
        return self.models.binop(self, name, a, b)

    CMPS = {"__eq__": ast.Eq, "__ne__": ast.NotEq, "__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE}

    def fresh(self):
        self.next_id += 1
        return self.next_id

    def augop(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, IteV):
            return self.branch(a.c, lambda: self.augop(op, a.a, b), lambda: self.augop(op, a.b, b))
        n, r, i = self.OPS[type(op)]
        if self.is_src_inst(a):
            f = self.obj(a).cls.lookup(i)
            if f is not None:
                v = self.call(Bound(f, a), [b], {})
                if not (isinstance(v, Bi) and v.path == "builtins.NotImplemented"):
                    return v
            return self.binop(op, a, b)
        if isinstance(a, Ref) and isinstance(self.obj(a), (LList, DDict)):
            return self.models.aug_container(self, n, a, b)
        return self.binop(op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)

        def go(left, k):
            right = self.eval(e.comparators[k])
            c = self.compare(e.ops[k], left, right)
            if k + 1 == len(e.ops):
                return c
            t = self.truth(c)
            return self.branch(t, lambda: go(right, k + 1), lambda: FALSE)

        return go(left, 0)

    def compare(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.models.contains(self, b, a)
            return r if isinstance(op, ast.In) else not_(r)
        if isinstance(a, IteV):
            return self.branch(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, IteV):
            return self.branch(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        name = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
        refl = {"__eq__": "__eq__", "__ne__": "__ne__", "__lt__": "__gt__", "__le__": "__ge__", "__gt__": "__lt__", "__ge__": "__le__"}[name]
        for x, y, m in ((a, b, name), (b, a, refl)):
            if self.is_src_inst(x):
                f = self.obj(x).cls.lookup(m)
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
                if m == "__ne__":
                    f = self.obj(x).cls.lookup("__eq__")
                    if f is not None:
                        return not_(self.truth(self.call(Bound(f, x), [y], {})))
        return self.models.compare(self, name, a, b)

    def is_(self, a, b):
        if isinstance(a, IteV):
            return ite(a.c, self.is_(self.norm(a.a), b), self.is_(self.norm(a.b), b))
        if isinstance(b, IteV):
            return self.is_(b, a)
        if isinstance(a, Term) and isinstance(b, Term):
            if isk(a) and isk(b):
                return K(kval(a) is kval(b) or (type(kval(a)) is type(kval(b)) and kval(a) == kval(b)))
            if (isk(b) and kval(b) is None) or (isk(a) and kval(a) is None):
                x = a if isk(b) else b
                if x.op == "ite":
                    return ite(x.args[0], self.is_(x.args[1], NONE), self.is_(x.args[2], NONE))
                if x.ty in ("any",) and x.op in ("sym", "unk", "ext", "app", "first", "prev"):
                    return T("eq", x, NONE, ty="bool")
                if x.ty == "none":
                    return TRUE
                return FALSE
            return eq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return K(a.id == b.id)
        if isinstance(a, (ClassV, Mod)) or isinstance(b, (ClassV, Mod)):
            return K(a is b)
        if isinstance(a, Term) != isinstance(b, Term):
            t = a if isinstance(a, Term) else b
            if t.op in ("unk", "prev"):
                return unk("is", ty="bool")
            return FALSE
        return K(a == b)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        if isinstance(o, Bi) or isinstance(o, ClassV):
            return o  # typing generics
        return self.getitem(o, self.eval(e.slice))

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.eval(x)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e):
        return self.eval(e.value)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.eval(v.value)
                spec = ""
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec)
                    spec = kval(sp) if isk(sp) else "?"
                parts.append(self.models.fmt(self, x, spec, v.conversion))
        return tm.cat(*parts) if parts else K("")

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        y = self.obj(self.frames[-1].env).f.get("#yields")
        if y is not None:
            o = self.obj(y)
            self.put(y, LList(o.segs + (("i", v, None),), o.kind))
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        y = self.obj(self.frames[-1].env).f.get("#yields")
        o = self.obj(y)
        self.put(y, LList(o.segs + tuple(self.to_segs(v)), o.kind))
        return NONE

    def e_Await(self, e):
        return self.eval(e.value)

    # comprehensions
    def comp(self, gens, emit):
        fr = self.frames[-1]
        env = self.alloc(Inst("env", {"#parent": fr.env, "#comp": True}))
        self.captured.add(fr.env.id)
        it0 = self.eval(gens[0].iter)
        nf = Frame(env, fr.mod, fr.fn, fr.locals, fr.globals_)
        nf.ret = fr.ret
        self.frames.append(nf)

        def go(k, itv=None):
            g = gens[k]
            it = itv if itv is not None else self.eval(g.iter)

            def body(v):
                self.assign(g.target, v)
                conds(0)

            def conds(j):
                if j < len(g.ifs):
                    c = self.truth(self.eval(g.ifs[j]))

                    def yes():
                        conds(j + 1)
                    self.branch(c, yes, lambda: None)
                elif k + 1 < len(gens):
                    go(k + 1)
                else:
                    emit()

            self.run_loop(it, body)

        try:
            go(0, it0)
        finally:
            self.frames.pop()

    def e_ListComp(self, e, kind="list"):
        r = self.alloc(LList((), kind))

        def emit():
            v = self.eval(e.elt)
            o = self.obj(r)
            self.put(r, LList(o.segs + (("i", v, None),), o.kind))

        self.comp(e.generators, emit)
        return r

    def e_SetComp(self, e):
        r = self.e_ListComp(e, "set")
        self.put(r, LList(self.models.dedupe(self, self.obj(r).segs), "set"))
        return r

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e, "gen")

    def e_DictComp(self, e):
        r = self.alloc(DDict(()))

        def emit():
            k = self.eval(e.key)
            self.setitem(r, k, self.eval(e.value))

        self.comp(e.generators, emit)
        return r

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.make_super(e)
        f = self.eval(e.func)
        args, kwargs, kwsegs = [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                items = self.known_items(v)
                if items is None:
                    args.append(("*", v))
                else:
                    args += items
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.norm(self.eval(k.value))
                self.merge_kwargs(v, kwargs, kwsegs)
            else:
                kwargs[k.arg] = self.eval(k.value)
        fr = self.frames[-1]
        self.where = (fr.mod.file if fr.mod else None, fr.fn.qual if fr.fn else "<module>", e.lineno)
        self.callsites.add((self.where[0], e.lineno, e.col_offset))
        return self.call(f, args, kwargs, kwsegs)

    def merge_kwargs(self, v, kwargs, kwsegs):
        if isinstance(v, Ref) and isinstance(self.obj(v), DDict):
            for s in self.obj(v).segs:
                if s[0] == "e" and isk(s[1]) and s[3] is None:
                    if kval(s[1]) in kwargs:
                        self.do_raise(self.exc("TypeError", K("multiple values for keyword")))
                    kwargs[kval(s[1])] = s[2]
                else:
                    kwsegs.append(s)
        elif isinstance(v, BiM) and v.name == "__dict__" and self.is_src_inst(self.norm(v.obj)):
            for k, x in self.obj(self.norm(v.obj)).f.items():
                kwargs[k] = x
        elif isinstance(v, IteV):
            kwsegs.append(("v", v))
        else:
            kwsegs.append(("u", "kwargs"))

    def make_super(self, e):
        fr = self.frames[-1]
        if e.args:
            c = self.eval(e.args[0])
            return SuperV(c, self.eval(e.args[1]))
        f = fr
        k = len(self.frames) - 1
        while f.fn is not None and f.fn.cls is None and k > 0:
            k -= 1
            f = self.frames[k]
        cls = f.fn.cls
        a = f.fn.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return SuperV(cls, self.norm(self.obj(f.env).f[first]))

    def call(self, f, args, kwargs, kwsegs=()):
        f = self.norm(f)
        if isinstance(f, IteV):
            return self.branch(f.c, lambda: self.call(f.a, args, kwargs, kwsegs), lambda: self.call(f.b, args, kwargs, kwsegs))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs, kwsegs)
        for j, s in enumerate(kwsegs):
            # a keyword that is passed on some paths only
            rest = list(kwsegs[:j]) + list(kwsegs[j + 1:])
            if s[0] == "v":
                def go(d):
                    kw, ks = dict(kwargs), []
                    self.merge_kwargs(self.norm(d), kw, ks)
                    return self.call(f, args, kw, rest + ks)
                return self.branch(s[1].c, lambda: go(s[1].a), lambda: go(s[1].b))
            if s[0] == "e" and isk(s[1]) and s[3] is not None and isinstance(f, (Fn, ClassV)):
                return self.branch(s[3], lambda: self.call(f, args, dict(kwargs, **{kval(s[1]): s[2]}), rest), lambda: self.call(f, args, kwargs, rest))
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, kwsegs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, kwsegs)
        if isinstance(f, PyFn):
            return f.f(self, args, kwargs)
        if isinstance(f, Ref):
            o = self.obj(f)
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                m = o.cls.lookup("__call__")
                if m is None:
                    self.event("typeerror", what="call", name=o.cls.name)
                    self.do_raise(self.exc("TypeError", K("not callable")))
                return self.call(m, [f] + list(args), kwargs, kwsegs)
            return self.models.call_ext(self, f, args, kwargs, kwsegs)
        return self.models.call_ext(self, f, args, kwargs, kwsegs)

    def instantiate(self, c, args, kwargs, kwsegs=()):
        for b in c.ext_bases():
            if isinstance(b, Bi) and (b.path.split(".")[-1] in EXC_BASES):
                return ExcV(c, [a for a in args if not isinstance(a, tuple)], self.where)
        new = c.lookup("__new__")
        r = self.alloc(Inst(c, {}))
        init = c.lookup("__init__")
        if init is not None:
            self.call(init, [r] + list(args), kwargs, kwsegs)
        elif args or kwargs:
            self.event("signature", name=c.name)
            self.do_raise(self.exc("TypeError", K("%s() takes no arguments" % c.name)))
        return r

    def call_fn(self, f, args, kwargs, kwsegs=()):
        if self.depth > MAXDEPTH:
            return unk("recursion")
        if f.kind == "class" and not (args and args[0] is f.cls):
            if args and isinstance(args[0], Ref):
                args = [self.obj(args[0]).cls] + list(args[1:])
        stub = self.stubs.get(f.qual)
        if stub is not None:
            return stub(self, args, kwargs)
        node = f.node
        env_f = {}
        self.bind(f, args, kwargs, kwsegs, env_f)
        if f.env is not None:
            env_f["#parent"] = f.env
        env = self.alloc(Inst("env", env_f))
        loc, glob = local_names(node)
        fr = Frame(env, f.mod, f, loc, glob)
        self.frames.append(fr)
        self.depth += 1
        if f.mod is not None and f.mod.file and not f.mod.file.startswith("<"):
            self.functions[(f.mod.file, f.qual)] = self.functions.get((f.mod.file, f.qual), 0) + 1
        base = self.st.pc
        st0 = self.st
        where = self.where
        sl, self.loops = self.loops, []
        gen = has_yield(node)
        if gen:
            y = self.new_list([], "gen")
            self.setvar(env, "#yields", y)
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body)
                fr.ret.append((self.st, v))
                self.st = None
            else:
                self.exec_block(node.body)
                if self.st is not None:
                    fr.ret.append((self.st, NONE))
        except Unreach:
            self.st = None
        finally:
            self.frames.pop()
            self.depth -= 1
            self.loops = sl
            self.where = where
        if not fr.ret:
            self.st = None
            raise Unreach()
        if len(fr.ret) > 1:
            st, v = self.merge(base, fr.ret)
        else:
            st, v = fr.ret[0]
        if st is not st0:
            if not st.dirty >= st0.dirty:
                st.dirty |= st0.dirty
            st.famdirty |= st0.famdirty
        self.st = st
        if gen:
            v = self.norm(self.obj(env).f["#yields"])
        if env.id not in self.captured:
            self.st.heap.pop(env.id, None)
            self.st.dirty.discard(env.id)
        return self.norm(v)

    def bind(self, f, args, kwargs, kwsegs, env):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        kwargs = dict(kwargs)
        n = len(pos)
        stars = [x for x in args if isinstance(x, tuple)]
        if stars:
            plain = [x for x in args if not isinstance(x, tuple)]
            if a.vararg and len(args) == 1 + len(pos) and args[-1] is stars[0]:
                for p, x in zip(pos, plain):
                    env[p] = x
                env[a.vararg.arg] = SeqV(self.to_segs(stars[0][1]))
                args = plain
            else:
                args = plain
                for p in pos[len(plain):]:
                    if p not in kwargs:
                        env[p] = unk("star argument")
        if len(args) > n and not a.vararg:
            self.sig_error(f, "too many positional arguments")
        for p, x in zip(pos, args):
            env[p] = x
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = Tup(args[n:])
        for p in pos[len(args):] + kwo:
            if p in kwargs:
                env[p] = kwargs.pop(p)
        dup = [p for p in pos[:len(args)] if p in kwargs]
        if dup:
            self.sig_error(f, "multiple values for %s" % dup[0])
        if a.kwarg:
            segs = [("e", K(k), v, None) for k, v in kwargs.items()] + list(kwsegs)
            env[a.kwarg.arg] = self.alloc(DDict(segs))
        elif kwargs:
            self.sig_error(f, "unexpected keyword %s" % sorted(kwargs)[0])
        nd = len(f.defaults)
        for k, p in enumerate(pos):
            if p not in env:
                j = k - (n - nd)
                if kwsegs and p not in kwargs:
                    env[p] = unk("kwargs " + p)
                elif j >= 0:
                    env[p] = f.defaults[j]
                else:
                    self.sig_error(f, "missing argument %s" % p)
        for p in kwo:
            if p not in env:
                if kwsegs and p not in kwargs:
                    env[p] = unk("kwargs " + p)
                elif p in f.kwdefaults:
                    env[p] = f.kwdefaults[p]
                else:
                    self.sig_error(f, "missing keyword argument %s" % p)

    def sig_error(self, f, why):
        self.event("signature", name=f.qual, why=why)
        self.do_raise(self.exc("TypeError", K("%s: %s" % (f.qual, why))))

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=None):
        o = self.norm(o)
        if isinstance(o, IteV):
            return self.branch(o.c, lambda: self.getattr(o.a, name, default), lambda: self.getattr(o.b, name, default))
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, Inst) and isinstance(h.cls, ClassV):
                return self.inst_attr(o, h, name, default)
            return self.models.ext_getattr(self, o, name, default)
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is None:
                if name == "__name__":
                    return K(o.name)
                if name in ("__new__",):
                    return BiM(o, "__new__")
                if name == "__mro__":
                    return Tup(o.mro())
                for b in o.ext_bases():
                    if isinstance(b, Bi):
                        return Bi(b.path + "." + name)
                if default is not None:
                    return default
                self.event("noattr", cls=o.name, name=name)
                self.do_raise(self.exc("AttributeError", K(name)))
            if isinstance(v, Fn) and v.kind == "class":
                return Bound(v, o)
            return v
        if isinstance(o, Mod):
            if o.env is not None:
                v = self.obj(o.env).f.get(name)
                if v is None:
                    sub = self.module(o.name + "." + name)
                    if sub.env is not None:
                        return sub
                    self.event("noattr", cls="module " + o.name, name=name)
                    self.do_raise(self.exc("AttributeError", K(name)))
                return self.norm(v)
            return self.ext_attr(o.name, name)
        if isinstance(o, SuperV):
            s = self.norm(o.self_)
            inst_cls = self.obj(s).cls if isinstance(s, Ref) else s
            mro = inst_cls.mro()
            k = mro.index(o.cls) if o.cls in mro else 0
            for c in mro[k + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(v.fget, [s], {})
                    if isinstance(v, Fn) and v.kind == "func":
                        return Bound(v, s)
                    if isinstance(v, Fn) and v.kind == "class":
                        return Bound(v, inst_cls)
                    return v
            return PyFn(lambda it, a, kw: NONE, "object.%s" % name)
        if isinstance(o, Bi):
            return self.ext_attr(o.path, name)
        return self.models.ext_getattr(self, o, name, default)

    def inst_attr(self, o, h, name, default=None):
        c = h.cls
        v = c.lookup(name)
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        if name in h.f:
            x = self.norm(h.f[name])
            u = self.undef_cond(x)
            if u is not None:
                d = self.decide(u)
                if d is not False:
                    self.event("maybe_noattr", cls=c.name, name=name, cond=u)
                    self.may_raise(u, self.exc("AttributeError", K(name)))
                x = self.strip_undef(self.norm(x))
            return x
        if v is not None:
            if isinstance(v, Fn):
                if v.kind == "func":
                    return Bound(v, o)
                if v.kind == "class":
                    return Bound(v, c)
                return v
            return self.norm(v)
        if name == "__class__":
            return c
        if name == "__dict__":
            return BiM(o, "__dict__")
        ga = c.lookup("__getattr__")
        if ga is not None:
            return self.call(ga, [o, K(name)], {})
        exts = [b for b in c.ext_bases() if isinstance(b, Bi) and b.path not in ("abc.ABC", "builtins.object", "typing.Generic", "typing.Protocol")]
        if exts:
            return unk("attribute %s of external base" % name)
        if name in ("__repr__", "__str__", "__eq__", "__hash__"):
            return PyFn(lambda it, a, kw: unk(name, ty="str"), name)
        if default is not None:
            return default
        self.event("noattr", cls=c.name, name=name)
        self.do_raise(self.exc("AttributeError", K(name)))

    def setattr(self, o, name, v):
        o = self.norm(o)
        if isinstance(o, IteV):
            self.branch(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
            return
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, Inst) and isinstance(h.cls, ClassV):
                p = h.cls.lookup(name)
                if isinstance(p, Prop):
                    if p.fset is None:
                        self.event("noattr", cls=h.cls.name, name=name, set=True)
                        self.do_raise(self.exc("AttributeError", K(name)))
                    self.call(p.fset, [o, v], {})
                    return
                sa = h.cls.lookup("__setattr__")
                if sa is not None:
                    self.call(sa, [o, K(name), v], {})
                    return
                self.put(o, h.with_(name, v))
                return
            self.models.ext_setattr(self, o, name, v)
            return
        if isinstance(o, ClassV):
            o.ns[name] = v
            self.event("classattr", cls=o.name, name=name)
            return
        if isinstance(o, Mod) and o.env is not None:
            self.setvar(o.env, name, v)
            return
        self.models.ext_setattr(self, o, name, v)

    # ------------------------------------------------------------------ items
    def getitem(self, o, i):
        o, i = self.norm(o), self.norm(i)
        if isinstance(o, IteV):
            return self.branch(o.c, lambda: self.getitem(o.a, i), lambda: self.getitem(o.b, i))
        if self.is_src_inst(o):
            f = self.obj(o).cls.lookup("__getitem__")
            if f is not None:
                return self.call(f, [o, i], {})
            self.event("typeerror", what="subscript", name=self.obj(o).cls.name)
            self.do_raise(self.exc("TypeError", K("subscript")))
        return self.norm(self.models.getitem(self, o, i))

    def setitem(self, o, i, v):
        o, i = self.norm(o), self.norm(i)
        if isinstance(o, IteV):
            self.branch(o.c, lambda: self.setitem(o.a, i, v), lambda: self.setitem(o.b, i, v))
            return
        if self.is_src_inst(o):
            f = self.obj(o).cls.lookup("__setitem__")
            if f is not None:
                self.call(f, [o, i, v], {})
                return
        self.models.setitem(self, o, i, v)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        v = self.norm(v)
        if isinstance(v, IteV):
            a, b = self.truth(v.a), self.truth(v.b)
            return ite(v.c, a, b)
        if isinstance(v, Term):
            if isk(v):
                return K(bool(kval(v)))
            if v.op == "ite":
                return ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            if v.ty == "bool":
                return v
            if v.ty in ("int", "real"):
                return not_(eq(v, ZERO))
            if v.ty == "str":
                if v.op == "cat" and any(isk(x) and kval(x) for x in v.args):
                    return TRUE
                return not_(eq(v, K("")))
            if v.ty in ("surface", "path", "func", "mesh", "obj"):
                return TRUE
            if v.ty == "none":
                return FALSE
            return T("truth", v, ty="bool")
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, (LList, DDict)):
                n = self.segs_len(o.segs)
                return not_(eq(n, ZERO))
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                for m in ("__bool__", "__len__"):
                    f = o.cls.lookup(m)
                    if f is not None:
                        return self.truth(self.call(f, [v], {}))
            return TRUE
        if isinstance(v, Tup):
            return K(len(v.items) > 0)
        if isinstance(v, SeqV):
            return not_(eq(self.segs_len(v.segs), ZERO))
        return TRUE
