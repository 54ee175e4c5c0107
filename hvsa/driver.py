"""Specification clients: driver text interpreted abstractly together with the analysed source.

A driver is a small Python text that uses only the public names of the library, builds symbolic
inputs with intrinsics (real, boolean, F, ...) and states obligations (same, check, raises, ...).
"""
import ast
import os
import pickle
import signal
import sys
import textwrap
import time
import traceback

from . import terms as tm
from .intervals import decide
from .terms import Term, K, TRUE, FALSE, NONE, UNDEF, isk, kval, unk, not_, and_, or_, eq, ite, precise
from .values import *
from .interp import Interp, Frame, Unreach, Broken, Event


class Ob:
    __slots__ = ("label", "scenario", "kind", "verdict", "detail", "where", "fns", "group")

    def __init__(self, label, scenario, kind, verdict, detail, where=None, fns=(), group=None):
        self.label, self.scenario, self.kind, self.verdict, self.detail = label, scenario, kind, verdict, detail
        self.where, self.fns, self.group = where, fns, group


class Late(BaseException):
    pass


class Driver:
    """Runs scenarios and collects obligations."""

    def __init__(self, src="/repo/src", seed=1, samples=12):
        self.src, self.seed, self.n = src, seed, samples
        self.obs = []
        self.functions = {}
        self.callsites = set()
        self.loops = self.branches = 0
        self.externals = {}
        self.scenarios = []
        self.stubs = {}
        self.workers = 0
        self.running, self.results = [], []
        self.deadline = time.time() + 780

    # -------------------------------------------------------------- running
    def scenario(self, name, text, allow_raise=False, group=None, setup=None, need=1):
        """Analyse one scenario in a process of its own (scenarios are independent of each other)."""
        if getattr(self, "only", None) and self.only != name:
            return None
        if not self.workers:
            return self.scenario_here(name, text, allow_raise, group, setup)
        while len(self.running) >= self.workers:
            self.reap()
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = self.child(name, text, allow_raise, group, setup)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.running.append((pid, r, len(self.results)))
        self.results.append(None)
        return None

    def child(self, name, text, allow_raise, group, setup):
        self.obs, self.functions, self.callsites, self.loops, self.branches = [], {}, set(), 0, 0
        self.externals, self.scenarios = {}, []
        tm.STATS.update({k: 0 for k in tm.STATS})
        err = None

        def late(*a):
            raise Late()
        signal.signal(signal.SIGALRM, late)
        signal.alarm(max(5, int(self.deadline - time.time())))
        try:
            self.scenario_here(name, text, allow_raise, group, setup)
        except Late:
            self.obs.append(Ob("scenario analysed to its end", name, "time", "unknown", "analysis time exhausted", None, (), group))
        except Exception:
            err = traceback.format_exc()
            self.obs.append(Ob("scenario analysed to its end", name, "engine", "unknown", err.strip().splitlines()[-1], None, (), group))
        signal.alarm(0)
        return (err, [tuple(getattr(o, k) for k in Ob.__slots__) for o in self.obs], self.functions, self.callsites, self.loops,
                self.branches, self.externals, self.scenarios, dict(tm.STATS))

    def reap(self):
        pid, r, k = self.running.pop(0)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        self.results[k] = pickle.loads(data) if data else ("analysis process ended without a result", [], {}, set(), 0, 0, {}, [], {})

    def join(self):
        while self.running:
            self.reap()
        failed = [r[0] for r in self.results if r[0]]
        if 2 * len(failed) > len(self.results):
            raise Broken(failed[0])
        for err, obs, fns, cs, loops, br, ext, sc, st in self.results:
            for o in obs:
                q = Ob(*o[:5])
                q.where, q.fns, q.group = o[5:]
                self.obs.append(q)
            for k, v in fns.items():
                self.functions[k] = self.functions.get(k, 0) + v
            self.callsites |= cs
            self.loops += loops
            self.branches += br
            for k, v in ext.items():
                self.externals[k] = self.externals.get(k, 0) + v
            self.scenarios += sc
            for k, v in st.items():
                tm.STATS[k] = tm.STATS.get(k, 0) + v
        self.results = []

    def scenario_here(self, name, text, allow_raise=False, group=None, setup=None):
        it = Interp(self.src)
        self.it = it
        it.stubs = dict(self.stubs)
        self.name, self.group = name, group
        text = textwrap.dedent(text)
        tree = ast.parse(text, "<%s>" % name)
        n0 = len(self.obs)
        env = it.alloc(Inst("env", {"__name__": K("driver")}))
        m = Mod("driver", env, tree, "<driver %s>" % name)
        it.mods["driver"] = m
        f = dict(it.obj(env).f)
        for k in dir(self):
            if k.startswith("i_"):
                f[k[2:]] = PyFn(getattr(self, k), k[2:])
        it.put(env, Inst("env", f))
        if setup:
            setup(it, env)
        fr = Frame(env, m, None)
        it.frames.append(fr)
        self.mark_fns = {}
        self.freezes = []
        try:
            it.exec_block(tree.body)
        finally:
            it.frames.pop()
        if not allow_raise:
            self.check_raises(it.raises, (), "unexpected exception")
        if len(self.obs) == n0:
            self.obs.append(Ob("scenario states no obligation", name, "vacuous", "unknown", "driver ended early", None, (), group))
        for k, v in it.functions.items():
            self.functions[k] = self.functions.get(k, 0) + v
        self.callsites |= it.callsites
        self.loops += it.nloops
        self.branches += it.nbranches
        for k, v in it.externals.items():
            self.externals[k] = self.externals.get(k, 0) + v
        self.scenarios.append(name)
        return it

    def check_raises(self, raises, base, what):
        """Every exception leaving the driver on a satisfiable, precisely known path is a violation."""
        it = self.it
        for st, e in raises:
            desc = "%s %s%s" % (what, e.cls.name if isinstance(getattr(e, "cls", None), ClassV) else getattr(e, "cls", e),
                                tuple(tm.show(a, 3) if isinstance(a, Term) else a for a in getattr(e, "args", ())))
            v = self.reach(st.pc)
            if v is False:
                continue
            if v is None or self.own_fault(e) or (isinstance(e, ExcV) and any(isinstance(a, Term) and not precise(a) for a in e.args)):
                self.add("no exception", "raise", "unknown", desc, e.where if isinstance(e, ExcV) else None)
            else:
                self.add("no exception", "raise", "different", "%s reached at %s" % (desc, v), e.where if isinstance(e, ExcV) else None)

    def own_fault(self, e):
        """The specification client itself asked for a private attribute or module the source no longer has."""
        if not isinstance(e, ExcV) or "driver" not in str(e.where):
            return False
        name = kval(e.args[0]) if e.args and isk(e.args[0]) else ""
        return e.cls in ("ImportError", "ModuleNotFoundError") or e.cls == "AttributeError" and str(name).startswith("_")

    def reach(self, pc):
        """False: contradictory; None: not decided; str: satisfying interpretation (precise)."""
        cs = []
        for c in pc:
            cs += list(c.args) if c.op == "and" else [c]
        if not tm.satisfiable(tuple(cs)[:10]) or any(decide(c) is False for c in cs):
            return False
        if not all(precise(c) for c in cs):
            return None
        found = None
        for env in tm.interpretations(list(cs), seed=self.seed, n=24, assume=cs):
            found = env
            break
        if found is None:
            # directed search: interpretations of the whole set, filtered
            for env in tm.interpretations(list(cs), seed=self.seed + 7, n=200):
                if tm.BUDGET[0] < 0:
                    break
                try:
                    if all(tm.ev(c, dict(env), {}) for c in cs):
                        found = env
                        break
                except tm.EvalError:
                    continue
        if found is None:
            return None
        return str({str(k.args[0]): tm._r(v) for k, v in sorted(((k, v) for k, v in found.items() if isinstance(k, Term)), key=lambda x: str(x[0].args[0]))[:8]})

    # -------------------------------------------------------------- obligations
    def fns_since(self):
        it = self.it
        out = [k for k, v in it.functions.items() if self.mark_fns.get(k, 0) != v]
        self.mark_fns = dict(it.functions)
        return tuple(out)

    def add(self, label, kind, verdict, detail, where=None):
        fns = self.fns_since()
        self.obs.append(Ob(label, self.name, kind, verdict, detail, where, fns, self.group))

    def differ(self, pc, path, detail, out):
        """A structural difference counts when the path condition is precise and satisfiable."""
        v = self.reach(pc) if pc else "any input"
        out.append((path, "equal" if v is False else "unknown" if v is None else "different", detail))

    def comp(self, a, b, pc, path, out, depth=0):
        """Structural comparison of abstract values under pc; appends (path, verdict, detail)."""
        it = self.it
        if depth > 14:
            out.append((path, "unknown", "too deep"))
            return
        a, b = it.norm(a), it.norm(b)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, IteV):
                for c, z in ((x.c, x.a), (not_(x.c), x.b)):
                    if not tm.satisfiable(pc + (c,)):
                        continue
                    saved = it.st
                    it.st = saved.copy()
                    it.st.pc = pc + (c,)
                    it.st.dirty = set(saved.dirty)
                    if sw:
                        self.comp(y, z, pc + (c,), path, out, depth + 1)
                    else:
                        self.comp(z, y, pc + (c,), path, out, depth + 1)
                    it.st = saved
                return
        if isinstance(a, Term) and isinstance(b, Term):
            v = tm.compare(a, b, assume=pc, seed=self.seed, n=self.n)
            if v.kind == "different" and not all(precise(c) for c in pc):
                v = tm.Verdict("unknown", "imprecise path condition")
            out.append((path, v.kind, v.detail))
            return
        if isinstance(a, Term) and not isk(a) or isinstance(b, Term) and not isk(b):
            t = a if isinstance(a, Term) else b
            out.append((path, "unknown", "value not resolved: %s" % tm.show(t, 4)))
            return
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            out.append((path, "equal", "same object"))
            return
        sa, sb = self.items(a, pc), self.items(b, pc)
        if sa is not None and sb is not None:
            if sa == "?" or sb == "?":
                out.append((path, "unknown", "contents not resolved"))
                return
            ga, gb = [x for x in sa], [x for x in sb]
            if len(ga) != len(gb):
                if any(g is not TRUE for _, g in ga) or any(g is not TRUE for _, g in gb):
                    la = tm.ZERO
                    for _, g in ga:
                        la = tm.add(la, ite(g, tm.ONE, tm.ZERO))
                    lb = tm.ZERO
                    for _, g in gb:
                        lb = tm.add(lb, ite(g, tm.ONE, tm.ZERO))
                    v = tm.compare(la, lb, assume=pc, seed=self.seed, n=self.n)
                    if v.kind == "different":
                        self.differ(pc, path + ".len", v.detail, out)
                    else:
                        out.append((path + ".len", "unknown", v.detail))
                    return
                self.differ(pc, path + ".len", "%d elements instead of %d" % (len(ga), len(gb)), out)
                return
            out.append((path + ".len", "equal", ""))
            for i, ((x, g), (y, h)) in enumerate(zip(ga, gb)):
                if g is not h:
                    self.comp(g, h, pc, "%s[%d].present" % (path, i), out, depth + 1)
                    pc2 = pc + (h,) if not isk(h) else pc
                else:
                    pc2 = pc + (g,) if not isk(g) else pc
                self.comp(x, y, pc2, "%s[%d]" % (path, i), out, depth + 1)
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = it.obj(a), it.obj(b)
            if isinstance(x, DDict) and isinstance(y, DDict):
                self.comp_dict(x, y, pc, path, out, depth)
                return
            if isinstance(x, Inst) and isinstance(y, Inst):
                if x.cls is not y.cls and x.cls != y.cls:
                    if isinstance(x.cls, ClassV) and isinstance(y.cls, ClassV) and (x.cls in y.cls.mro() or y.cls in x.cls.mro()):
                        pass
                    else:
                        self.differ(pc, path, "object of %r instead of %r" % (x.cls, y.cls), out)
                        return
                if x.cls in ("pd.DataFrame", "pd.Series"):
                    for k in ("cols", "index", "data"):
                        if k in y.f:
                            self.comp(x.f.get(k), y.f[k], pc, path + "." + k, out, depth + 1)
                    return
                names = [k for k in y.f if not k.startswith("_")]
                if not names:
                    names = list(y.f)
                for k in names:
                    va = it.getattr(a, k, UNDEF) if isinstance(x.cls, ClassV) else x.f.get(k, UNDEF)
                    vb = it.getattr(b, k, UNDEF) if isinstance(y.cls, ClassV) else y.f.get(k, UNDEF)
                    self.comp(va, vb, pc, path + "." + k, out, depth + 1)
                if not names:
                    out.append((path, "equal", ""))
                return
        if isinstance(a, (Fn, Bound, ClassV, Bi, BiM)) and type(a) is type(b) and a == b:
            out.append((path, "equal", "same function"))
            return
        if isinstance(a, ExcV) and isinstance(b, ExcV):
            if a.cls == b.cls:
                out.append((path, "equal", ""))
            else:
                self.differ(pc, path, "%r / %r" % (a, b), out)
            return
        if (isk(a) and isinstance(b, (Ref, Tup))) or (isk(b) and isinstance(a, (Ref, Tup))):
            self.differ(pc, path, "%s instead of %s" % (self.show(a), self.show(b)), out)
            return
        out.append((path, "unknown", "%s / %s" % (self.show(a), self.show(b))))

    def show(self, v):
        if isinstance(v, Term):
            return tm.show(v, 3)
        if isinstance(v, Ref):
            o = self.it.obj(v)
            return "%s object" % (o.cls.name if isinstance(o, Inst) and isinstance(o.cls, ClassV) else type(o).__name__)
        return repr(v)[:80]

    def items(self, v, pc):
        """[(value, guard)] for sequences, '?' when not resolved, None when not a sequence."""
        it = self.it
        if isinstance(v, Tup):
            return [(x, TRUE) for x in v.items]
        if isinstance(v, Ref) and isinstance(it.obj(v), LList) or isinstance(v, SeqV):
            segs = it.flatten(it.to_segs(v))
            if segs is None:
                return "?"
            out = []
            for s in segs:
                if s[0] != "i":
                    return "?"
                g = s[2] if s[2] is not None else TRUE
                d = tm.entails(pc, g)
                if d is False:
                    continue
                out.append((s[1], TRUE if d else g))
            return out
        return None

    def comp_dict(self, x, y, pc, path, out, depth):
        def entries(d):
            res = []
            for s in d.segs:
                if s[0] != "e":
                    return None
                g = s[3] if s[3] is not None else TRUE
                dd = tm.entails(pc, g)
                if dd is False:
                    continue
                res.append((s[1], s[2], TRUE if dd else g))
            return res
        ea, eb = entries(x), entries(y)
        if ea is None or eb is None:
            out.append((path, "unknown", "dict contents not resolved"))
            return
        keys = [k for k, _, _ in eb]
        for k, v, g in eb:
            m = [(v2, g2) for k2, v2, g2 in ea if k2 == k]
            if not m:
                ok = isk(k) and all(isk(k2) for k2, _, _ in ea)
                q = "%s[%s]" % (path, self.show(k))
                if ok:
                    self.differ(pc + (g,) if not isk(g) else pc, q, "missing key", out)
                else:
                    out.append((q, "unknown", "missing key"))
                continue
            v2, g2 = m[-1]
            if g2 is not g:
                self.comp(g2, g, pc, "%s[%s].present" % (path, self.show(k)), out, depth + 1)
            self.comp(v2, v, pc + (g,) if not isk(g) else pc, "%s[%s]" % (path, self.show(k)), out, depth + 1)
        for k2, _, g2 in ea:
            if k2 not in keys:
                q = "%s[%s]" % (path, self.show(k2))
                if isk(k2) and all(isk(k) for k in keys):
                    self.differ(pc + (g2,) if not isk(g2) else pc, q, "extra key", out)
                else:
                    out.append((q, "unknown", "extra key"))
        out.append((path + ".keys", "equal", ""))

    # -------------------------------------------------------------- intrinsics
    def i_real(self, it, a, kw):
        name = kval(a[0])
        lo = kval(a[1]) if len(a) > 1 else None
        hi = kval(a[2]) if len(a) > 2 else None
        return tm.sym(name, "real", (float(lo), float(hi)) if lo is not None else None)

    def i_integer(self, it, a, kw):
        return tm.sym(kval(a[0]), "int", (int(kval(a[1])), int(kval(a[2]))) if len(a) > 1 else None)

    def i_boolean(self, it, a, kw):
        return tm.sym(kval(a[0]), "bool")

    def i_string(self, it, a, kw):
        return tm.sym(kval(a[0]), "str")

    def i_opaque(self, it, a, kw):
        return tm.sym(kval(a[0]), "any")

    def i_F(self, it, a, kw):
        """Uninterpreted real function."""
        args = []
        for x in a[1:]:
            x = it.norm(x)
            if isinstance(x, Term):
                args.append(x)
            elif isinstance(x, (Ref, Tup)) and it.models.is_seq(it, x):
                try:
                    args += it.models.aflat(it.models.nd(it, x))
                except it.models.Unknown:
                    args.append(unk("F argument"))
            else:
                args.append(unk("F argument"))
        flags = kval(kw["flags"]) if "flags" in kw else ""
        return tm.app(kval(a[0]), *args, ty="real", flags=flags)

    def i_bound(self, it, a, kw):
        """The arguments a function receives by parameter, defaults filled in, without self and **."""
        f = it.norm(a[0])
        node = f.node.args
        env, kws, segs = {}, {}, []
        it.merge_kwargs(it.norm(a[2]), kws, segs)
        it.bind(f, list(it.known_items(a[1])), kws, segs, env)
        skip = {node.kwarg.arg if node.kwarg else None, (node.posonlyargs + node.args)[0].arg}
        return it.new_dict([(tm.K(k), v) for k, v in env.items() if k not in skip])

    def i_arity(self, it, a, kw):
        """Positional arguments a function cannot do without; None if that is not known."""
        f = it.norm(a[0])
        n = 0
        if isinstance(f, Bound):
            f, n = it.norm(f.fn), 1
        if not isinstance(f, Fn):
            return NONE
        return tm.K(len(f.node.args.posonlyargs + f.node.args.args) - len(f.defaults) - n)

    def i_assume(self, it, a, kw):
        c = it.truth(a[0])
        d = it.decide(c)
        if d is False:
            it.st = None
            raise Unreach()
        if d is None:
            it.st.pc = it.st.pc + (c,)
        return NONE

    def i_same(self, it, a, kw):
        label = self.text(a[0])
        out = []
        self.comp(a[1], a[2], it.st.pc, "", out)
        self.fold(label, "same", out)
        return NONE

    def i_same_facets(self, it, a, kw):
        """Two lists of triangles agree up to their order and the vertex each starts from."""
        label = self.text(a[0])
        m = it.models
        try:
            code, spec = [[[m.aflat(p) for p in t] for t in m.nd(it, x)] for x in a[1:3]]
        except (m.Unknown, TypeError):
            self.add(label, "same", "unknown", "facets not resolved")
            return NONE
        flat = [v for fs in (code, spec) for t in fs for p in t for v in p]
        if not all(isinstance(v, Term) for v in flat):
            self.add(label, "same", "unknown", "facets not resolved")
            return NONE
        env = next(iter(tm.interpretations(flat, seed=self.seed, n=1, directed=False, assume=it.st.pc)), None)
        memo = {}

        def sig(t):
            try:
                ps = [tuple(round(float(tm.ev(v, env, memo)), 6) for v in p) for p in t]
            except (tm.EvalError, TypeError):
                return None, 0
            k = min(range(len(ps)), key=lambda i: ps[i:] + ps[:i])
            return tuple(ps[k:] + ps[:k]), k
        pool, rest, ordered = {}, [], []
        for t in code:
            g, k = sig(t) if env is not None else (None, 0)
            pool.setdefault(g, []).append(t[k:] + t[:k])
        for t in spec:
            g, k = sig(t) if env is not None else (None, 0)
            ordered.append((pool[g].pop() if pool.get(g) else None, t[k:] + t[:k]))
        rest = [t for ts in pool.values() for t in ts]
        out = []
        if len(code) != len(spec):
            out.append((".len", "different", "%d facets instead of %d" % (len(code), len(spec))))
        for i, (x, y) in enumerate(ordered):
            if x is None and rest:
                x = rest.pop(0)
            if x is None:
                continue
            for j in range(len(y)):
                if j >= len(x):
                    out.append(("[%d]" % i, "different", "missing vertex"))
                    continue
                for k in range(3):
                    v = tm.compare(x[j][k], y[j][k], assume=it.st.pc, seed=self.seed, n=self.n)
                    out.append(("facet %d vertex %d" % (i, j), v.kind, v.detail))
        if not all(precise(c) for c in it.st.pc):
            out = [(q, "unknown" if k == "different" else k, w) for q, k, w in out]
        self.fold(label, "same", out)
        return NONE

    def i_open_pools(self, it, a, kw):
        """Number of worker pools opened and not released in the current state."""
        n = tm.ZERO
        for o in it.st.heap.values():
            if isinstance(o, Inst) and o.cls == "Pool":
                n = tm.add(n, ite(it.truth(o.f["open"]), tm.ONE, tm.ZERO))
        return n

    def fold(self, label, kind, out):
        bad = [o for o in out if o[1] == "different"]
        un = [o for o in out if o[1] == "unknown"]
        if bad:
            self.add(label, kind, "different", "%s: %s" % (bad[0][0] or "value", bad[0][2]))
        elif un:
            self.add(label, kind, "unknown", "%s: %s" % (un[0][0] or "value", un[0][2]))
        else:
            self.add(label, kind, "equal", "%d comparisons" % len(out))

    def i_check(self, it, a, kw):
        c = it.truth(a[1])
        out = []
        self.comp(c, TRUE, it.st.pc, "", out)
        self.fold(self.text(a[0]), "check", out)
        return NONE

    def i_raises(self, it, a, kw):
        """raises(label, fn, ExcClass...): fn() raises (one of the classes) on every path."""
        label = self.text(a[0])
        s0, saved = it.st, it.raises
        it.st = s0.copy()
        it.st.dirty = set(s0.dirty)
        it.raises = []
        normal = None
        try:
            it.call(a[1], [], {})
            normal = it.st
        except Unreach:
            normal = None
        got = it.raises
        it.raises = saved
        it.st = s0
        if normal is not None:
            v = self.reach(normal.pc)
            if v is None:
                self.add(label, "raises", "unknown", "normal return not excluded")
                return NONE
            if v is not False:
                self.add(label, "raises", "different", "returns normally instead of raising (%s)" % v)
                return NONE
        if not got:
            self.add(label, "raises", "unknown", "no outcome")
            return NONE
        names = [x.path.split(".")[-1] if isinstance(x, Bi) else x.name for x in a[2:]]
        if names:
            from .interp import exc_isa
            for st, e in got:
                ec = e.cls if isinstance(e, ExcV) else None
                if isinstance(ec, ClassV):
                    ok = any(c.name in names for c in ec.mro()) or any(isinstance(b, Bi) and any(exc_isa(b.path.split(".")[-1], n) for n in names) for b in ec.ext_bases())
                else:
                    ok = ec is None or any(exc_isa(ec, n) for n in names)
                if not ok and self.reach(st.pc) is not False:
                    self.add(label, "raises", "different", "raises %s" % ec, e.where)
                    return NONE
        self.add(label, "raises", "equal", "%d raising exits" % len(got))
        return NONE

    def text(self, v):
        v = self.it.norm(v)
        return kval(v) if isk(v) and isinstance(kval(v), str) else tm.show(v, 4)

    def reachable(self, v, skip=(), closures=False):
        """Ids of mutable heap objects reachable from a value."""
        it = self.it
        seen, out = set(), {}
        stack = [(v, "")]
        while stack:
            x, p = stack.pop()
            if isinstance(x, FamRef):
                continue
            if isinstance(x, Ref):
                if x.id in seen or x.id in skip or x.id not in it.st.heap:
                    continue
                seen.add(x.id)
                o = it.obj(x)
                if isinstance(o, Inst) and o.cls == "env":
                    # closures: only captured local environments
                    continue
                out[x.id] = p
                if isinstance(o, Inst):
                    for k, y in o.f.items():
                        stack.append((y, p + "." + k))
                else:
                    for s in o.segs:
                        if s[0] == "i":
                            stack.append((s[1], p + "[]"))
                        elif s[0] == "e":
                            stack.append((s[2], p + "[%s]" % self.show(s[1])))
            elif isinstance(x, Tup):
                for y in x.items:
                    stack.append((y, p + "[]"))
            elif isinstance(x, IteV):
                stack += [(x.a, p), (x.b, p)]
            elif isinstance(x, Bound):
                stack.append((x.self_, p + ".self"))
            elif isinstance(x, Fn) and closures:
                stack += [(y, p + ".default") for y in list(x.defaults) + list(x.kwdefaults.values())]
                if x.env is None and x.mod is not None and (x.mod.file or "<").startswith("<") and x.mod.env is not None:
                    g = it.obj(x.mod.env).f
                    stack += [(g[n.id], p + "." + n.id) for n in ast.walk(x.node) if isinstance(n, ast.Name) and n.id in g]
                if x.env is not None and x.env.id not in seen and x.env.id in it.st.heap:
                    seen.add(x.env.id)
                    for k, y in it.obj(x.env).f.items():
                        if not k.startswith("#"):
                            stack.append((y, p + "." + k))
            elif isinstance(x, ClassV) and closures:
                if id(x) not in seen:
                    seen.add(id(x))
                    out[x] = p
                    stack += [(y, p + "." + k) for k, y in x.ns.items()]
            elif isinstance(x, Mod) and closures:
                if x.env is not None and x.file and id(x) not in seen:
                    seen.add(id(x))
                    out[x.env.id] = p + x.name
                    stack += [(y, p + "." + k) for k, y in it.obj(x.env).f.items() if not k.startswith("#")]
            elif isinstance(x, SeqV):
                for s in x.segs:
                    if s[0] == "i":
                        stack.append((s[1], p + "[]"))
        return out

    def i_disjoint(self, it, a, kw):
        """disjoint(label, result, input...): no mutable object is reachable from both."""
        label = self.text(a[0])
        r = self.reachable(a[1])
        for x in a[2:]:
            q = self.reachable(x)
            common = [i for i in r if i in q]
            if common:
                i = common[0]
                self.add(label, "disjoint", "different", "result%s is the same object as input%s" % (r[i], q[i]))
                return NONE
        self.add(label, "disjoint", "equal", "%d objects" % len(r))
        return NONE

    def i_world(self, it, a, kw):
        """Every module constant, class attribute and default argument of the library."""
        return Tup([m for m in it.mods.values() if isinstance(m, Mod) and m.file and not m.file.startswith("<")])

    def i_snapshot(self, it, a, kw):
        """Record the state of everything reachable from the value."""
        snap = {i: Inst("class", dict(i.ns)) if isinstance(i, ClassV) else it.st.heap[i] for i in self.reachable(Tup(list(a)), closures=True)}
        self.freezes.append(snap)
        return K(len(self.freezes) - 1)

    def i_unchanged(self, it, a, kw):
        """unchanged(label, snapshot, allowed...): no object of the snapshot was modified."""
        label = self.text(a[0])
        snap = self.freezes[kval(a[1])]
        allowed = set()
        for x in a[2:]:
            x = it.norm(x)
            if isinstance(x, Ref):
                allowed.add(x.id)
        out = []
        for i, o in snap.items():
            n = Inst("class", dict(i.ns)) if isinstance(i, ClassV) else it.st.heap.get(i)
            if n is o or i in allowed:
                continue
            self.obj_diff(o, n, out)
        self.fold(label, "unchanged", out or [("", "equal", "")])
        return NONE

    def obj_diff(self, o, n, out):
        it = self.it
        pc = it.st.pc
        if n is None:
            out.append(("", "unknown", "object lost"))
            return
        if isinstance(o, Inst):
            # what a library object keeps for itself is its own affair, unless it is a point
            lib = isinstance(o.cls, ClassV) and o.cls.mod is not None and not (o.cls.mod.file or "<").startswith("<")
            point = isinstance(o.cls, ClassV) and all(isinstance(o.cls.lookup(c), Prop) for c in "xyz")
            for k in o.f:
                if lib and not point and k.startswith("_"):
                    continue
                self.shallow(n.f.get(k, UNDEF), o.f.get(k, UNDEF), pc, "." + k, out)
            return
        if len(o.segs) != len(n.segs):
            out.append((".len", "different", "contents changed"))
            return
        for s, t in zip(n.segs, o.segs):
            if s == t:
                continue
            if s[0] == t[0] == "i" and s[2] is t[2]:
                self.shallow(s[1], t[1], pc, "[]", out)
            elif s[0] == t[0] == "e" and s[1] == t[1] and s[3] is t[3]:
                self.shallow(s[2], t[2], pc, "[%s]" % self.show(s[1]), out)
            else:
                out.append(("[]", "unknown" if any(x[0] not in "ie" for x in (s, t)) else "different", "contents changed"))

    def shallow(self, a, b, pc, path, out):
        if a is b:
            return
        if isinstance(a, Term) and isinstance(b, Term):
            if a is UNDEF or b is UNDEF:
                out.append((path, "different", "attribute added or removed"))
                return
            v = tm.compare(a, b, assume=pc, seed=self.seed, n=self.n)
            out.append((path, v.kind, v.detail))
            return
        try:
            if a == b:
                return
        except Exception:
            pass
        if isinstance(a, IteV) or isinstance(b, IteV):
            it = self.it
            a, b = it.norm(a), it.norm(b)
            if a == b:
                return
            if isinstance(a, IteV) and (a.a == b) != (a.b == b):
                c = a.c if a.a != b else not_(a.c)
                v = self.reach(pc + (c,))
                out.append((path, "equal" if v is False else "unknown" if v is None else "different", "changed when %s" % tm.show(c, 4)))
                return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for x, y in zip(a.items, b.items):
                self.shallow(x, y, pc, path + "[]", out)
            return
        out.append((path, "different", "replaced"))

    def i_events(self, it, a, kw):
        """events(kind, field...): list of tuples of the recorded events (guards relative to now)."""
        kind = kval(a[0])
        fields = [kval(x) for x in a[1:]]
        base = it.st.pc
        segs = []
        for e in it.events[getattr(self, "mark", 0):] if kind in self.marked() else it.events:
            if e.kind != kind:
                continue
            if e.loops:
                segs.append(("u", "event in generic loop"))
                continue
            g = and_(*[c for c in e.pc if c not in base]) if e.pc else TRUE
            d = tm.entails(base, g) if not isk(g) else bool(kval(g))
            if d is False:
                continue
            vals = [self.wrap(e.data.get(k, NONE)) for k in fields]
            segs.append(("i", Tup(vals), None if d else g))
        return it.alloc(LList(segs))

    def marked(self):
        return getattr(self, "mark_kinds", ())

    def i_clear_events(self, it, a, kw):
        it.events = [e for e in it.events if e.kind == "raise"]
        return NONE

    def wrap(self, v):
        it = self.it
        if isinstance(v, (Inst, LList, DDict)):
            return it.alloc(v)
        if isinstance(v, list):
            return it.new_list([self.wrap(x) for x in v])
        if isinstance(v, str):
            return K(v)
        if isinstance(v, dict):
            return it.new_dict([(K(k), self.wrap(x)) for k, x in v.items()])
        if isinstance(v, tuple) and not isinstance(v, Tup):
            return NONE
        return v

    def i_silent(self, it, a, kw):
        """silent(label): no print event is reachable so far (since clear_events)."""
        label = self.text(a[0])
        for e in it.events:
            if e.kind == "print":
                v = self.reach(e.pc)
                if v is False:
                    continue
                if v is None:
                    self.add(label, "silent", "unknown", "output not excluded", e.where)
                else:
                    self.add(label, "silent", "different", "output at %s" % v, e.where)
                return NONE
        self.add(label, "silent", "equal", "")
        return NONE

    def i_provide_csv(self, it, a, kw):
        from . import frames
        cols = it.known_items(a[1])
        rws = [it.known_items(r) for r in it.known_items(a[2])]
        t = frames.frame(it, cols, [K(i) for i in range(len(rws))], [[r[j] for r in rws] for j in range(len(cols))])
        it.csvfiles = list(it.csvfiles) + [(it.norm(a[0]), t)]
        return NONE

    def i_exists(self, it, a, kw):
        it.fsknown = list(it.fsknown) + [it.norm(a[0])]
        return NONE

    def i_element(self, it, a, kw):
        """element(tag, attrib, text, children) -> XML element."""
        return it.alloc(Inst("xml", {"tag": a[0], "attrib": a[1], "text": a[2], "children": a[3]}))

    def i_provide_xml(self, it, a, kw):
        it.xmlfiles = list(it.xmlfiles) + [(it.norm(a[0]), a[1])]
        return NONE

    def i_fail(self, it, a, kw):
        v = self.reach(it.st.pc)
        if v is not False:
            self.add(self.text(a[0]), "fail", "unknown" if v is None else "different", "reached")
        return NONE

    def i_debug(self, it, a, kw):
        for x in a:
            x = it.norm(x)
            print("DEBUG", tm.show(x, 8) if isinstance(x, Term) else x, it.obj(x) if isinstance(x, Ref) else "")
        return NONE

    def i_new(self, it, a, kw):
        """new(cls, field=value...): an instance without running its constructor."""
        return it.alloc(Inst(a[0], dict(kw)))
