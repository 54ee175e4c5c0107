"""Abstract values and heap objects of the analysis."""
from .terms import Term, subst, free, and_, TRUE, K


class Val:
    __slots__ = ()


class Ref(Val):
    """Reference to a heap object."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "@%d" % self.id


class FamRef(Val):
    """Reference to the member of an object family with the given index."""
    __slots__ = ("tid", "idx")

    def __init__(self, tid, idx):
        self.tid, self.idx = tid, idx

    def __eq__(self, o):
        return isinstance(o, FamRef) and o.tid == self.tid and o.idx == self.idx

    def __hash__(self):
        return hash(("fam", self.tid, self.idx))

    def __repr__(self):
        return "@fam%d%r" % (self.tid, self.idx)


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return repr(self.items)


class Fn(Val):
    """A function or lambda of the analysed source together with its environment."""
    __slots__ = ("node", "mod", "env", "name", "defaults", "kwdefaults", "cls", "kind", "qual")

    def __init__(self, node, mod, env, name, defaults, kwdefaults, cls=None, kind="func", qual=""):
        self.node, self.mod, self.env, self.name = node, mod, env, name
        self.defaults, self.kwdefaults, self.cls, self.kind, self.qual = defaults, kwdefaults, cls, kind, qual

    def copy(self, **kw):
        f = Fn(self.node, self.mod, self.env, self.name, self.defaults, self.kwdefaults, self.cls, self.kind, self.qual)
        for k, v in kw.items():
            setattr(f, k, v)
        return f

    def __eq__(self, o):
        return isinstance(o, Fn) and o.node is self.node and o.env == self.env and o.kind == self.kind and o.defaults == self.defaults

    def __hash__(self):
        return hash(("fn", id(self.node), self.kind))

    def __repr__(self):
        return "<fn %s>" % self.qual


class Prop(Val):
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Bound(Val):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn == self.fn and o.self_ == self.self_

    def __hash__(self):
        return hash(("bound", self.fn, self.self_))

    def __repr__(self):
        return "<bound %r of %r>" % (self.fn, self.self_)


class ClassV(Val):
    __slots__ = ("name", "qual", "mod", "bases", "ns", "node", "ext")

    def __init__(self, name, qual, mod, bases, ns, node):
        self.name, self.qual, self.mod, self.bases, self.ns, self.node = name, qual, mod, bases, ns, node

    def mro(self):
        """C3 linearisation over source classes; external bases are skipped."""
        seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassV)] + [[b for b in self.bases if isinstance(b, ClassV)]]
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in r[1:] for r in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, ClassV)]
        return out

    def __repr__(self):
        return "<class %s>" % self.qual


class Mod(Val):
    """A module: source module (env set) or external (path only)."""
    __slots__ = ("name", "env", "tree", "file")

    def __init__(self, name, env=None, tree=None, file=None):
        self.name, self.env, self.tree, self.file = name, env, tree, file

    def __repr__(self):
        return "<module %s>" % self.name


class Bi(Val):
    """An external function, class or object known by its dotted path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Bi) and o.path == self.path

    def __hash__(self):
        return hash(("bi", self.path))

    def __repr__(self):
        return "<%s>" % self.path


class BiM(Val):
    """A builtin method bound to a value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, BiM) and o.obj == self.obj and o.name == self.name

    def __hash__(self):
        return hash(("bim", self.name))

    def __repr__(self):
        return "<%r.%s>" % (self.obj, self.name)


class PyFn(Val):
    """A checker-supplied model function: f(interp, args, kwargs) -> value."""
    __slots__ = ("f", "name")

    def __init__(self, f, name="pyfn"):
        self.f, self.name = f, name

    def __repr__(self):
        return "<model %s>" % self.name


class IteV(Val):
    """Gated choice between non-term values."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, IteV) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash(("itev", self.c))

    def __repr__(self):
        return "ite(%r, %r, %r)" % (self.c, self.a, self.b)


class SeqV(Val):
    """An immutable sequence or view given by segments."""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="seq"):
        self.segs, self.kind = tuple(segs), kind

    def __eq__(self, o):
        return isinstance(o, SeqV) and o.segs == self.segs

    def __hash__(self):
        return hash(("seq", len(self.segs)))

    def __repr__(self):
        return "seq%r" % (self.segs,)


class SliceV(Val):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash(("slice", self.lo, self.hi, self.step))

    def __repr__(self):
        return "slice(%r,%r,%r)" % (self.lo, self.hi, self.step)


class ViewV(Val):
    """View into a store array at an index prefix."""
    __slots__ = ("ref", "idx")

    def __init__(self, ref, idx):
        self.ref, self.idx = ref, tuple(idx)

    def __eq__(self, o):
        return isinstance(o, ViewV) and o.ref == self.ref and o.idx == self.idx

    def __hash__(self):
        return hash(("view", self.ref, self.idx))


class ExcV(Val):
    """An exception instance."""
    __slots__ = ("cls", "args", "where")

    def __init__(self, cls, args=(), where=None):
        self.cls, self.args, self.where = cls, tuple(args), where

    def __repr__(self):
        return "<exc %s>" % (self.cls,)


class SuperV(Val):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


# ------------------------------------------------------------------ heap objects


class Inst:
    """Instance of a source class (cls ClassV), an environment (cls 'env') or an external object."""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, name, v):
        f = dict(self.f)
        f[name] = v
        return Inst(self.cls, f)

    def without(self, name):
        f = dict(self.f)
        f.pop(name, None)
        return Inst(self.cls, f)

    def __repr__(self):
        return "Inst(%r, %r)" % (self.cls, self.f)


class LList:
    """List / array / set contents as segments.

    segments: ('i', value, guard) one element; ('m', var, n, segs) segs repeated for var in
    range(n); ('o', idx, value, guard) overwrite of one element; ('om', var, n, idx, value, guard)
    overwrites; ('u', why) unknown part.
    """
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="list"):
        self.segs, self.kind = tuple(segs), kind

    def __repr__(self):
        return "%s%r" % (self.kind, self.segs)


class DDict:
    """Dict contents: ('e', key, value, guard), ('m', var, n, entries), ('u', why)."""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="dict"):
        self.segs, self.kind = tuple(segs), kind

    def __repr__(self):
        return "dict%r" % (self.segs,)


class Family:
    """Objects allocated once per iteration: obj as a function of params."""
    __slots__ = ("params", "ns", "obj")

    def __init__(self, params, ns, obj):
        self.params, self.ns, self.obj = params, ns, obj


# ------------------------------------------------------------------ mapping over values


def map_val(v, f):
    """Rebuild a value applying f to Terms, Refs and FamRefs inside it."""
    if isinstance(v, Term) or isinstance(v, (Ref, FamRef)):
        return f(v)
    if isinstance(v, Tup):
        return Tup([map_val(x, f) for x in v.items])
    if isinstance(v, IteV):
        return mk_itev(map_val(v.c, f), map_val(v.a, f), map_val(v.b, f))
    if isinstance(v, Bound):
        return Bound(map_val(v.fn, f), map_val(v.self_, f))
    if isinstance(v, BiM):
        return BiM(map_val(v.obj, f), v.name)
    if isinstance(v, Fn):
        if v.env is None:
            return v
        e = f(v.env)
        d = [map_val(x, f) for x in v.defaults] if v.defaults else v.defaults
        return v if e == v.env and d == v.defaults else v.copy(env=e, defaults=d)
    if isinstance(v, SeqV):
        return SeqV(map_segs(v.segs, f), v.kind)
    if isinstance(v, SliceV):
        return SliceV(map_val(v.lo, f), map_val(v.hi, f), map_val(v.step, f))
    if isinstance(v, ViewV):
        return ViewV(map_val(v.ref, f), [map_val(x, f) for x in v.idx])
    if isinstance(v, ExcV):
        return ExcV(v.cls, [map_val(x, f) for x in v.args], v.where)
    return v


def map_segs(segs, f):
    out = []
    for s in segs:
        if s[0] == "i":
            out.append(("i", map_val(s[1], f), f(s[2]) if s[2] is not None else None))
        elif s[0] == "e":
            out.append(("e", map_val(s[1], f), map_val(s[2], f), f(s[3]) if s[3] is not None else None))
        elif s[0] == "m":
            out.append(("m", s[1], map_val(s[2], f), map_segs(s[3], f)))
        elif s[0] == "o":
            out.append(("o", map_val(s[1], f), map_val(s[2], f), f(s[3]) if s[3] is not None else None))
        elif s[0] == "om":
            out.append(("om", s[1], map_val(s[2], f), map_val(s[3], f), map_val(s[4], f), f(s[5]) if s[5] is not None else None))
        else:
            out.append(s)
    return tuple(out)


def map_obj(o, f):
    if isinstance(o, Inst):
        return Inst(o.cls, {k: map_val(v, f) for k, v in o.f.items()})
    if isinstance(o, LList):
        return LList(map_segs(o.segs, f), o.kind)
    if isinstance(o, DDict):
        return DDict(map_segs(o.segs, f), o.kind)
    return o


def mk_itev(c, a, b):
    from .terms import isk, kval, ite
    if isk(c):
        return a if kval(c) else b
    if isinstance(a, Term) and isinstance(b, Term):
        return ite(c, a, b)
    if a == b:
        return a
    return IteV(c, a, b)


def subst_val(v, m):
    memo = {}

    def f(x):
        if isinstance(x, Term):
            return subst(x, m, memo)
        if isinstance(x, FamRef):
            return FamRef(x.tid, tuple(subst(i, m, memo) for i in x.idx))
        return x

    return map_val(v, f)


def subst_segs(segs, m):
    memo = {}

    def f(x):
        if isinstance(x, Term):
            return subst(x, m, memo)
        if isinstance(x, FamRef):
            return FamRef(x.tid, tuple(subst(i, m, memo) for i in x.idx))
        return x

    return map_segs(segs, f)


def subst_obj(o, m):
    memo = {}

    def f(x):
        if isinstance(x, Term):
            return subst(x, m, memo)
        if isinstance(x, FamRef):
            return FamRef(x.tid, tuple(subst(i, m, memo) for i in x.idx))
        return x

    return map_obj(o, f)


def val_free(v):
    """Free term variables in a value (not through the heap)."""
    acc = set()

    def f(x):
        if isinstance(x, Term):
            acc.update(free(x))
        elif isinstance(x, FamRef):
            for i in x.idx:
                acc.update(free(i))
        return x

    map_val(v, f)
    return acc


def guard_segs(segs, c):
    """Add guard c to every element of segs."""
    if c is TRUE:
        return tuple(segs)
    out = []
    for s in segs:
        if s[0] == "i":
            out.append(("i", s[1], c if s[2] is None else and_(s[2], c)))
        elif s[0] == "e":
            out.append(("e", s[1], s[2], c if s[3] is None else and_(s[3], c)))
        elif s[0] == "m":
            out.append(("m", s[1], s[2], guard_segs(s[3], c)))
        elif s[0] == "o":
            out.append(("o", s[1], s[2], c if s[3] is None else and_(s[3], c)))
        elif s[0] == "om":
            out.append(("om", s[1], s[2], s[3], s[4], c if s[5] is None else and_(s[5], c)))
        else:
            out.append(s)
    return tuple(out)
