"""Abstract models of builtins and external libraries (numpy, stl, pandas, os, ...)."""
import os
import re
import functools
import math

from . import terms as tm
from .terms import Term, K, TRUE, FALSE, NONE, UNDEF, NAN, ZERO, ONE, isk, kval, isnum, T, unk, eq, not_, and_, or_, ite, lt, le
from .values import *

CONSTS = {
    "numpy.pi": K(math.pi), "math.pi": K(math.pi), "numpy.nan": NAN, "math.nan": NAN, "numpy.inf": K(math.inf),
    "math.inf": K(math.inf), "numpy.e": K(math.e), "math.e": K(math.e), "os.sep": K("/"),
    "typing.TYPE_CHECKING": FALSE, "numpy.newaxis": NONE, "math.tau": K(2 * math.pi),
}
ALIASES = {"numpy.float": "builtins.float", "multiprocess.Pool": "multiprocess.pool.Pool",
           "multiprocessing.Pool": "multiprocess.pool.Pool", "multiprocessing.pool.Pool": "multiprocess.pool.Pool",
           "stl.Mesh": "stl.mesh.Mesh"}
EXTMODS = {"numpy.linalg", "os.path", "stl.mesh", "xml.etree", "xml.etree.ElementTree", "pymesh.meshio", "scipy.optimize",
           "multiprocess.pool", "multiprocessing.pool", "collections.abc", "pandas.api", "numpy.random", "xml"}

EXT = {}


def ext(*paths):
    def d(f):
        for p in paths:
            EXT[p] = f
        return f
    return d


def _bi(n):
    return Bi("builtins." + n)


BUILTINS = {n: _bi(n) for n in (
    "len range enumerate zip isinstance issubclass getattr setattr hasattr delattr max min sum abs round sorted reversed map filter "
    "print all any str int float bool list dict tuple set frozenset id type callable iter next repr vars object "
    "property staticmethod classmethod super divmod pow slice open hash dir locals globals exit input chr ord format complex bytes").split()}
BUILTINS["NotImplemented"] = _bi("NotImplemented")
BUILTINS["Ellipsis"] = _bi("Ellipsis")
BUILTINS["__name__"] = K("driver")

# ------------------------------------------------------------------ arrays


def is_arr(it, v):
    return isinstance(v, Ref) and isinstance(it.obj(v), LList) and it.obj(v).kind == "arr"


def is_seq(it, v):
    return isinstance(v, (Tup, SeqV)) or (isinstance(v, Ref) and isinstance(it.obj(v), LList))


class Unknown(Exception):
    pass


def nd(it, v, conv=False):
    """Nested python list of Terms for an array-like value of known shape."""
    v = it.norm(v)
    if isinstance(v, Term):
        if v.ty in ("arr",) and v.op != "k":
            raise Unknown("array term")
        return v
    if isinstance(v, (Ref, Tup, SeqV)):
        if isinstance(v, Ref) and isinstance(it.obj(v), Inst):
            o = it.obj(v)
            if o.cls == "pd.Series":
                return [nd(it, x) for x in o.f["data"].items]
            if o.cls == "pd.DataFrame":
                cols = [c.items for c in o.f["data"].items]
                return [[cols[j][i] for j in range(len(cols))] for i in range(len(o.f["index"].items))]
            return v
        items = it.known_items(v)
        if items is None:
            raise Unknown("sequence of unknown shape")
        return [nd(it, x) for x in items]
    if isinstance(v, IteV):
        a, b = nd(it, v.a), nd(it, v.b)
        return _map2(lambda x, y: it.vite(v.c, x, y), a, b)
    return v


def _map2(f, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            raise Unknown("shape")
        return [_map2(f, x, y) for x, y in zip(a, b)]
    if isinstance(a, list) or isinstance(b, list):
        raise Unknown("shape")
    return f(a, b)


def mk(it, x):
    if isinstance(x, list):
        return it.alloc(LList([("i", mk(it, y), None) for y in x], "arr"))
    return x


def depth(x):
    d = 0
    while isinstance(x, list):
        d += 1
        x = x[0] if x else None
    return d


def shape(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        x = x[0] if x else None
    return s


def bcast(f, a, b):
    da, db = depth(a), depth(b)
    if da == 0 and db == 0:
        return f(a, b)
    if da == db:
        if len(a) == len(b):
            return [bcast(f, x, y) for x, y in zip(a, b)]
        if len(a) == 1:
            return [bcast(f, a[0], y) for y in b]
        if len(b) == 1:
            return [bcast(f, x, b[0]) for x in a]
        raise Unknown("broadcast")
    if da > db:
        return [bcast(f, x, b) for x in a]
    return [bcast(f, a, y) for y in b]


def amap(f, x):
    if isinstance(x, list):
        return [amap(f, y) for y in x]
    return f(x)


def aflat(x):
    if isinstance(x, list):
        r = []
        for y in x:
            r += aflat(y)
        return r
    return [x]


def tfun(name):
    """Scalar operation on terms for a dunder name."""
    def isb(a):
        return isinstance(a, Term) and a.ty == "bool"
    return {
        "__add__": tm.add, "__sub__": tm.sub, "__mul__": tm.mul, "__truediv__": tm.div, "__floordiv__": tm.floordiv,
        "__mod__": tm.mod, "__pow__": tm.pow_, "__eq__": eq, "__ne__": lambda a, b: not_(eq(a, b)),
        "__lt__": lt, "__le__": le, "__gt__": lambda a, b: lt(b, a), "__ge__": lambda a, b: le(b, a),
        "__and__": lambda a, b: and_(a, b) if isb(a) and isb(b) else bits("and", a, b),
        "__or__": lambda a, b: or_(a, b) if isb(a) and isb(b) else bits("or", a, b),
        "__xor__": lambda a, b: not_(eq(a, b)) if isb(a) and isb(b) else bits("xor", a, b),
    }[name]


BITS = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "__lshift__": lambda a, b: a << b, "__rshift__": lambda a, b: a >> b}


def bits(op, a, b):
    """Bit operations on constants."""
    if isk(a) and isk(b):
        try:
            x, y = kval(a), kval(b)
            if int(x) == x and int(y) == y and 0 <= y < 64 and not isinstance(x, str):
                return K(BITS[op](int(x), int(y)))
        except (TypeError, ValueError):
            pass
    return unk(op, a, b)


def smap(it, f, v):
    """Element-wise map over a one-dimensional array possibly with mapped segments."""
    def go(segs):
        out = []
        for s in segs:
            if s[0] == "i":
                x = it.norm(s[1])
                out.append(("i", smap(it, f, x) if is_arr(it, x) else f(x), s[2]))
            elif s[0] == "m":
                out.append(("m", s[1], s[2], go(s[3])))
            elif s[0] == "o":
                out.append(("o", s[1], f(s[2]), s[3]))
            elif s[0] == "om":
                out.append(("om", s[1], s[2], s[3], f(s[4]), s[5]))
            else:
                out.append(s)
        return tuple(out)
    return it.alloc(LList(go(it.to_segs(v)), "arr"))


def arr_binop(it, name, a, b):
    f0 = tfun(name)

    def f(x, y):
        if isinstance(x, Term) and isinstance(y, Term) and (name in ("eq", "ne") or not {x.ty, y.ty} & {"str", "none"}):
            return f0(x, y)
        return it.binop_named(name, x, y)
    try:
        return mk(it, bcast(f, nd(it, a), nd(it, b)))
    except Unknown:
        pass
    sa, sb = is_seq(it, a), is_seq(it, b)
    if sa and not sb:
        return smap(it, lambda x: f(x, b), a)
    if sb and not sa:
        return smap(it, lambda y: f(a, y), b)
    if sa and sb:
        x, y = it.to_segs(a), it.to_segs(b)
        r = _zipsegs(it, x, y, f)
        if r is not None:
            return it.alloc(LList(r, "arr"))
    return unk("array op", ty="arr")


def _zipsegs(it, x, y, f):
    if len(x) != len(y):
        return None
    out = []
    for p, q in zip(x, y):
        if p[0] != q[0]:
            return None
        if p[0] == "i":
            if p[2] is not q[2]:
                return None
            out.append(("i", f(it.norm(p[1]), it.norm(q[1])), p[2]))
        elif p[0] == "m" and it.same_count(p[2], q[2]):
            r = _zipsegs(it, p[3], subst_segs(q[3], {q[1]: p[1]}), f)
            if r is None:
                return None
            out.append(("m", p[1], p[2], r))
        else:
            return None
    return tuple(out)


def arr_unop(it, name, v):
    if isinstance(v, Ref) and isinstance(it.obj(v), Inst) and it.obj(v).cls in ("pd.Series", "pd.DataFrame"):
        from . import frames
        return frames.unop(it, name, v)
    f = {"__neg__": tm.neg, "__pos__": lambda x: x, "__invert__": not_}[name]
    if is_arr(it, v):
        try:
            return mk(it, amap(f, nd(it, v)))
        except Unknown:
            return smap(it, f, v)
    return unk("unary " + name)


# ------------------------------------------------------------------ binary operators


def binop(it, name, a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        if name == "__mod__" and a.ty == "str":
            return percent_format(it, a, b)
        if name == "__mul__" and (a.ty == "str" or b.ty == "str"):
            if isk(a) and isk(b):
                return K(kval(a) * kval(b))
            return unk("repeat", a, b, ty="str")
        if name == "__add__" and ((a.ty == "str") != (b.ty == "str")) and a.ty != "any" and b.ty != "any":
            it.event("typeerror", what="operator", name="__add__")
            it.do_raise(it.exc("TypeError", K("str")))
        if (a.ty == "none" or b.ty == "none") and name not in ("__and__", "__or__"):
            it.event("typeerror", what="operator on None", name=name)
            it.do_raise(it.exc("TypeError", K(name)))
        if name in ("__truediv__", "__sub__", "__pow__", "__floordiv__") and (a.ty == "str" or b.ty == "str") and a.op != "unk" and b.op != "unk":
            it.event("typeerror", what="operator on str", name=name)
            it.do_raise(it.exc("TypeError", K(name)))
        if name in ("__lshift__", "__rshift__"):
            return bits(name, a, b)
        if name == "__matmul__":
            return unk(name, a, b)
        if name == "__truediv__" and isnum(b) and kval(b) == 0 and isnum(a):
            it.do_raise(it.exc("ZeroDivisionError"))
        return tfun(name)(a, b)
    for x in (a, b):
        if isinstance(x, Ref) and isinstance(it.obj(x), Inst) and it.obj(x).cls in ("pd.Series", "pd.DataFrame"):
            from . import frames
            return frames.binop(it, name, a, b)
    aa, ab = is_arr(it, a), is_arr(it, b)
    if (aa or ab) and name in ("__matmul__",):
        return np_dot(it, [a, b], {})
    if aa or ab:
        if is_seq(it, a) or is_seq(it, b) or True:
            if (isinstance(a, Term) and a.ty == "none") or (isinstance(b, Term) and b.ty == "none"):
                it.event("typeerror", what="operator on None", name=name)
                it.do_raise(it.exc("TypeError", K(name)))
            return arr_binop(it, name, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and name == "__add__":
        return Tup(a.items + b.items)
    if is_seq(it, a) and is_seq(it, b):
        ka = it.obj(a).kind if isinstance(a, Ref) else "tuple"
        if name == "__add__":
            return it.alloc(LList(tuple(it.to_segs(a)) + tuple(it.to_segs(b)), "list"))
        if ka in ("set", "keys") or (isinstance(b, Ref) and it.obj(b).kind == "set"):
            return set_op(it, name, a, b)
    if name == "__mul__" and (is_seq(it, a) and isinstance(b, Term) or is_seq(it, b) and isinstance(a, Term)):
        s, n = (a, b) if is_seq(it, a) else (b, a)
        if isk(n) and isinstance(kval(n), int):
            segs = tuple(it.to_segs(s)) * kval(n)
            if isinstance(s, Tup):
                return Tup([x[1] for x in segs])
            return it.alloc(LList(segs, "list"))
        v = tm.fresh_bv("m")
        return it.alloc(LList((("m", v, n, tuple(it.to_segs(s))),), "list"))
    if name == "__or__" and all(isinstance(x, Ref) and isinstance(it.obj(x), DDict) for x in (a, b)):
        r = it.alloc(DDict(it.obj(a).segs))
        dict_update(it, r, b)
        return r
    if name == "__mod__" and isinstance(a, Term) and a.ty == "str":
        return percent_format(it, a, b)
    if name == "__or__" and (isinstance(a, (ClassV, Bi)) or isinstance(b, (ClassV, Bi))):
        return a
    if isinstance(a, Term) and a.op in ("unk", "prev", "sym") or isinstance(b, Term) and b.op in ("unk", "prev", "sym"):
        return unk("binop", ty="any")
    known = (Tup, Ref, Fn, ClassV, Bound)
    if (isinstance(a, known) or isinstance(a, Term)) and (isinstance(b, known) or isinstance(b, Term)):
        def ext_inst(x):
            return isinstance(x, Ref) and isinstance(it.obj(x), Inst)
        if not ext_inst(a) and not ext_inst(b):
            it.event("typeerror", what="operator", name=name)
            it.do_raise(it.exc("TypeError", K(name)))
    return unk("binop " + name)


def percent_format(it, a, b):
    if isk(a):
        args = list(b.items) if isinstance(b, Tup) else [b]
        s = kval(a)
        parts, i = [], 0
        import re
        for m in re.finditer(r"%([-+0-9.#]*)([sdfegr%])", s):
            parts.append(K(s[i:m.start()]))
            i = m.end()
            if m.group(2) == "%":
                parts.append(K("%"))
                continue
            if not args:
                return unk("format", ty="str")
            spec = m.group(1) + m.group(2)
            parts.append(fmt(it, args.pop(0), "" if spec in ("s", "d") else spec, -1))
        parts.append(K(s[i:]))
        return tm.cat(*parts)
    return unk("format", ty="str")


def set_items(it, v):
    items = it.known_items(v)
    if items is None:
        return None
    if all(isk(x) or isinstance(x, Tup) for x in items):
        return items
    return None


def set_op(it, name, a, b):
    x, y = set_items(it, a), set_items(it, b)
    if x is None or y is None:
        return it.alloc(LList((("u", "set"),), "set"))
    if name == "__sub__":
        r = [u for u in x if u not in y]
    elif name == "__and__":
        r = [u for u in x if u in y]
    elif name == "__or__":
        r = x + [u for u in y if u not in x]
    else:
        return unk("set op")
    return it.new_list(r, "set")


def dedupe(it, segs):
    out = []
    for s in segs:
        if s[0] == "i" and s[2] is None and any(o[0] == "i" and o[2] is None and definitely_equal(it, o[1], s[1]) for o in out):
            continue
        out.append(s)
    return tuple(out)


def definitely_equal(it, a, b):
    return it.decide(value_eq(it, a, b)) is True


def aug_container(it, name, a, b):
    o = it.obj(a)
    if isinstance(o, DDict):
        if name == "__or__":
            dict_update(it, a, b)
            return a
        return unk("aug dict")
    if o.kind == "arr":
        if a.id in it.readonly:
            it.do_raise(it.exc("ValueError", K("output array is read-only")))
        r = arr_binop(it, name, a, b)
        if isinstance(r, Ref):
            # in place: rows keep their identity
            arr_copy_into(it, a, r)
            return a
        return r
    if o.kind in ("set",):
        r = set_op(it, name, a, b)
        it.put(a, it.obj(r))
        return a
    if name == "__add__":
        it.put(a, LList(o.segs + tuple(it.to_segs(b)), o.kind))
        return a
    if name == "__mul__":
        r = binop(it, name, a, b)
        it.put(a, LList(it.obj(r).segs, o.kind))
        return a
    return unk("aug")


def arr_copy_into(it, dst, src):
    """dst[...] = src keeping the identity of nested rows."""
    d, s = it.obj(dst), it.obj(src)
    di, si = it.known_items(dst), it.known_items(src)
    if di is None or si is None or len(di) != len(si):
        it.put(dst, LList(s.segs, d.kind))
        return
    out = []
    for x, y in zip(di, si):
        if is_arr(it, x) and is_arr(it, y):
            arr_copy_into(it, x, y)
            out.append(("i", x, None))
        else:
            out.append(("i", y, None))
    it.put(dst, LList(out, d.kind))


# ------------------------------------------------------------------ comparison / containment


def value_eq(it, a, b):
    """Boolean term for a == b (non-source objects)."""
    a, b = it.norm(a), it.norm(b)
    if isinstance(a, IteV):
        return ite(a.c, value_eq(it, a.a, b), value_eq(it, a.b, b))
    if isinstance(b, IteV):
        return ite(b.c, value_eq(it, a, b.a), value_eq(it, a, b.b))
    if isinstance(a, Term) and isinstance(b, Term):
        return eq(a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return FALSE
        return and_(*[value_eq(it, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.id == b.id:
            return TRUE
        oa, ob = it.obj(a), it.obj(b)
        if isinstance(oa, Inst) and isinstance(ob, Inst):
            for x, y, o in ((a, b, oa), (b, a, ob)):
                if isinstance(o.cls, ClassV):
                    f = o.cls.lookup("__eq__")
                    if f is not None:
                        return it.truth(it.call(Bound(f, x), [y], {}))
            return FALSE
        if isinstance(oa, LList) and isinstance(ob, LList) and "arr" not in (oa.kind, ob.kind):
            x, y = it.known_items(a), it.known_items(b)
            if x is not None and y is not None:
                if len(x) != len(y):
                    return FALSE
                return and_(*[value_eq(it, p, q) for p, q in zip(x, y)])
        if type(oa) is not type(ob):
            return FALSE
        return unk("eq", ty="bool")
    ta, tb = isinstance(a, Term), isinstance(b, Term)
    if ta and a.op in ("unk", "prev") or tb and b.op in ("unk", "prev"):
        return unk("eq", ty="bool")
    if ta and a.ty == "any" and a.op in ("sym", "app") or tb and b.ty == "any" and b.op in ("sym", "app"):
        return unk("eq", ty="bool")
    if type(a) is type(b):
        return K(a == b)
    return FALSE


def compare(it, name, a, b):
    for x in (a, b):
        if isinstance(x, Ref) and isinstance(it.obj(x), Inst) and it.obj(x).cls in ("pd.Series", "pd.DataFrame"):
            from . import frames
            return frames.binop(it, name, a, b)
    if is_arr(it, a) or is_arr(it, b):
        other = b if is_arr(it, a) else a
        if isinstance(other, Term) and other.ty == "none":
            return FALSE if name == "__eq__" else TRUE
        return arr_binop(it, name, a, b)
    if name == "__eq__":
        return value_eq(it, a, b)
    if name == "__ne__":
        return not_(value_eq(it, a, b))
    if isinstance(a, Term) and isinstance(b, Term):
        if "none" in (a.ty, b.ty):
            it.event("typeerror", what="ordering with None", name=name)
            it.do_raise(it.exc("TypeError", K(name)))
        return tfun(name)(a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and a.items and b.items:
        x, y = a.items[0], b.items[0]
        if isk(x) and isk(y) and kval(x) != kval(y):
            return tfun(name)(x, y)
    return unk("compare", ty="bool")


def contains(it, c, x):
    c = it.norm(c)
    if isinstance(c, IteV):
        return ite(c.c, contains(it, c.a, x), contains(it, c.b, x))
    if isinstance(c, Term):
        if isk(c) and isk(x) and isinstance(kval(c), str):
            return K(kval(x) in kval(c))
        if c.ty == "str" and isk(x) and c.op == "cat" and any(isk(p) and kval(x) in kval(p) for p in c.args):
            return TRUE
        return unk("in", c, x if isinstance(x, Term) else "obj", ty="bool")
    if isinstance(c, Ref):
        o = it.obj(c)
        if isinstance(o, DDict):
            return dict_has(it, o.segs, x)
        if isinstance(o, Inst):
            if isinstance(o.cls, ClassV):
                f = o.cls.lookup("__contains__")
                if f is not None:
                    return it.truth(it.call(Bound(f, c), [x], {}))
            if o.cls == "pd.DataFrame":
                return or_(*[value_eq(it, k, x) for k in o.f["cols"].items])
            if isinstance(o.cls, ClassV) and o.cls.lookup("__iter__") is None:
                return unk("in", ty="bool")
    if isinstance(c, BiM) and c.name == "__dict__":
        return K(isk(x) and kval(x) in it.obj(c.obj).f)
    segs = it.to_segs(c)
    return segs_has(it, segs, x)


def segs_has(it, segs, x):
    cs = []
    for s in it.flatten(segs):
        if s[0] == "i":
            e = value_eq(it, s[1], x)
            cs.append(e if s[2] is None else and_(s[2], e))
        elif s[0] == "m":
            inner = segs_has(it, s[3], x)
            cs.append(T("any", s[1], s[2], inner, ty="bool") if s[1] in tm.free(inner) else and_(lt(ZERO, s[2]), inner))
        else:
            return unk("in", ty="bool")
    return or_(*cs)


def dict_has(it, segs, x):
    cs = []
    for s in segs:
        if s[0] == "e":
            e = value_eq(it, s[1], x)
            cs.append(e if s[3] is None else and_(s[3], e))
        elif s[0] == "m":
            inner = dict_has(it, s[3], x)
            cs.append(T("any", s[1], s[2], inner, ty="bool") if s[1] in tm.free(inner) else and_(lt(ZERO, s[2]), inner))
        else:
            return unk("in", ty="bool")
    return or_(*cs)


# ------------------------------------------------------------------ sequences


def to_segs(it, v):
    if isinstance(v, Tup):
        return tuple(("i", x, None) for x in v.items)
    if isinstance(v, SeqV):
        return v.segs
    if isinstance(v, Ref):
        o = it.obj(v)
        if isinstance(o, LList):
            return it.flatten(o.segs) if any(s[0] in ("o",) for s in o.segs) else o.segs
        if isinstance(o, DDict):
            return keys_segs(o.segs)
        if isinstance(o, Inst):
            if isinstance(o.cls, ClassV):
                f = o.cls.lookup("__iter__")
                if f is not None:
                    return it.to_segs(it.call(Bound(f, v), [], {}))
                g = o.cls.lookup("__getitem__")
                n = o.cls.lookup("__len__")
                if g is not None and n is not None:
                    ln = it.call(Bound(n, v), [], {})
                    if isk(ln):
                        return tuple(("i", it.call(Bound(g, v), [K(j)], {}), None) for j in range(kval(ln)))
                it.event("typeerror", what="not iterable", name=o.cls.name)
                it.do_raise(it.exc("TypeError", K("not iterable")))
            if o.cls == "pd.DataFrame":
                return tuple(("i", c, None) for c in o.f["cols"].items)
            if o.cls == "pd.Series":
                return tuple(("i", x, g if g is not TRUE else None) for x, g in zip(o.f["data"].items, o.f["guards"].items))
            if o.cls == "iter":
                return it.to_segs(o.f["seq"])
            if o.cls == "stl.data":
                return it.to_segs(o.f["vectors"])
            if o.cls == "xml":
                return it.to_segs(o.f["children"])
        return (("u", "iter"),)
    if isinstance(v, Term):
        if isk(v) and isinstance(kval(v), str):
            return tuple(("i", K(c), None) for c in kval(v))
        if v.ty == "none" or isnum(v) or v.ty in ("real", "int", "bool"):
            it.event("typeerror", what="not iterable", name=str(v)[:40])
            it.do_raise(it.exc("TypeError", K("not iterable")))
        if v.ty == "vec3":
            return tuple(("i", tm.fn("index", v, K(j)), None) for j in range(3))
        return (("u", "iterate %s" % tm.show(v, 2)),)
    if isinstance(v, BiM) and v.name == "__dict__":
        return tuple(("i", K(k), None) for k in it.obj(v.obj).f)
    return (("u", "iter"),)


def keys_segs(segs):
    out = []
    for s in segs:
        if s[0] == "e":
            out.append(("i", s[1], s[3]))
        elif s[0] == "m":
            out.append(("m", s[1], s[2], keys_segs(s[3])))
        else:
            out.append(s)
    return tuple(out)


def vals_segs(segs, pairs=False):
    out = []
    for s in segs:
        if s[0] == "e":
            out.append(("i", Tup([s[1], s[2]]) if pairs else s[2], s[3]))
        elif s[0] == "m":
            out.append(("m", s[1], s[2], vals_segs(s[3], pairs)))
        else:
            out.append(s)
    return tuple(out)


# ------------------------------------------------------------------ dicts


def dict_lookup(it, segs, key, default=None):
    """(value, missing-condition)"""
    val, miss = None, TRUE
    for s in reversed(segs):
        if s[0] == "e":
            c = value_eq(it, s[1], key)
            if s[3] is not None:
                c = and_(s[3], c)
            d = it.decide(c)
            if d is False:
                continue
            if d is True:
                c = TRUE
            if val is None:
                val, miss = s[2], not_(c)
            else:
                # earlier entries are shadowed by later ones
                val = it.vite(not_(miss), val, s[2])
                miss = and_(miss, not_(c))
            if d is True:
                return val, FALSE
        elif s[0] == "m":
            ent = [e for e in s[3] if e[0] == "e"]
            hit = None
            for e in ent:
                iv = _index_of(it, e[1], key, s[1])
                if iv is not None:
                    hit = subst_val(e[2], {s[1]: iv})
            if hit is not None:
                return (hit if val is None else it.vite(not_(miss), val, hit)), FALSE
            return unk("dict lookup"), unk("dict missing", ty="bool")
        else:
            return unk("dict lookup"), unk("dict missing", ty="bool")
    return val, miss


def _index_of(it, kexpr, key, var):
    """Value of var for which kexpr == key, by one-level matching."""
    if kexpr is var:
        return key
    if isinstance(kexpr, Term) and isinstance(key, Term) and kexpr.op == key.op and len(kexpr.args) == len(key.args):
        found = None
        for a, b in zip(kexpr.args, key.args):
            if a is b:
                continue
            if isinstance(a, Term) and isinstance(b, Term):
                r = _index_of(it, a, b, var)
                if r is None or (found is not None and found is not r):
                    return None
                found = r
            else:
                return None
        return found
    return None


def dict_get(it, ref_or_segs, key, default=None):
    segs = it.obj(ref_or_segs).segs if isinstance(ref_or_segs, Ref) else ref_or_segs
    v, miss = dict_lookup(it, segs, key)
    if default is not None:
        if v is None:
            return default
        d = it.decide(miss)
        if d is False:
            return v
        return it.vite(miss, default, v)
    if v is None:
        it.do_raise(it.exc("KeyError", key if isinstance(key, (Term, Tup)) else K("?")))
    if miss is not FALSE:
        it.may_raise(miss, it.exc("KeyError", key if isinstance(key, (Term, Tup)) else K("?")))
    return it.norm(v)


def dict_set(it, ref, key, v, guard=None):
    o = it.obj(ref)
    segs = list(o.segs)
    for j, s in enumerate(segs):
        if s[0] == "e":
            c = value_eq(it, s[1], key)
            d = it.decide(c)
            if d is False:
                continue
            if d is True:
                nv = v if guard is None else it.vite(guard, v, s[2])
                if s[3] is None or (guard is not None and s[3] is guard):
                    segs[j] = ("e", s[1], nv, s[3])
                elif guard is None:
                    segs[j] = ("e", s[1], v, None)
                else:
                    segs[j] = ("e", s[1], nv, or_(s[3], guard))
                it.put(ref, DDict(segs, o.kind))
                return
    segs.append(("e", key, v, guard))
    it.put(ref, DDict(segs, o.kind))


def dict_update(it, ref, v):
    v = it.norm(v)
    if isinstance(v, IteV):
        it.branch(v.c, lambda: dict_update(it, ref, v.a), lambda: dict_update(it, ref, v.b))
        return
    if isinstance(v, Ref) and isinstance(it.obj(v), DDict):
        segs = it.obj(v).segs
    elif isinstance(v, BiM) and v.name == "__dict__":
        segs = tuple(("e", K(k), x, None) for k, x in it.obj(v.obj).f.items())
    else:
        segs = []
        for s in it.to_segs(v):
            if s[0] == "i":
                p = it.unpack(s[1], 2)
                segs.append(("e", p[0], p[1], s[2]))
            else:
                segs.append(("u", "update"))
    for s in segs:
        if s[0] == "e":
            dict_set(it, ref, s[1], s[2], s[3])
        else:
            o = it.obj(ref)
            it.put(ref, DDict(o.segs + (s,), o.kind))


# ------------------------------------------------------------------ items


def norm_index(it, o, i):
    return i


def getitem(it, o, i):
    if isinstance(i, IteV):
        return it.branch(i.c, lambda: getitem(it, o, it.norm(i.a)), lambda: getitem(it, o, it.norm(i.b)))
    if isinstance(o, Ref):
        h = it.obj(o)
        if isinstance(h, DDict):
            return dict_get(it, o, i)
        if isinstance(h, Inst):
            if h.cls in ("pd.DataFrame", "pd.Series", "pd.iloc", "pd.loc"):
                from . import frames
                return frames.getitem(it, o, i)
            if h.cls == "xml":
                return getitem(it, h.f["children"], i)
            if h.cls == "stl.data":
                if isk(i) and kval(i) == "vectors":
                    return h.f["vectors"]
            if h.cls == "stl.Mesh":
                return getitem(it, mesh_vectors(it, o), i)
            return unk("getitem of %s" % (h.cls,))
        return seq_get(it, o, i)
    if isinstance(o, (Tup, SeqV)):
        return seq_get(it, o, i)
    if isinstance(o, BiM) and o.name == "__dict__":
        if isk(i):
            return it.getattr(o.obj, kval(i))
    if isinstance(o, Term):
        if isk(o) and isinstance(kval(o), str):
            if isk(i) and isinstance(kval(i), int):
                try:
                    return K(kval(o)[kval(i)])
                except IndexError:
                    it.do_raise(it.exc("IndexError"))
            if isinstance(i, SliceV):
                b = [kval(x) if isk(x) else "?" for x in (i.lo, i.hi, i.step)]
                if "?" not in b:
                    return K(kval(o)[slice(*b)])
        if o.ty == "none":
            it.event("typeerror", what="subscript of None", name="None")
            it.do_raise(it.exc("TypeError", K("subscript")))
        if o.ty in ("vec3", "mat3") and isk(i):
            return tm.fn("index", o, i, ty="real" if o.ty == "vec3" else "vec3")
        if o.op == "app" or o.op == "sym":
            if isinstance(i, Term):
                return tm.app("item", o, i, ty="any")
        return unk("getitem", o)
    return unk("getitem")


def _const_slice(i):
    b = []
    for x in (i.lo, i.hi, i.step):
        if isk(x) and (kval(x) is None or isinstance(kval(x), int)):
            b.append(kval(x))
        elif isk(x) and isinstance(kval(x), float) and kval(x) == int(kval(x)):
            b.append(int(kval(x)))
        else:
            return None
    return slice(*b)


def seq_get(it, o, i):
    kind = it.obj(o).kind if isinstance(o, Ref) else ("tuple" if isinstance(o, Tup) else "list")
    if isinstance(i, Tup) and kind == "arr":
        return arr_index(it, o, list(i.items))
    if isinstance(i, SliceV):
        segs = it.flatten(it.to_segs(o))
        sl = _const_slice(i)
        if sl is not None and all(s[0] == "i" and s[2] is None for s in segs):
            r = segs[sl]
        elif sl is not None:
            r = slice_segs(it, segs, sl)
            if r is None:
                return it.alloc(LList((("u", "slice"),), kind))
        else:
            return it.alloc(LList((("u", "slice"),), kind))
        if isinstance(o, Tup):
            return Tup([s[1] for s in r]) if all(s[0] == "i" and s[2] is None for s in r) else SeqV(r)
        return it.alloc(LList(r, kind))
    if kind == "arr" and is_seq(it, i):
        return fancy(it, o, i)
    if kind in ("set", "gen"):
        it.event("typeerror", what="subscript", name=kind)
        it.do_raise(it.exc("TypeError", K("subscript")))
    if isinstance(i, Bi) and i.path == "builtins.Ellipsis":
        return o
    if not isinstance(i, Term):
        return unk("index")
    if i.ty in ("real",) and not isk(i):
        pass
    if isk(i) and kval(i) is None and kind == "arr":
        return it.alloc(LList([("i", o, None)], "arr"))
    if (i.ty in ("str", "none") or (isk(i) and isinstance(kval(i), float))) and kind != "arr":
        it.event("typeerror", what="index", name=str(i))
        it.do_raise(it.exc("TypeError", K("index")))
    segs = it.flatten(it.to_segs(o))
    return index_segs(it, segs, i)


def slice_segs(it, segs, sl):
    """Constant slices over segment lists with leading or trailing items."""
    if sl.step not in (None, 1):
        if sl.step == -1 and sl.start is None and sl.stop is None:
            return tuple(reverse_seg(s) for s in reversed(segs))
        return None
    lo, hi = sl.start or 0, sl.stop
    out = list(segs)
    while lo > 0:
        if out and out[0][0] == "i" and out[0][2] is None:
            out.pop(0)
            lo -= 1
        elif out and out[0][0] == "m" and len(out[0][3]) == 1 and out[0][3][0][0] == "i" and out[0][3][0][2] is None:
            s = out[0]
            out[0] = ("m", s[1], tm.sub(s[2], K(lo)), subst_segs(s[3], {s[1]: tm.add(s[1], K(lo))}))
            lo = 0
        else:
            return None
    if lo < 0:
        return None
    if hi is not None:
        if hi >= 0:
            return None
        n = -hi
        while n > 0:
            if out and out[-1][0] == "i" and out[-1][2] is None:
                out.pop()
                n -= 1
            elif out and out[-1][0] == "m" and len(out[-1][3]) == 1 and out[-1][3][0][0] == "i" and out[-1][3][0][2] is None:
                s = out[-1]
                out[-1] = ("m", s[1], tm.sub(s[2], K(n)), s[3])
                n = 0
            else:
                return None
    return tuple(out)


def reverse_seg(s):
    if s[0] == "m":
        return ("m", s[1], s[2], subst_segs(tuple(reverse_seg(x) for x in reversed(s[3])), {s[1]: tm.sub(tm.sub(s[2], ONE), s[1])}))
    return s


def index_segs(it, segs, i):
    n = None
    if all(s[0] == "i" and s[2] is None for s in segs):
        n = len(segs)
        if isk(i):
            k = kval(i)
            if isinstance(k, bool):
                k = int(k)
            if not isinstance(k, int):
                if isinstance(k, float) and k == int(k):
                    k = int(k)
                else:
                    return unk("index")
            if -n <= k < n:
                return it.norm(segs[k][1])
            it.event("index", index=k, n=n)
            it.do_raise(it.exc("IndexError"))
        if n == 0:
            it.do_raise(it.exc("IndexError"))
        # symbolic index into a known sequence
        v = it.norm(segs[-1][1])
        for k in range(n - 2, -1, -1):
            c = or_(eq(i, K(k)), eq(i, K(k - n)))
            v = it.vite(c, segs[k][1], v)
        v = it.norm(v)
        inb = and_(le(K(-n), i), lt(i, K(n)))
        if it.decide(inb) is None and i.ty == "int":
            it.may_raise(not_(inb), it.exc("IndexError"))
        return v
    if len(segs) == 1 and segs[0][0] == "m" and len(segs[0][3]) == 1 and segs[0][3][0][0] == "i" and segs[0][3][0][2] is None:
        s = segs[0]
        j = i
        if isk(i) and isinstance(kval(i), int) and kval(i) < 0:
            j = tm.add(s[2], i)
        return it.norm(subst_val(s[3][0][1], {s[1]: j}))
    # leading known items
    if isk(i) and isinstance(kval(i), int):
        k = kval(i)
        if k >= 0:
            for q, s in enumerate(segs):
                if s[0] == "i" and s[2] is None:
                    if k == 0:
                        return it.norm(s[1])
                    k -= 1
                elif s[0] == "m" and len(s[3]) == 1 and s[3][0][0] == "i" and s[3][0][2] is None:
                    if it.decide(lt(K(k), s[2])) is True:
                        return it.norm(subst_val(s[3][0][1], {s[1]: K(k)}))
                    break
                elif s[0] == "i" and s[2] is not None:
                    # guarded element: present or not
                    rest = segs[q + 1:]
                    g = s[2]
                    sv = s[1]

                    def yes(k=k):
                        return index_segs(it, (("i", sv, None),) + tuple(rest), K(k))

                    def no(k=k):
                        return index_segs(it, tuple(rest), K(k))
                    return it.branch(g, yes, no)
                else:
                    break
            else:
                it.do_raise(it.exc("IndexError"))
        else:
            k = -k - 1
            for s in reversed(segs):
                if s[0] == "i" and s[2] is None:
                    if k == 0:
                        return it.norm(s[1])
                    k -= 1
                elif s[0] == "m" and len(s[3]) == 1 and s[3][0][0] == "i" and s[3][0][2] is None:
                    return it.norm(subst_val(s[3][0][1], {s[1]: tm.sub(s[2], K(k + 1))}))
                else:
                    break
    else:
        # items followed by one map: l[i] for i >= number of items or generic
        pre = []
        for s in segs:
            if s[0] == "i" and s[2] is None:
                pre.append(s)
            else:
                break
        rest = segs[len(pre):]
        if len(rest) == 1 and rest[0][0] == "m" and len(rest[0][3]) == 1 and rest[0][3][0][0] == "i" and rest[0][3][0][2] is None:
            s = rest[0]
            v = subst_val(s[3][0][1], {s[1]: tm.sub(i, K(len(pre)))})
            for k in range(len(pre) - 1, -1, -1):
                v = it.vite(eq(i, K(k)), pre[k][1], v)
            return it.norm(v)
    return unk("index of partly known sequence")


def arr_index(it, o, idx):
    """a[i, j, ...] with ints, slices, sequences."""
    idx = [it.norm(x) for x in idx]
    if any(isinstance(x, Bi) for x in idx):
        x = [y for y in idx if not isinstance(y, Bi)]
        if len(x) < len(idx):
            try:
                d = depth(nd(it, o))
            except Unknown:
                return unk("ellipsis")
            k = [j for j, y in enumerate(idx) if isinstance(y, Bi)][0]
            idx = idx[:k] + [SliceV(NONE, NONE, NONE)] * (d - len(x)) + idx[k + 1:]
    if not idx:
        return o
    i, rest = idx[0], idx[1:]
    if sum(is_seq(it, x) for x in idx) > 1:
        return unk("index arrays")
    if i is NONE:
        return it.new_list([arr_index(it, o, rest)], "arr")
    if isinstance(i, SliceV) or is_seq(it, i):
        r = it.getitem(o, i)
        if not rest:
            return r
        items = it.known_items(r)
        if items is None:
            if isinstance(r, Ref):
                return smap_rows(it, r, rest)
            return unk("index")
        return it.new_list([arr_index(it, x, rest) for x in items], "arr")
    r = it.getitem(o, i)
    if rest:
        if not isinstance(r, Ref):
            return unk("index")
        return arr_index(it, r, rest)
    return r


def smap_rows(it, r, rest):
    return it.alloc(LList((("u", "rows"),), "arr"))


def fancy(it, o, i):
    idx = it.known_items(i)
    items = it.known_items(o)
    if idx is None or items is None:
        return it.alloc(LList((("u", "fancy index"),), "arr"))
    if idx and all(isinstance(x, Term) and x.ty == "bool" for x in idx) and len(idx) == len(items):
        segs = []
        for x, c in zip(items, idx):
            d = it.decide(c)
            if d is False:
                continue
            segs.append(("i", x, None if d is True else c))
        return it.alloc(LList(segs, "arr"))
    return it.new_list([seq_get(it, o, x) for x in idx], "arr")


def setitem(it, o, i, v):
    if isinstance(i, IteV):
        it.branch(i.c, lambda: setitem(it, o, it.norm(i.a), v), lambda: setitem(it, o, it.norm(i.b), v))
        return
    if isinstance(o, Ref):
        h = it.obj(o)
        if isinstance(h, DDict):
            dict_set(it, o, i, v)
            return
        if isinstance(h, LList):
            if o.id in it.readonly:
                it.do_raise(it.exc("ValueError", K("assignment destination is read-only")))
            list_set(it, o, h, i, v)
            return
        if isinstance(h, Inst) and h.cls == "stl.Mesh":
            setitem(it, mesh_vectors(it, o), i, v)
            return
        if isinstance(h, Inst) and h.cls in ("pd.DataFrame", "pd.Series", "pd.iloc", "pd.loc"):
            from . import frames
            frames.setitem(it, o, i, v)
            return
    if isinstance(o, BiM) and o.name == "__dict__" and isk(i):
        it.setattr(o.obj, kval(i), v)
        return
    if isinstance(o, Tup) or (isinstance(o, Term) and o.ty in ("str", "none", "real", "int")):
        it.event("typeerror", what="item assignment", name=str(o)[:40])
        it.do_raise(it.exc("TypeError", K("item assignment")))
    it.event("setitem", obj=o, index=i, value=v)


def list_set(it, o, h, i, v):
    if isinstance(i, Tup) and h.kind == "arr":
        arr_set(it, o, list(i.items), v)
        return
    if isinstance(i, SliceV) or is_seq(it, i) or (isinstance(i, Bi) and i.path.endswith("Ellipsis")):
        if h.kind == "arr":
            arr_set(it, o, [i], v)
            return
        sl = _const_slice(i) if isinstance(i, SliceV) else None
        segs = it.flatten(h.segs)
        if sl is not None and all(s[0] == "i" and s[2] is None for s in segs):
            items = list(segs)
            items[sl] = list(it.to_segs(v))
            it.put(o, LList(items, h.kind))
            return
        it.put(o, LList((("u", "slice store"),), h.kind))
        return
    segs = it.flatten(h.segs)
    plain = all(s[0] == "i" and s[2] is None for s in segs)
    if plain and isk(i) and isinstance(kval(i), (int, float)):
        k = int(kval(i))
        n = len(segs)
        if not -n <= k < n:
            it.event("index", index=k, n=n)
            it.do_raise(it.exc("IndexError"))
        old = it.norm(segs[k][1])
        if h.kind == "arr" and is_arr(it, old):
            assign_into(it, old, v)
            return
        items = list(segs)
        items[k] = ("i", v, None)
        it.put(o, LList(items, h.kind))
        return
    if plain and isinstance(i, Term):
        items = []
        for k, s in enumerate(segs):
            c = or_(eq(i, K(k)), eq(i, K(k - len(segs))))
            old = it.norm(s[1])
            if h.kind == "arr" and is_arr(it, old):
                def st(old=old):
                    assign_into(it, old, v)
                it.branch(c, st, lambda: None)
                items.append(s)
            else:
                items.append(("i", it.vite(c, v, s[1]), None))
        it.put(o, LList(items, h.kind))
        return
    it.put(o, LList(h.segs + (("o", i, v, None),), h.kind))


def assign_into(it, row, v):
    """row[...] = v with broadcasting."""
    try:
        d = nd(it, row)
        s = nd(it, v)
        r = bcast(lambda x, y: y, d, s)
        if shape(r) != shape(d):
            it.event("typeerror", what="shape", name="store")
            it.do_raise(it.exc("ValueError", K("could not broadcast")))
        arr_copy_into(it, row, mk(it, r))
    except Unknown:
        it.put(row, LList((("u", "store"),), "arr"))


def arr_set(it, o, idx, v):
    """o[idx...] = v for arrays."""
    idx = [it.norm(x) for x in idx]
    if not idx:
        assign_into(it, o, v)
        return
    i, rest = idx[0], idx[1:]
    if isinstance(i, Bi):
        assign_into(it, o, v)
        return
    items = it.known_items(o)
    if isinstance(i, SliceV):
        sl = _const_slice(i)
        if items is None or sl is None:
            it.put(o, LList((("u", "store"),), "arr"))
            return
        pos = list(range(len(items)))[sl]
        vs = None
        vn = v
        if is_seq(it, v):
            try:
                nv = nd(it, v)
            except Unknown:
                it.put(o, LList((("u", "store"),), "arr"))
                return
            # leading dimension consumed by this slice?
            need = 1 + sum(1 for x in rest if isinstance(x, SliceV)) + max(0, depth(nd(it, items[pos[0]])) - len(rest) if pos else 0)
            if depth(nv) >= need and len(nv) == len(pos):
                vs = [mk(it, x) for x in nv]
            elif depth(nv) >= need and len(nv) == 1:
                vs = [mk(it, nv[0])] * len(pos)
            elif depth(nv) >= need:
                it.do_raise(it.exc("ValueError", K("could not broadcast")))
        for j, p in enumerate(pos):
            x = vs[j] if vs is not None else vn
            if rest or is_arr(it, items[p]):
                arr_set(it, items[p], rest, x)
            else:
                list_set(it, o, it.obj(o), K(p), x)
        return
    if is_seq(it, i):
        ks = it.known_items(i)
        if ks is None or items is None:
            it.put(o, LList((("u", "store"),), "arr"))
            return
        if ks and all(isinstance(x, Term) and x.ty == "bool" for x in ks) and len(ks) == len(items):
            for p, c in enumerate(ks):
                def st(p=p):
                    arr_set(it, it.known_items(o)[p], rest, v) if is_arr(it, items[p]) else list_set(it, o, it.obj(o), K(p), v)
                d = it.decide(c)
                if d is True:
                    st()
                elif d is None:
                    it.branch(c, st, lambda: None)
            return
        for j, k in enumerate(ks):
            x = v
            if is_seq(it, v):
                xs = it.known_items(v)
                if xs is not None and len(xs) == len(ks):
                    x = xs[j]
            arr_set(it, o, [k] + rest, x)
        return
    if rest:
        r = it.getitem(o, i)
        if isinstance(r, Ref):
            arr_set(it, r, rest, v)
        return
    list_set(it, o, it.obj(o), i, v)


def delitem(it, o, i):
    o, i = it.norm(o), it.norm(i)
    if isinstance(o, Ref):
        h = it.obj(o)
        if isinstance(h, DDict):
            out, done = [], False
            for s in h.segs:
                if s[0] == "e":
                    d = it.decide(value_eq(it, s[1], i))
                    if d is True:
                        done = True
                        continue
                    if d is None:
                        out.append(("u", "del"))
                        done = True
                        continue
                out.append(s)
            if not done and all(s[0] == "e" for s in h.segs):
                it.do_raise(it.exc("KeyError"))
            it.put(o, DDict(out, h.kind))
            return
        if isinstance(h, LList):
            segs = list(it.flatten(h.segs))
            if isk(i) and isinstance(kval(i), int) and all(s[0] == "i" and s[2] is None for s in segs):
                if not -len(segs) <= kval(i) < len(segs):
                    it.do_raise(it.exc("IndexError"))
                del segs[kval(i)]
                it.put(o, LList(segs, h.kind))
                return
            if isinstance(i, Term) and all(s[0] == "i" and s[2] is None for s in segs):
                it.put(o, LList([("i", s[1], not_(eq(i, K(k)))) for k, s in enumerate(segs)], h.kind))
                return
            it.put(o, LList((("u", "del"),), h.kind))


# ------------------------------------------------------------------ strings


def fmt(it, x, spec="", conv=-1):
    x = it.norm(x)
    if isinstance(x, IteV):
        return it.branch(x.c, lambda: fmt(it, x.a, spec, conv), lambda: fmt(it, x.b, spec, conv))
    if isinstance(x, Term):
        if x.op == "unk" or x.op == "undef":
            return unk("fmt", x, ty="str")
        if spec and x.ty in ("none", "str") and any(c in spec for c in "efgd%") and not isk(x):
            return unk("fmt", x, ty="str")
        if isk(x) and spec:
            try:
                format(kval(x), spec)
            except (ValueError, TypeError):
                it.event("typeerror", what="format", name=spec)
                it.do_raise(it.exc("TypeError", K("format")))
        return tm.fmt(x, spec, conv)
    if it.is_src_inst(x):
        o = it.obj(x)
        for m in (("__repr__",) if conv == 114 else ("__str__", "__repr__")):
            f = o.cls.lookup(m)
            if f is not None:
                return it.call(f, [x], {})
        return K("<%s object>" % o.cls.name)
    if isinstance(x, ExcV):
        return tm.cat(*[fmt(it, a) for a in x.args]) if x.args else K("")
    if isinstance(x, (Tup,)) or is_seq(it, x):
        items = it.known_items(x)
        if items is not None:
            parts = [K("(" if isinstance(x, Tup) else "[")]
            for k, y in enumerate(items):
                if k:
                    parts.append(K(", "))
                parts.append(fmt(it, y, "", 114))
            parts.append(K(")" if isinstance(x, Tup) else "]"))
            return tm.cat(*parts)
        return unk("fmt", ty="str")
    return unk("fmt", ty="str")


def str_method(it, s, name, args, kwargs):
    if name in ("startswith", "endswith") and args and isinstance(it.norm(args[0]), Tup):
        return or_(*[str_method(it, s, name, [x] + list(args[1:]), kwargs) for x in it.norm(args[0]).items])
    if all(isk(a) for a in args) and isk(s) and (name == "format" or all(isk(a) for a in kwargs.values())) and not (name == "format" and kwargs):
        try:
            r = getattr(kval(s), name)(*[kval(a) for a in args], **{k: kval(a) for k, a in kwargs.items()})
        except Exception as e:
            it.do_raise(it.exc(type(e).__name__))
        if isinstance(r, (list, tuple)):
            x = [K(y) for y in r]
            return it.new_list(x) if isinstance(r, list) else Tup(x)
        return K(r)
    if name == "format":
        return str_format(it, s, args, kwargs)
    if kwargs or not all(isinstance(a, Term) for a in args) and name != "join":
        return unk("str." + name)
    if name == "join":
        items = it.known_items(args[0])
        if items is None:
            segs = it.to_segs(args[0])
            return unk("join", ty="str")
        parts = []
        for k, x in enumerate(items):
            if k:
                parts.append(s)
            if isinstance(x, Term) and x.ty not in ("str", "any"):
                it.event("typeerror", what="join", name=str(x)[:30])
                it.do_raise(it.exc("TypeError", K("join")))
            parts.append(x if isinstance(x, Term) else unk("join", ty="str"))
        return tm.cat(*parts)
    if name in ("split", "rsplit", "splitlines", "partition", "strip", "lstrip", "rstrip") and not tm.precise(s):
        return unk("str." + name)
    if name in ("splitlines",) and s.op in ("cat", "ite") and not args:
        return split_cat(it, s, "\n", False)
    if name == "split" and s.op in ("cat", "ite"):
        if not args:
            return split_cat(it, s, None, True)
        if isk(args[0]):
            return split_cat(it, s, kval(args[0]), False, keep_last=True)
    if name in ("strip", "lstrip", "rstrip") and s.op == "cat":
        parts = list(s.args)
        a = [kval(x) for x in args] if all(isk(x) for x in args) else None
        if a is not None:
            if name != "rstrip" and isk(parts[0]):
                parts[0] = K(kval(parts[0]).lstrip(*a))
            if name != "lstrip" and isk(parts[-1]):
                parts[-1] = K(kval(parts[-1]).rstrip(*a))
            return tm.cat(*parts)
    if name == "split" and args and isk(args[0]) and s.ty == "str":
        return it.new_list([s])       # data independence: symbolic names do not contain the separator
    if name in ("startswith",) and isk(args[0]) and s.op == "cat" and isk(s.args[0]) and len(kval(s.args[0])) >= len(kval(args[0])):
        return K(kval(s.args[0]).startswith(kval(args[0])))
    if name in ("endswith",) and isk(args[0]) and s.op == "cat" and isk(s.args[-1]) and len(kval(s.args[-1])) >= len(kval(args[0])):
        return K(kval(s.args[-1]).endswith(kval(args[0])))
    if name in ("startswith", "endswith", "isdigit", "isalpha", "islower", "isupper", "isnumeric", "isidentifier"):
        return T("strm", s, name, *[a for a in args if isinstance(a, Term)], ty="bool")
    if name in ("index", "find", "count", "rfind"):
        return unk("str." + name, ty="int")
    if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "replace", "zfill", "ljust", "rjust", "center",
                "removesuffix", "removeprefix", "encode"):
        return T("strm", s, name, *[a for a in args if isinstance(a, Term)], ty="str")
    return unk("str." + name)


def split_cat(it, s, sep, ws, keep_last=False):
    """Split a string whose symbolic leaves contain no separators (None between pieces marks one)."""
    memo = {}

    def pieces(t):
        if t in memo:
            return memo[t]
        if isk(t) and isinstance(kval(t), str):
            out = []
            if ws:
                buf = ""
                for ch in kval(t):
                    if ch.isspace():
                        if buf:
                            out.append(K(buf))
                            buf = ""
                        if not out or out[-1] is not None:
                            out.append(None)
                    else:
                        buf += ch
                if buf:
                    out.append(K(buf))
            else:
                for j, piece in enumerate(kval(t).split(sep)):
                    if j:
                        out.append(None)
                    if piece:
                        out.append(K(piece))
        elif t.op == "cat":
            out = []
            for p in t.args:
                for x in pieces(p):
                    if x is None:
                        if not ws or not out or out[-1] is not None:
                            out.append(None)
                    elif out and out[-1] is not None:
                        out[-1] = tm.cat(out[-1], x)
                    else:
                        out.append(x)
        elif t.op == "ite":
            x, y = pieces(t.args[1]), pieces(t.args[2])
            if len(x) != len(y) or any((u is None) != (v is None) for u, v in zip(x, y)):
                raise Unknown("split")
            out = [None if u is None else ite(t.args[0], u, v) for u, v in zip(x, y)]
        else:
            out = [t]
        memo[t] = out
        return out
    try:
        ps = pieces(s)
    except Unknown:
        return unk("str.split", s)
    if ws:
        return it.new_list([x for x in ps if x is not None])
    tokens, cur = [], K("")
    for x in ps:
        if x is None:
            tokens.append(cur)
            cur = K("")
        else:
            cur = x
    if cur is not K("") or keep_last:
        tokens.append(cur)
    return it.new_list(tokens)


def str_format(it, s, args, kwargs):
    if not isk(s):
        return unk("format", ty="str")
    import string
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(kval(s)):
            if lit:
                parts.append(K(lit))
            if field is None:
                continue
            if field == "":
                field, auto = str(auto), auto + 1
            base = field.replace("[", ".").split(".")[0]
            v = args[int(base)] if base.isdigit() else kwargs[base]
            for a in field.split(".")[1:]:
                v = it.getattr(v, a)
            parts.append(fmt(it, v, spec or "", {"r": 114, "s": 115}.get(conv, -1)))
    except (KeyError, IndexError, ValueError):
        it.do_raise(it.exc("IndexError", K("format")))
    return tm.cat(*parts) if parts else K("")


# ------------------------------------------------------------------ builtin container methods


def list_method(it, o, name, args, kwargs):
    h = it.obj(o)
    if name == "append":
        it.put(o, LList(h.segs + (("i", args[0], None),), h.kind))
        return NONE
    if name == "add":
        c = segs_has(it, h.segs, args[0])
        d = it.decide(c)
        if d is not True:
            it.put(o, LList(h.segs + (("i", args[0], None if d is False else not_(c)),), h.kind))
        return NONE
    if name in ("extend", "update") and h.kind != "arr":
        it.put(o, LList(h.segs + tuple(it.to_segs(args[0])), h.kind))
        return NONE
    if name == "insert":
        segs = list(h.segs)
        if isk(args[0]) and (kval(args[0]) == 0 or all(s[0] == "i" and s[2] is None for s in segs)):
            segs.insert(kval(args[0]), ("i", args[1], None))
            it.put(o, LList(segs, h.kind))
        else:
            it.put(o, LList((("u", "insert"),), h.kind))
        return NONE
    if name == "pop":
        i = args[0] if args else K(-1)
        if not h.segs:
            it.do_raise(it.exc("IndexError"))
        v = seq_get(it, o, i) if h.kind != "set" else unk("pop")
        delitem(it, o, i)
        return v
    if name in ("remove", "discard"):
        segs = list(h.segs)
        for k, s in enumerate(segs):
            if s[0] == "i" and s[2] is None:
                d = it.decide(value_eq(it, s[1], args[0]))
                if d is True:
                    del segs[k]
                    it.put(o, LList(segs, h.kind))
                    return NONE
                if d is None:
                    it.put(o, LList((("u", "remove"),), h.kind))
                    return NONE
            else:
                it.put(o, LList((("u", "remove"),), h.kind))
                return NONE
        if name == "remove":
            it.do_raise(it.exc("ValueError"))
        return NONE
    if name == "clear":
        it.put(o, LList((), h.kind))
        return NONE
    if name == "copy":
        if h.kind == "arr":
            return arr_copy(it, o)
        return it.alloc(LList(h.segs, h.kind))
    if name == "index":
        segs = it.flatten(h.segs)
        if all(s[0] == "i" and s[2] is None for s in segs):
            conds = [value_eq(it, s[1], args[0]) for s in segs]
            ds = [it.decide(c) for c in conds]
            for k, d in enumerate(ds):
                if d is True:
                    return K(k)
                if d is None:
                    break
            else:
                it.do_raise(it.exc("ValueError"))
            it.may_raise(not_(or_(*conds)), it.exc("ValueError"))
            v = K(len(segs) - 1)
            for k in range(len(segs) - 2, -1, -1):
                v = ite(conds[k], K(k), v)
            return v
        return unk("index", ty="int")
    if name == "count":
        segs = it.flatten(h.segs)
        if all(s[0] == "i" for s in segs):
            tot = ZERO
            for s in segs:
                c = value_eq(it, s[1], args[0])
                tot = tm.add(tot, ite(c if s[2] is None else and_(s[2], c), ONE, ZERO))
            return tot
        return unk("count", ty="int")
    if name == "reverse":
        it.put(o, LList([reverse_seg(s) for s in reversed(h.segs)], h.kind))
        return NONE
    if name == "sort":
        r = b_sorted(it, [o], kwargs)
        it.put(o, LList(it.obj(r).segs, h.kind))
        return NONE
    if h.kind in ("set", "frozenset", "keys") and name in ("union", "intersection", "difference"):
        return set_op(it, {"union": "__or__", "intersection": "__and__", "difference": "__sub__"}[name], o, args[0])
    if h.kind == "arr":
        return arr_method(it, o, name, args, kwargs)
    return unk("list." + name)


def arr_copy(it, o):
    try:
        return mk(it, nd(it, o))
    except Unknown:
        return it.alloc(LList(it.obj(o).segs, "arr"))


def arr_method(it, o, name, args, kwargs):
    if name in ("flatten", "ravel"):
        try:
            return mk(it, aflat(nd(it, o)))
        except Unknown:
            return unk("ravel", ty="arr")
    if name == "reshape":
        sh = args
        if len(args) == 1 and is_seq(it, args[0]):
            sh = it.known_items(args[0])
        return np_reshape(it, o, sh)
    if name in ("sum", "min", "max", "mean", "all", "any", "dot", "std", "prod"):
        return EXT["numpy." + {"min": "amin", "max": "amax"}.get(name, name)](it, [o] + list(args), kwargs)
    if name == "tolist":
        return EXT["builtins.list"](it, [o], {})
    if name == "astype":
        dt = args[0] if args else kwargs.get("dtype")
        if isinstance(dt, Bi) and dt.path.split(".")[-1] in ("int", "int32", "int64", "integer", "uint8", "uint32"):
            try:
                return mk(it, amap(lambda x: EXT["builtins.int"](it, [x], {}), nd(it, o)))
            except Unknown:
                return unk("astype", ty="arr")
        if isinstance(dt, Bi) and dt.path.split(".")[-1] in ("bool", "bool_", "str", "object") or isinstance(dt, Term):
            return unk("astype", ty="arr")
        return arr_copy(it, o)
    if name == "transpose":
        return np_T(it, o)
    if name == "tofile":
        it.event("write", how="tofile", path=args[0], value=snapshot(it, o), sep=kwargs.get("sep"))
        return NONE
    if name == "fill":
        assign_into(it, o, args[0])
        return NONE
    if name == "item":
        x = aflat(nd(it, o))
        return x[0] if len(x) == 1 else unk("item")
    if name in ("argmin", "argmax", "argsort", "round", "repeat"):
        return EXT["numpy." + name](it, [o] + list(args), kwargs)
    return unk("array." + name)


def np_T(it, o):
    try:
        x = nd(it, o)
    except Unknown:
        return unk("T", ty="arr")
    if depth(x) < 2:
        return o
    return mk(it, [[r[j] for r in x] for j in range(len(x[0]))])


def np_reshape(it, o, sh):
    try:
        fl = aflat(nd(it, o))
    except Unknown:
        return unk("reshape", ty="arr")
    if not all(isk(s) for s in sh):
        return unk("reshape", ty="arr")
    dims = [int(kval(s)) for s in sh]
    if -1 in dims:
        p = 1
        for d in dims:
            if d != -1:
                p *= d
        dims[dims.index(-1)] = len(fl) // p if p else 0
    p = 1
    for d in dims:
        p *= d
    if p != len(fl):
        it.do_raise(it.exc("ValueError", K("reshape")))

    def build(xs, ds):
        if len(ds) == 1:
            return list(xs)
        step = len(xs) // ds[0] if ds[0] else 0
        return [build(xs[k * step:(k + 1) * step], ds[1:]) for k in range(ds[0])]
    return mk(it, build(fl, dims))


def snapshot(it, v):
    """Value with heap contents copied out, as nested python structure."""
    v = it.norm(v)
    if isinstance(v, Ref):
        o = it.obj(v)
        if isinstance(o, LList):
            items = it.known_items(v)
            if items is None:
                return ("segs", o.segs)
            return [snapshot(it, x) for x in items]
        if isinstance(o, DDict):
            if all(s[0] == "e" for s in o.segs):
                return ("dict", [(snapshot(it, s[1]), snapshot(it, s[2]), s[3]) for s in o.segs])
            return ("segs", o.segs)
        if isinstance(o, Inst):
            return ("inst", o.cls, {k: x for k, x in o.f.items()})
    if isinstance(v, Tup):
        return [snapshot(it, x) for x in v.items]
    return v


def dict_method(it, o, name, args, kwargs, kwsegs=()):
    h = it.obj(o)
    if name in ("keys",):
        return it.alloc(LList(keys_segs(h.segs), "keys")) if False else SeqV(keys_segs(h.segs), "keys")
    if name == "values":
        return SeqV(vals_segs(h.segs), "values")
    if name == "items":
        return SeqV(vals_segs(h.segs, True), "items")
    if name == "get":
        return dict_get(it, o, args[0], args[1] if len(args) > 1 else kwargs.get("default", NONE))
    if name == "copy":
        return it.alloc(DDict(h.segs, h.kind))
    if name == "update":
        for a in args:
            dict_update(it, o, a)
        for k, v in kwargs.items():
            dict_set(it, o, K(k), v)
        for s in kwsegs:
            if s[0] == "e":
                dict_set(it, o, s[1], s[2], s[3])
            else:
                it.put(o, DDict(it.obj(o).segs + (s,), h.kind))
        return NONE
    if name == "pop":
        v, miss = dict_lookup(it, h.segs, args[0])
        if len(args) > 1:
            r = args[1] if v is None else it.vite(miss, args[1], v)
        else:
            r = dict_get(it, o, args[0])
        h = it.obj(o)
        out = []
        for s in h.segs:
            if s[0] == "e":
                c = value_eq(it, s[1], args[0])
                d = it.decide(c)
                if d is True:
                    continue
                if d is None:
                    out.append(("e", s[1], s[2], not_(c) if s[3] is None else and_(s[3], not_(c))))
                    continue
            out.append(s)
        it.put(o, DDict(out, h.kind))
        return r
    if name == "setdefault":
        v, miss = dict_lookup(it, h.segs, args[0])
        dflt = args[1] if len(args) > 1 else NONE
        if v is None:
            dict_set(it, o, args[0], dflt)
            return dflt
        if miss is FALSE:
            return v
        dict_set(it, o, args[0], it.vite(miss, dflt, v))
        return it.vite(miss, dflt, v)
    if name == "clear":
        it.put(o, DDict((), h.kind))
        return NONE
    if name == "popitem":
        if h.segs and h.segs[-1][0] == "e" and h.segs[-1][3] is None:
            s = h.segs[-1]
            it.put(o, DDict(h.segs[:-1], h.kind))
            return Tup([s[1], s[2]])
    return unk("dict." + name)


# ------------------------------------------------------------------ attribute access on non-source values

LIST_METHODS = {"append", "extend", "insert", "pop", "remove", "clear", "copy", "index", "count", "reverse", "sort", "add", "discard",
                "update", "union", "intersection", "difference"}
ARR_METHODS = {"flatten", "ravel", "reshape", "sum", "min", "max", "mean", "all", "any", "dot", "tolist", "astype", "transpose", "tofile",
               "copy", "fill", "item", "std", "prod", "round", "argsort", "argmin", "argmax"}
DICT_METHODS = {"keys", "values", "items", "get", "copy", "update", "pop", "setdefault", "clear", "popitem"}


def ext_getattr(it, o, name, default=None):
    if isinstance(o, Ref):
        h = it.obj(o)
        if isinstance(h, DDict):
            if name in DICT_METHODS:
                return BiM(o, name)
            if name == "__class__":
                return _bi("dict")
            return _noattr(it, "dict", name, default)
        if isinstance(h, LList):
            if h.kind == "arr":
                if name == "shape":
                    try:
                        return Tup([K(n) for n in shape(nd(it, o))])
                    except Unknown:
                        return Tup([it.segs_len(it.to_segs(o))])
                if name == "size":
                    try:
                        return K(len(aflat(nd(it, o))))
                    except Unknown:
                        return it.segs_len(it.to_segs(o))
                if name == "T":
                    return np_T(it, o)
                if name == "ndim":
                    return K(depth(nd(it, o)))
                if name in ARR_METHODS:
                    return BiM(o, name)
                if name in ("dtype", "data", "real", "flat"):
                    return unk("array." + name)
                return _noattr(it, "ndarray", name, default)
            if name in LIST_METHODS:
                return BiM(o, name)
            if name == "__class__":
                return _bi(h.kind if h.kind in ("list", "set") else "list")
            if h.kind in ("gen", "keys"):
                return BiM(o, name)
            return _noattr(it, h.kind, name, default)
        if isinstance(h, Inst):
            return ext_inst_attr(it, o, h, name, default)
    if isinstance(o, (Tup, SeqV)):
        if name in ("index", "count", "isdisjoint", "union", "intersection", "difference"):
            return BiM(o, name)
        return _noattr(it, "tuple", name, default)
    if isinstance(o, Term):
        if o.ty == "str":
            if hasattr(str, name):
                return BiM(o, name)
            return _noattr(it, "str", name, default)
        if o.ty == "none":
            return _noattr(it, "NoneType", name, default)
        if o.ty in ("int", "real", "bool"):
            if name == "real":
                return o
            if name == "imag":
                return ZERO
            if name in ("is_integer", "item", "astype", "copy", "all", "any", "round", "bit_length", "conjugate", "sum", "max", "min", "hex"):
                return BiM(o, name)
            if name in ("size",):
                return ONE
            if name == "shape":
                return Tup([])
            if name == "ndim":
                return ZERO
            if name == "__class__":
                return _bi({"int": "int", "real": "float", "bool": "bool"}[o.ty])
            return _noattr(it, {"int": "int", "real": "float", "bool": "bool"}[o.ty], name, default)
        if o.ty == "mesh":
            if name in ("vectors", "areas", "normals", "v0", "v1", "v2", "data"):
                return tm.app("mesh." + name, o, ty="arr")
            return BiM(o, name)
        if o.op == "app" and o.ty == "any" or o.op == "sym":
            return tm.app("attr." + name, o, ty="any")
        return unk("attr " + name, o)
    if isinstance(o, Fn):
        if name in ("__name__", "__qualname__"):
            return K(o.name)
        if name == "__call__":
            return o
        if name == "__doc__":
            return unk("doc", ty="str")
    if isinstance(o, Prop):
        return BiM(o, name)
    if isinstance(o, ExcV):
        if name == "args":
            return Tup(o.args)
        if isinstance(o.cls, ClassV):
            v = o.cls.lookup(name)
            if isinstance(v, Fn):
                return Bound(v, o)
            if v is not None:
                return v
        return unk("exc attr")
    if isinstance(o, Bound):
        if name == "__self__":
            return o.self_
        if name == "__func__":
            return o.fn
        if name == "__name__":
            return K(getattr(o.fn, "name", "?"))
        if name == "__call__":
            return o
    if isinstance(o, BiM) and o.name == "__dict__":
        return BiM(o, name)
    if isinstance(o, (BiM, PyFn)):
        if name in ("__name__",):
            return K(o.name)
        return unk("attr " + name)
    return _noattr(it, type(o).__name__, name, default) if default is not None else unk("attr " + name)


def _noattr(it, cls, name, default):
    if default is not None:
        return default
    it.event("noattr", cls=cls, name=name)
    it.do_raise(it.exc("AttributeError", K(name)))


def mesh_vectors(it, m):
    h = it.obj(m)
    return it.norm(it.obj(h.f["data"]).f["vectors"])


def ext_inst_attr(it, o, h, name, default):
    c = h.cls
    if c == "stl.Mesh":
        if name == "data":
            return h.f["data"]
        if name == "vectors":
            return mesh_vectors(it, o)
        if name in ("v0", "v1", "v2"):
            return arr_index(it, mesh_vectors(it, o), [SliceV(NONE, NONE, NONE), K(int(name[1]))])
        if name == "points":
            try:
                return mk(it, [aflat(t) for t in nd(it, mesh_vectors(it, o))])
            except Unknown:
                return unk("points", ty="arr")
        if name in ("areas", "normals", "units"):
            try:
                out = []
                for t in nd(it, mesh_vectors(it, o)):
                    fl = aflat(t)
                    out.append([tm.app("facet." + name, *fl)] if name == "areas" else [tm.app("facet.%s%d" % (name, k), *fl) for k in range(3)])
                return mk(it, out)
            except Unknown:
                return unk("mesh." + name, ty="arr")
        if name in h.f:
            return h.f[name]
        if name in ("min_", "max_"):
            return unk("mesh." + name)
        return BiM(o, name)
    if c == "stl.data":
        if name == "size":
            return it.segs_len(it.to_segs(h.f["vectors"]))
        if name == "shape":
            return Tup([it.segs_len(it.to_segs(h.f["vectors"]))])
        return BiM(o, name)
    if c in ("pd.DataFrame", "pd.Series", "pd.iloc", "pd.loc"):
        from . import frames
        return frames.getattr_(it, o, h, name, default)
    if c == "xml":
        if name in ("text", "tag", "attrib"):
            return h.f.get(name, NONE)
        return BiM(o, name)
    if c == "env":
        if name in h.f:
            return h.f[name]
    if name in h.f:
        return h.f[name]
    return BiM(o, name)


def ext_setattr(it, o, name, v):
    if isinstance(o, Ref):
        h = it.obj(o)
        if isinstance(h, Inst):
            if h.cls == "stl.Mesh" and name in ("v0", "v1", "v2"):
                arr_set(it, mesh_vectors(it, o), [SliceV(NONE, NONE, NONE), K(int(name[1]))], v)
                return
            if h.cls == "stl.Mesh" and name == "vectors":
                arr_set(it, mesh_vectors(it, o), [SliceV(NONE, NONE, NONE)], v)
                return
            if h.cls in ("pd.DataFrame", "pd.Series"):
                from . import frames
                frames.setattr_(it, o, h, name, v)
                return
            it.put(o, h.with_(name, v))
            return
    if isinstance(o, Term) and o.ty in ("none", "int", "real", "str", "bool"):
        it.event("noattr", cls=o.ty, name=name, set=True)
        it.do_raise(it.exc("AttributeError", K(name)))
    it.event("extattr", obj=o, name=name)


# ------------------------------------------------------------------ calls


def expand(it, args):
    out = []
    for a in args:
        if isinstance(a, tuple):
            items = it.known_items(a[1])
            if items is None:
                return None
            out += items
        else:
            out.append(a)
    return out


def call_ext(it, f, args, kwargs, kwsegs=()):
    a2 = expand(it, args)
    if a2 is None:
        return unk("star call")
    args = [it.norm(a) for a in a2]
    if isinstance(f, Bi):
        return call_bi(it, f.path, args, kwargs, kwsegs)
    if isinstance(f, BiM):
        return call_method(it, f, args, kwargs, kwsegs)
    if isinstance(f, Term):
        if f.ty in ("none", "int", "real", "str", "bool"):
            it.event("typeerror", what="call", name=str(f)[:40])
            it.do_raise(it.exc("TypeError", K("not callable")))
        it.event("callterm", fn=f, args=args, kwargs=kwargs)
        ts = []
        for x in list(args) + [kwargs[k] for k in sorted(kwargs)]:
            x = it.norm(x)
            if isinstance(x, Term):
                ts.append(x)
            else:
                return unk("symbolic call", f)
        if f.op == "unk":
            return unk("call", f)
        return tm.app(f, *ts, ty="any")
    if isinstance(f, (Tup, SeqV)) or (isinstance(f, Ref) and isinstance(it.obj(f), (LList, DDict))):
        it.event("typeerror", what="call", name="container")
        it.do_raise(it.exc("TypeError", K("not callable")))
    if isinstance(f, ExcV):
        it.event("typeerror", what="call", name="exception instance")
        it.do_raise(it.exc("TypeError", K("not callable")))
    if isinstance(f, Prop):
        return f
    return unk("call")


def call_bi(it, path, args, kwargs, kwsegs=()):
    h = it.hooks.get(path)
    if h is not None:
        return h(it, args, kwargs)
    last = path.split(".")[-1]
    from .interp import EXC_BASES
    if path.startswith("builtins.") and (last in EXC_BASES or last == "BaseException"):
        return ExcV(last, args, it.where)
    f = EXT.get(path)
    if f is not None:
        if path in ("builtins.dict",):
            return f(it, args, kwargs, kwsegs)
        if not path.startswith("numpy."):
            return f(it, args, kwargs)
        try:
            return f(it, args, kwargs)
        except (TypeError, IndexError, AttributeError, KeyError):
            # arguments the model has no answer for
            return unk(last)
    if path.startswith("numpy.") and last in NPMATH:
        return np_elem(it, last, args, kwargs)
    if path.startswith("math.") and last in tm._MATH or path.startswith("math.") and last in NPMATH:
        return np_elem(it, last, args, kwargs)
    it.externals[path] = it.externals.get(path, 0) + 1
    it.event("extcall", path=path, args=args, kwargs=kwargs)
    return unk("ext " + path)


NPMATH = {"sin": "sin", "cos": "cos", "tan": "tan", "arcsin": "arcsin", "arccos": "arccos", "arctan": "arctan", "arctan2": "arctan2",
          "sqrt": "sqrt", "exp": "exp", "log": "log", "log10": "log10", "abs": "abs", "absolute": "abs", "fabs": "abs", "floor": "floor",
          "ceil": "ceil", "hypot": "hypot", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "sign": "sign", "isnan": "isnan",
          "isfinite": "isfinite", "asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "minimum": "min",
          "maximum": "max", "square": "square", "reciprocal": "reciprocal", "cbrt": "cbrt", "copysign": "copysign", "clip": "clip",
          "deg2rad": "radians", "radians": "radians", "rad2deg": "degrees", "degrees": "degrees", "power": "pow", "float_power": "pow",
          "negative": "neg", "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "mod": "mod",
          "remainder": "mod", "trunc": "trunc", "rint": "round", "around": "round", "logical_not": "not", "pow": "pow",
          "arcsinh": "arcsinh", "arccosh": "arccosh", "arctanh": "arctanh", "log1p": "log1p", "expm1": "expm1", "floor_divide": "floordiv"}

_BOOLFN = {"isnan", "isfinite", "isclose"}


def scalar_fn(name, *xs):
    if name == "radians":
        return tm.mul(xs[0], K(math.pi / 180))
    if name == "degrees":
        return tm.mul(xs[0], K(180 / math.pi))
    if name == "pow":
        return tm.pow_(*xs)
    if name == "neg":
        return tm.neg(xs[0])
    if name in ("add", "sub", "mul", "div", "mod", "floordiv"):
        return getattr(tm, name)(*xs)
    if name == "square":
        return tm.mul(xs[0], xs[0])
    if name == "hypot":
        return tm.fn("sqrt", functools.reduce(tm.add, [tm.mul(x, x) for x in xs]))
    if name == "reciprocal":
        return tm.div(K(1.0), xs[0])
    if name == "not":
        return not_(xs[0])
    return tm.fn(name, *xs, ty="bool" if name in _BOOLFN else "real")


def np_elem(it, name, args, kwargs=None):
    f = NPMATH.get(name, name)
    args = [it.norm(a) for a in args]
    for x in args:
        if isinstance(x, Ref) and isinstance(it.obj(x), Inst) and it.obj(x).cls in ("pd.Series", "pd.DataFrame"):
            from . import frames
            return frames.elem(it, lambda *xs: scalar_fn(f, *xs), args)
    for k, x in enumerate(args):
        if isinstance(x, IteV):
            return it.branch(x.c, lambda: np_elem(it, name, args[:k] + [x.a] + args[k + 1:]),
                             lambda: np_elem(it, name, args[:k] + [x.b] + args[k + 1:]))
    if all(isinstance(x, Term) for x in args):
        for x in args:
            if x.ty in ("none", "str"):
                it.event("typeerror", what="math of %s" % x.ty, name=name)
                it.do_raise(it.exc("TypeError", K(name)))
        return scalar_fn(f, *args)
    if any(it.is_src_inst(x) for x in args):
        x = [x for x in args if it.is_src_inst(x)][0]
        m = {"abs": "__abs__"}.get(f)
        if m and it.obj(x).cls.lookup(m):
            return it.call(Bound(it.obj(x).cls.lookup(m), x), [], {})
        it.event("typeerror", what="math of object", name=name)
        it.do_raise(it.exc("TypeError", K(name)))
    try:
        xs = [nd(it, x) for x in args]
        if len(xs) == 1:
            return mk(it, amap(lambda v: scalar_fn(f, v), xs[0]))
        if len(xs) == 2:
            return mk(it, bcast(lambda p, q: scalar_fn(f, p, q), xs[0], xs[1]))
        if len(xs) == 3 and not isinstance(xs[1], list) and not isinstance(xs[2], list):
            return mk(it, amap(lambda v: scalar_fn(f, v, xs[1], xs[2]), xs[0]))
    except Unknown:
        if len(args) == 1 and is_seq(it, args[0]):
            return smap(it, lambda v: scalar_fn(f, v), args[0])
        if len(args) == 2:
            if is_seq(it, args[0]) and isinstance(args[1], Term):
                return smap(it, lambda v: scalar_fn(f, v, args[1]), args[0])
            if is_seq(it, args[1]) and isinstance(args[0], Term):
                return smap(it, lambda v: scalar_fn(f, args[0], v), args[1])
    return unk("numpy." + name, ty="arr")


def call_method(it, f, args, kwargs, kwsegs=()):
    o, name = it.norm(f.obj), f.name
    if isinstance(o, Ref):
        h = it.obj(o)
        if isinstance(h, LList):
            return list_method(it, o, name, args, kwargs)
        if isinstance(h, DDict):
            return dict_method(it, o, name, args, kwargs, kwsegs)
        if isinstance(h, Inst):
            if name == "__dict__":
                return unk("dict call")
            return inst_method(it, o, h, name, args, kwargs)
    if isinstance(o, SeqV) or isinstance(o, Tup):
        r = it.alloc(LList(it.to_segs(o), "list"))
        return list_method(it, r, name, args, kwargs)
    if isinstance(o, BiM) and o.name == "__dict__":
        t = it.norm(o.obj)
        fields = it.obj(t).f
        if name == "update":
            src = args[0]
            if isinstance(src, BiM) and src.name == "__dict__":
                for k, v in it.obj(it.norm(src.obj)).f.items():
                    it.put(t, it.obj(t).with_(k, v))
                return NONE
            if isinstance(src, Ref) and isinstance(it.obj(src), DDict):
                for s in it.obj(src).segs:
                    if s[0] == "e" and isk(s[1]):
                        it.put(t, it.obj(t).with_(kval(s[1]), s[2]))
                return NONE
            return NONE
        if name == "items":
            return SeqV([("i", Tup([K(k), v]), None) for k, v in fields.items()])
        if name == "keys":
            return SeqV([("i", K(k), None) for k in fields])
        if name == "values":
            return SeqV([("i", v, None) for v in fields.values()])
        if name == "copy":
            return it.new_dict([(K(k), v) for k, v in fields.items()])
        if name == "get":
            return fields.get(kval(args[0]), args[1] if len(args) > 1 else NONE) if isk(args[0]) else unk("get")
        return unk("__dict__." + name)
    if isinstance(o, ClassV) and name == "__new__":
        return it.alloc(Inst(args[0] if args and isinstance(args[0], ClassV) else o, {}))
    if isinstance(o, Term):
        if o.ty == "str":
            return str_method(it, o, name, args, kwargs)
        if name in ("item", "astype", "copy", "sum", "max", "min"):
            return o
        if name in ("all", "any"):
            return it.truth(o)
        if name == "is_integer":
            return eq(tm.fn("floor", o), o)
        return unk("method " + name, o)
    if isinstance(o, Prop):
        if name == "setter":
            return Prop(o.fget, args[0])
        return o
    return unk("method " + name)


def worker(it, fn, args):
    """Call in a worker process: only the result comes back, changes to existing objects do not."""
    before = dict(it.st.heap)
    v = it.call(fn, args, {})
    heap = it.st.heap
    for k, o in before.items():
        if heap.get(k) is not o:
            heap[k] = o
    return v


def inst_method(it, o, h, name, args, kwargs):
    c = h.cls
    if c == "stl.Mesh":
        if name == "save":
            it.event("write", how="stl", path=args[0], value=o, vectors=snapshot(it, mesh_vectors(it, o)))
            return NONE
        if name in ("get_mass_properties_with_density", "get_mass_properties"):
            try:
                fl = aflat(nd(it, mesh_vectors(it, o)))
            except Unknown:
                fl = [unk("mesh")]
            vol = tm.app("mesh.volume", *fl)  # negative when the facets face inwards
            cog = mk(it, [tm.app("mesh.cog%d" % k, *fl) for k in range(3)])
            if name == "get_mass_properties":
                return Tup([vol, cog, mk(it, [[tm.app("mesh.I%d%d" % (k, l), *fl) for l in range(3)] for k in range(3)])])
            d = args[0] if args else kwargs.get("density", ONE)
            return Tup([vol, tm.mul(vol, d), cog, mk(it, [[tm.mul(d, tm.app("mesh.I%d%d" % (k, l), *fl)) for l in range(3)] for k in range(3)])])
        if name in ("rotate", "translate", "transform", "rotate_using_matrix"):
            it.event("meshmut", obj=o, name=name)
            arr_set(it, mesh_vectors(it, o), [SliceV(NONE, NONE, NONE)], unk("mesh transformed"))
            return NONE
        return unk("Mesh." + name)
    if c == "stl.data" and name == "copy":
        return it.alloc(Inst("stl.data", {"vectors": arr_copy(it, h.f["vectors"])}))
    if c == "Pool":
        if name in ("starmap", "map", "imap", "imap_unordered", "starmap_async", "map_async"):
            it.event("pooluse", obj=o)
            fn, seq = args[0], args[1]
            r = it.new_list([])

            def body(v):
                a = [v]
                if name.startswith("starmap"):
                    items = it.known_items(v)
                    a = items if items is not None else [("*", v)]
                x = worker(it, fn, a)
                oo = it.obj(r)
                new = (("i", x, None),)
                # results of unordered maps may arrive in any order: take the last first
                it.put(r, LList(new + oo.segs if name == "imap_unordered" else oo.segs + new, oo.kind))
            it.run_loop(seq, body)
            if name.endswith("_async"):
                return it.alloc(Inst("asyncresult", {"value": r}))
            return r
        if name in ("apply", "apply_async"):
            it.event("pooluse", obj=o)
            items = it.known_items(args[1]) if len(args) > 1 else []
            v = worker(it, args[0], items or [])
            if name == "apply":
                return v
            return it.alloc(Inst("asyncresult", {"value": v}))
        if name in ("close", "terminate"):
            it.put(o, h.with_("open", FALSE))
            it.event("poolclose", obj=o)
            return NONE
        if name == "join":
            return NONE
        if name == "__enter__":
            return o
        if name == "__exit__":
            it.put(o, h.with_("open", FALSE))
            return NONE
    if c == "asyncresult" and name == "get":
        return h.f["value"]
    if c == "asyncresult":
        return NONE
    if c in ("pd.DataFrame", "pd.Series", "pd.iloc", "pd.loc"):
        from . import frames
        return frames.method(it, o, h, name, args, kwargs)
    if c == "xmltree":
        if name == "getroot":
            return h.f["root"]
        if name == "write":
            it.event("write", how="xml", path=args[0], value=h.f["root"])
            return NONE
    if c == "xml":
        if name == "find":
            return getitem(it, h.f["children"], ZERO)
        if name == "append":
            list_method(it, h.f["children"], "append", args, {})
            return NONE
        if name == "set":
            return NONE
        return unk("xml." + name)
    if c == "iter":
        return unk("iter")
    if c == "tqdm":
        it.event("print", what="progress bar")
        return NONE
    if c == "counter":
        pass
    it.event("extmethod", obj=o, name=name)
    return unk("method %s.%s" % (c, name))


def fn_(x):
    return x


# ------------------------------------------------------------------ context managers, dataclasses


def enter(it, cm):
    cm = it.norm(cm)
    if it.is_src_inst(cm):
        return it.call(it.getattr(cm, "__enter__"), [], {})
    return cm


def exit_(it, cm, abrupt):
    cm = it.norm(cm)
    if it.is_src_inst(cm):
        it.call(it.getattr(cm, "__exit__"), [NONE, NONE, NONE], {})
        return
    if isinstance(cm, Ref) and isinstance(it.obj(cm), Inst) and it.obj(cm).cls == "Pool":
        it.put(cm, it.obj(cm).with_("open", FALSE))
        it.event("poolclose", obj=cm)


def make_dataclass(it, c):
    import ast as _ast
    fields = []
    for k in reversed(c.mro()):
        for s in k.node.body:
            if isinstance(s, _ast.AnnAssign) and isinstance(s.target, _ast.Name):
                fields.append(s.target.id)

    def init(it, args, kwargs):
        self = args[0]
        vals = dict(zip(fields, args[1:]))
        vals.update(kwargs)
        for f in fields:
            if f in vals:
                v = vals[f]
            else:
                v = c.lookup(f)
                if v is None:
                    it.do_raise(it.exc("TypeError", K("missing " + f)))
            it.put(self, it.obj(self).with_(f, v))
        pi = c.lookup("__post_init__")
        if pi is not None:
            it.call(pi, [self], {})
        return NONE
    c.ns["__init__"] = PyFn(init, "dataclass init")


# ------------------------------------------------------------------ builtins


@ext("builtins.len")
def b_len(it, args, kw):
    v = it.norm(args[0])
    if isinstance(v, IteV):
        return ite(v.c, b_len(it, [v.a], {}), b_len(it, [v.b], {}))
    if isinstance(v, Tup):
        return K(len(v.items))
    if isinstance(v, Term):
        if isk(v) and isinstance(kval(v), str):
            return K(len(kval(v)))
        if v.ty in ("int", "real", "none", "bool"):
            it.event("typeerror", what="len", name=str(v)[:40])
            it.do_raise(it.exc("TypeError", K("len")))
        return T("len", v, ty="int")
    if isinstance(v, Ref):
        o = it.obj(v)
        if isinstance(o, DDict):
            return it.segs_len(o.segs)
        if isinstance(o, Inst):
            if isinstance(o.cls, ClassV):
                f = o.cls.lookup("__len__")
                if f is not None:
                    return it.call(Bound(f, v), [], {})
                it.event("typeerror", what="len", name=o.cls.name)
                it.do_raise(it.exc("TypeError", K("len")))
            if o.cls == "pd.DataFrame":
                n = ZERO
                for g in o.f["guards"].items:
                    n = tm.add(n, ite(g, ONE, ZERO))
                return n
    return it.segs_len(it.flatten(it.to_segs(v)))


@ext("numpy.arange")
def np_arange(it, args, kw):
    if all(isnum(x) for x in args):
        a = [kval(x) for x in args]
        if any(isinstance(x, float) for x in a):
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
            n = math.ceil((hi - lo) / st) if st else -1
            return it.new_list([K(float(lo + k * st)) for k in range(n)], "arr") if 0 <= n <= 64 else unk("arange", ty="arr")
        v = b_range(it, args, {})
        xs = it.known_items(v)
        return it.new_list(xs, "arr") if xs is not None else it.alloc(LList(it.to_segs(v), "arr"))
    if all(isinstance(x, Term) and x.ty == "int" for x in args):
        return it.alloc(LList(it.to_segs(b_range(it, args, {})), "arr"))
    return unk("arange", ty="arr")


@ext("builtins.range")
def b_range(it, args, kw):
    a = [x for x in args]
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], ONE
    else:
        lo, hi, st = a[:3]
    if all(isk(x) and isinstance(kval(x), int) for x in (lo, hi, st)):
        if kval(st) == 0:
            it.do_raise(it.exc("ValueError"))
        r = range(kval(lo), kval(hi), kval(st))
        if len(r) <= 64:
            return SeqV([("i", K(k), None) for k in r])
    for x in (lo, hi, st):
        if isinstance(x, Term) and (x.ty in ("str", "none") or isk(x) and isinstance(kval(x), float)):
            it.event("typeerror", what="range", name=str(x))
            it.do_raise(it.exc("TypeError", K("range")))
    v = tm.fresh_bv("i")
    if isk(st) and kval(st) == 1:
        return SeqV([("m", v, tm.sub(hi, lo), (("i", tm.add(lo, v), None),))])
    if isk(st) and kval(st) == -1:
        return SeqV([("m", v, tm.sub(lo, hi), (("i", tm.sub(lo, v), None),))])
    return SeqV([("m", v, unk("range", lo, hi, st, ty="int"), (("i", tm.add(lo, tm.mul(v, st)), None),))])


@ext("builtins.enumerate")
def b_enumerate(it, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    segs = it.flatten(it.to_segs(args[0]))
    out, n = [], start
    for s in segs:
        if s[0] == "i" and s[2] is None:
            out.append(("i", Tup([n, s[1]]), None))
            n = tm.add(n, ONE)
        elif s[0] == "m" and len(s[3]) == 1 and s[3][0][0] == "i" and s[3][0][2] is None:
            out.append(("m", s[1], s[2], (("i", Tup([tm.add(n, s[1]), s[3][0][1]]), None),)))
            n = tm.add(n, s[2])
        elif s[0] == "i":
            out.append(("i", Tup([n, s[1]]), s[2]))
            n = tm.add(n, ite(s[2], ONE, ZERO))
        else:
            out.append(("u", "enumerate"))
    return SeqV(out)


@ext("builtins.zip")
def b_zip(it, args, kw):
    lists = [it.flatten(it.to_segs(a)) for a in args]
    cyc = [isinstance(a, Ref) and isinstance(it.obj(a), Inst) and it.obj(a).cls == "iter" and it.obj(a).f.get("cycle") is not None for a in args]
    plain = [all(s[0] == "i" and s[2] is None for s in l) for l in lists]
    if all(plain):
        n = min([len(l) for l, c in zip(lists, cyc) if not c] or [0])
        return SeqV([("i", Tup([l[k % len(l) if c else k][1] for l, c in zip(lists, cyc)]), None) for k in range(n)])
    # map segments of equal count, item by item
    ref = [l for l, p in zip(lists, plain) if not p][0]
    out = []
    for k, s in enumerate(ref):
        row = []
        for l in lists:
            if k >= len(l):
                return SeqV(out) if all(x[0] == "i" for x in ref[:k]) else SeqV([("u", "zip")])
            row.append(l[k])
        if all(x[0] == "i" and x[2] is None for x in row):
            out.append(("i", Tup([x[1] for x in row]), None))
        elif all(x[0] == "m" and len(x[3]) == 1 and x[3][0][0] == "i" and x[3][0][2] is None for x in row) and \
                all(it.same_count(x[2], row[0][2]) for x in row):
            v = row[0][1]
            out.append(("m", v, row[0][2], (("i", Tup([subst_val(x[3][0][1], {x[1]: v}) for x in row]), None),)))
        else:
            # index-wise zip over one generic variable when all are single maps of possibly different length
            n = None
            for l in lists:
                ln = it.segs_len(l)
                if n is None or it.same_count(n, ln):
                    n = ln
                elif it.decide(tm.lt(ln, n)) is True:
                    n = ln
                elif it.decide(tm.le(n, ln)) is not True:
                    return SeqV([("u", "zip")])
            v = tm.fresh_bv("z")
            refs = [it.alloc(LList(l)) for l in lists]
            row = [seq_get(it, r, v) for r in refs]
            frozen = {i: FamRef(*key) for key, i in it.st.thawed.items() if any(v in tm.free(t) for t in key[1])}
            back = lambda x: frozen.get(x.id, x) if isinstance(x, Ref) else x
            return SeqV([("m", v, n, (("i", Tup([map_val(x, back) for x in row]), None),))])
    return SeqV(out)


TYPES = {"builtins.float": ("real",), "builtins.int": ("int", "bool"), "builtins.bool": ("bool",), "builtins.str": ("str",),
         "numpy.floating": ("real",), "numpy.integer": ("int",), "numbers.Number": ("real", "int", "bool"), "numpy.number": ("real", "int"),
         "builtins.complex": (), "numpy.float64": ("real",), "numpy.float32": ("real",), "numbers.Real": ("real", "int", "bool"),
         "numpy.bool_": ("bool",), "numpy.int64": ("int",), "numpy.generic": ("real",), "numbers.Integral": ("int", "bool")}


@ext("builtins.isinstance")
def b_isinstance(it, args, kw):
    v, c = it.norm(args[0]), it.norm(args[1])
    if isinstance(v, IteV):
        return ite(v.c, b_isinstance(it, [v.a, c], {}), b_isinstance(it, [v.b, c], {}))
    if isinstance(v, Term) and v.op == "ite" and v.ty == "any":
        return ite(v.args[0], b_isinstance(it, [v.args[1], c], {}), b_isinstance(it, [v.args[2], c], {}))
    items = it.known_items(c) if isinstance(c, (Tup, Ref, SeqV)) else None
    if items is not None:
        return or_(*[b_isinstance(it, [v, x], {}) for x in items])
    if isinstance(c, ClassV):
        if it.is_src_inst(v):
            return K(c in it.obj(v).cls.mro())
        if isinstance(v, ExcV) and isinstance(v.cls, ClassV):
            return K(c in v.cls.mro())
        if isinstance(v, Term) and v.op in ("unk", "prev") or isinstance(v, Term) and v.ty == "any" and v.op in ("sym", "app"):
            return unk("isinstance", v, c.name, ty="bool")
        return FALSE
    if isinstance(c, Bi):
        p = c.path
        if p == "builtins.object":
            return TRUE
        if isinstance(v, Term):
            if p in TYPES:
                if v.ty in TYPES[p]:
                    return TRUE
                if v.ty == "any" and v.op != "k":
                    return T("isinst", v, p, ty="bool") if tm.precise(v) else unk("isinstance", v, p, ty="bool")
                return FALSE
            if v.op in ("unk", "prev") or (v.ty == "any" and v.op in ("sym", "app", "ite")):
                return unk("isinstance", v, p, ty="bool")
            if p == "numpy.ndarray":
                return K(v.ty in ("arr", "vec3", "mat3"))
            return FALSE
        if isinstance(v, Tup):
            return K(p in ("builtins.tuple", "typing.Tuple", "collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence", "typing.Iterable"))
        if isinstance(v, (Fn, Bound, PyFn, BiM, Bi)):
            return K(p in ("typing.Callable", "collections.abc.Callable", "types.FunctionType"))
        if isinstance(v, ClassV):
            return K(p in ("builtins.type", "typing.Callable", "collections.abc.Callable"))
        if isinstance(v, Ref):
            o = it.obj(v)
            if isinstance(o, DDict):
                return K(p in ("builtins.dict", "typing.Dict", "collections.abc.Mapping", "typing.Mapping"))
            if isinstance(o, LList):
                names = {"list": ("builtins.list", "typing.List", "collections.abc.Sequence", "typing.Sequence", "collections.abc.Iterable", "typing.Iterable"),
                         "set": ("builtins.set",), "arr": ("numpy.ndarray",), "frozenset": ("builtins.frozenset",)}
                return K(p in names.get(o.kind, ()))
            if isinstance(o, Inst):
                if isinstance(o.cls, ClassV):
                    if p in ("typing.Callable", "collections.abc.Callable"):
                        return K(o.cls.lookup("__call__") is not None)
                    if p in ("typing.Iterable", "collections.abc.Iterable"):
                        return K(o.cls.lookup("__iter__") is not None)
                    return K(any(isinstance(b, Bi) and b.path == p for b in o.cls.ext_bases()))
                return K({"pd.DataFrame": "pandas.DataFrame", "pd.Series": "pandas.Series", "stl.Mesh": "stl.mesh.Mesh"}.get(o.cls) == p)
        if isinstance(v, ExcV):
            from .interp import exc_isa
            return K(isinstance(v.cls, str) and exc_isa(v.cls, p.split(".")[-1]))
        if isinstance(v, SeqV):
            return FALSE
    if isinstance(v, Fn) and isinstance(c, Bi):
        return FALSE
    return unk("isinstance", ty="bool")


@ext("builtins.issubclass")
def b_issubclass(it, args, kw):
    a, b = args
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return K(b in a.mro())
    return unk("issubclass", ty="bool")


@ext("builtins.getattr")
def b_getattr(it, args, kw):
    if isk(args[1]):
        if len(args) > 2:
            h = hasattr_(it, args[0], kval(args[1]))
            d = it.decide(h)
            if d is False:
                return args[2]
            if d is True:
                return it.getattr(args[0], kval(args[1]))
            return it.branch(h, lambda: it.getattr(args[0], kval(args[1])), lambda: args[2])
        return it.getattr(args[0], kval(args[1]))
    n = args[1]
    if isinstance(n, Term) and n.op == "ite":
        return it.branch(n.args[0], lambda: b_getattr(it, [args[0], n.args[1]] + args[2:], kw),
                         lambda: b_getattr(it, [args[0], n.args[2]] + args[2:], kw))
    return unk("getattr")


def hasattr_(it, o, name):
    o = it.norm(o)
    if isinstance(o, IteV):
        return ite(o.c, hasattr_(it, o.a, name), hasattr_(it, o.b, name))
    if it.is_src_inst(o):
        h = it.obj(o)
        if name in h.f:
            u = it.undef_cond(h.f[name])
            return TRUE if u is None else not_(u)
        return K(h.cls.lookup(name) is not None)
    if isinstance(o, ClassV):
        return K(o.lookup(name) is not None)
    if isinstance(o, Mod) and o.env is not None:
        return K(name in it.obj(o.env).f)
    if isinstance(o, (Fn, Bound, PyFn)):
        return K(name in ("__call__", "__name__", "__doc__"))
    if isinstance(o, Ref):
        h = it.obj(o)
        if isinstance(h, DDict):
            return K(name in DICT_METHODS or name in ("__len__", "__iter__", "__getitem__"))
        if isinstance(h, LList):
            return K(name in (ARR_METHODS | {"shape", "size", "T"} if h.kind == "arr" else LIST_METHODS) or name in ("__len__", "__iter__", "__getitem__"))
    if isinstance(o, Tup):
        return K(name in ("__len__", "__iter__", "__getitem__", "index", "count"))
    if isinstance(o, Term) and o.ty in ("real", "int", "bool", "none"):
        return FALSE
    if isinstance(o, Term) and o.ty == "str":
        return K(hasattr(str, name))
    return unk("hasattr", ty="bool")


@ext("builtins.hasattr")
def b_hasattr(it, args, kw):
    return hasattr_(it, args[0], kval(args[1])) if isk(args[1]) else unk("hasattr", ty="bool")


@ext("builtins.setattr", "builtins.object.__setattr__")
def b_setattr(it, args, kw):
    if isk(args[1]):
        it.setattr(args[0], kval(args[1]), args[2])
    else:
        it.event("setattr", obj=args[0], name=args[1], value=args[2])
    return NONE


@ext("builtins.delattr")
def b_delattr(it, args, kw):
    if isk(args[1]) and isinstance(args[0], Ref):
        it.put(args[0], it.obj(args[0]).without(kval(args[1])))
    return NONE


def _minmax(it, name, args, kw):
    if len(args) == 1:
        items = it.known_items(args[0])
        if items is None:
            segs = it.to_segs(args[0])
            if len(segs) == 1 and segs[0][0] == "m" and len(segs[0][3]) == 1 and segs[0][3][0][2] is None:
                s = segs[0]
                b = s[3][0][1]
                if isinstance(b, Term):
                    return T(name + "of", s[1], s[2], b, ty="real")
            return unk(name)
        if not items:
            if "default" in kw:
                return kw["default"]
            it.do_raise(it.exc("ValueError", K(name)))
    else:
        items = [it.norm(a) for a in args]
    if "key" in kw and kw["key"] is not NONE:
        ks = [it.call(kw["key"], [x], {}) for x in items]
        best, bk = items[0], ks[0]
        for x, k in zip(items[1:], ks[1:]):
            c = lt(k, bk) if name == "min" else lt(bk, k)
            best, bk = it.vite(c, x, best), ite(c, k, bk)
        return best
    if len(items) == 1:
        return items[0]
    if all(isinstance(x, Term) for x in items):
        for x in items:
            if x.ty in ("none",):
                it.event("typeerror", what="ordering with None", name=name)
                it.do_raise(it.exc("TypeError", K(name)))
        ty = "int" if all(x.ty == "int" for x in items) else "real"
        if any(x.op == "unk" for x in items):
            return unk(name, *items, ty=ty)
        ks = [x for x in items if isnum(x)]
        rest = [x for x in items if not isnum(x)]
        if len(ks) > 1 and rest:
            m = ks[0]
            for x in ks[1:]:
                m = tm.fn(name, m, x, ty=ty)
            items = rest + [m]
        return tm.fn(name, *items, ty=ty)
    return unk(name)


@ext("builtins.max")
def b_max(it, args, kw):
    return _minmax(it, "max", args, kw)


@ext("builtins.min")
def b_min(it, args, kw):
    return _minmax(it, "min", args, kw)


@ext("numpy.amin", "numpy.min", "numpy.nanmin")
def np_amin(it, args, kw):
    return _npred(it, args, kw, lambda xs: _minmax(it, "min", xs, {}) if len(xs) > 1 else xs[0])


@ext("numpy.amax", "numpy.max", "numpy.nanmax")
def np_amax(it, args, kw):
    return _npred(it, args, kw, lambda xs: _minmax(it, "max", xs, {}) if len(xs) > 1 else xs[0])


def _sum_terms(it, xs, start=ZERO):
    t = start
    for x in xs:
        t = it.binop_named("__add__", t, x)
    return t


@ext("builtins.sum")
def b_sum(it, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    segs = it.flatten(it.to_segs(args[0]))
    t = start
    for s in segs:
        if s[0] == "i":
            n = it.binop_named("__add__", t, s[1])
            t = n if s[2] is None else it.vite(s[2], n, t)
        elif s[0] == "m" and len(s[3]) == 1 and s[3][0][0] == "i" and isinstance(s[3][0][1], Term):
            b = s[3][0][1]
            if s[3][0][2] is not None:
                b = ite(s[3][0][2], b, ZERO)
            t = tm.add(t, tm.mul(s[2], b) if s[1] not in tm.free(b) else T("sum", s[1], s[2], b, ty=b.ty))
        else:
            return unk("sum")
    return t


def _npred(it, args, kw, f):
    axis = args[1] if len(args) > 1 else kw.get("axis", NONE)
    if isinstance(args[0], Term):
        return args[0]
    if len(args) > 2 or set(kw) - {"axis", "dtype"}:
        return unk("reduce")
    try:
        x = nd(it, args[0])
    except Unknown:
        segs = it.to_segs(args[0])
        return unk("reduce")
    if not isk(axis):
        return unk("reduce")
    if kval(axis) is None:
        return f(aflat(x))
    ax = kval(axis)
    if ax < 0:
        ax += depth(x)

    def red(y, a):
        if a == 0:
            if depth(y) == 1:
                return f(list(y))
            return [red([r[j] for r in y], 0) for j in range(len(y[0]))]
        return [red(r, a - 1) for r in y]
    return mk(it, red(x, ax))


@ext("numpy.sum", "numpy.nansum")
def np_sum(it, args, kw):
    v = it.norm(args[0])
    if isinstance(v, Ref) and isinstance(it.obj(v), Inst) and it.obj(v).cls.startswith("pd."):
        from . import frames
        return frames.method(it, v, it.obj(v), "sum", args[1:], kw)
    axis = args[1] if len(args) > 1 else kw.get("axis", NONE)
    if axis is NONE and is_seq(it, v) and not set(kw) - {"axis", "dtype"}:
        try:
            nd(it, v)
        except Unknown:
            return b_sum(it, [v], {})
    return _npred(it, args, kw, lambda xs: _sum_terms(it, xs, ZERO))


@ext("numpy.average")
def np_average(it, args, kw):
    w = args[2] if len(args) > 2 else kw.get("weights", NONE)
    axis = args[1] if len(args) > 1 else kw.get("axis", NONE)
    if w is NONE:
        return np_mean(it, args, kw)
    try:
        x, y = nd(it, args[0]), nd(it, w)
    except Unknown:
        return unk("average")
    if depth(y) == 1 and len(x) == len(y) and (depth(x) == 1 or axis is ZERO):
        tot = _sum_terms(it, list(y), ZERO)
        if depth(x) == 1:
            return tm.div(_sum_terms(it, [tm.mul(a, b) for a, b in zip(x, y)], ZERO), tot)
        if depth(x) == 2:
            return mk(it, [tm.div(_sum_terms(it, [tm.mul(r[j], b) for r, b in zip(x, y)], ZERO), tot) for j in range(len(x[0]))])
    return unk("average")


@ext("numpy.var")
def np_var(it, args, kw):
    def f(xs):
        m = tm.div(_sum_terms(it, xs, ZERO), K(len(xs)))
        return tm.div(_sum_terms(it, [tm.mul(tm.sub(x, m), tm.sub(x, m)) for x in xs], ZERO), K(len(xs)))
    return _npred(it, args, kw, f)


@ext("numpy.ptp")
def np_ptp(it, args, kw):
    a, b = EXT["numpy.amax"](it, args, kw), EXT["numpy.amin"](it, args, kw)
    return tm.sub(a, b) if isinstance(a, Term) and isinstance(b, Term) else unk("ptp")


@ext("numpy.mean")
def np_mean(it, args, kw):
    return _npred(it, args, kw, lambda xs: tm.div(_sum_terms(it, xs, ZERO), K(len(xs))))


@ext("numpy.prod")
def np_prod(it, args, kw):
    def f(xs):
        t = ONE
        for x in xs:
            t = tm.mul(t, x)
        return t
    return _npred(it, args, kw, f)


@ext("builtins.all", "numpy.all")
def b_all(it, args, kw):
    v = it.norm(args[0])
    if isinstance(v, Term):
        return it.truth(v)
    axis = args[1] if len(args) > 1 else kw.get("axis", NONE)
    if axis is not NONE:
        return _npred(it, args, kw, lambda xs: and_(*[it.truth(x) for x in xs]))
    cs = []
    for s in it.flatten(it.to_segs(v)):
        if s[0] == "i":
            x = it.norm(s[1])
            c = b_all(it, [x], {}) if is_arr(it, x) else it.truth(x)
            cs.append(c if s[2] is None else or_(not_(s[2]), c))
        elif s[0] == "m" and len(s[3]) == 1 and s[3][0][0] == "i":
            c = it.truth(s[3][0][1])
            if s[3][0][2] is not None:
                c = or_(not_(s[3][0][2]), c)
            cs.append(T("all", s[1], s[2], c, ty="bool") if not isk(c) else or_(c, le(s[2], ZERO)))
        else:
            return unk("all", ty="bool")
    return and_(*cs)


@ext("builtins.any", "numpy.any")
def b_any(it, args, kw):
    v = it.norm(args[0])
    if isinstance(v, Term):
        return it.truth(v)
    axis = args[1] if len(args) > 1 else kw.get("axis", NONE)
    if axis is not NONE:
        return _npred(it, args, kw, lambda xs: or_(*[it.truth(x) for x in xs]))
    cs = []
    for s in it.flatten(it.to_segs(v)):
        if s[0] == "i":
            x = it.norm(s[1])
            c = b_any(it, [x], {}) if is_arr(it, x) else it.truth(x)
            cs.append(c if s[2] is None else and_(s[2], c))
        elif s[0] == "m" and len(s[3]) == 1 and s[3][0][0] == "i":
            c = it.truth(s[3][0][1])
            cs.append(T("any", s[1], s[2], c, ty="bool") if not isk(c) else and_(c, lt(ZERO, s[2])))
        else:
            return unk("any", ty="bool")
    return or_(*cs)


@ext("builtins.abs")
def b_abs(it, args, kw):
    v = it.norm(args[0])
    if it.is_src_inst(v):
        f = it.obj(v).cls.lookup("__abs__")
        if f is None:
            it.event("typeerror", what="abs", name=it.obj(v).cls.name)
            it.do_raise(it.exc("TypeError", K("abs")))
        return it.call(Bound(f, v), [], {})
    return np_elem(it, "abs", [v])


@ext("builtins.round", "numpy.round", "numpy.around")
def b_round(it, args, kw):
    v = it.norm(args[0])
    n = args[1] if len(args) > 1 else kw.get("ndigits", kw.get("decimals", None))
    if isinstance(v, Term) and v.ty in ("none", "str"):
        it.event("typeerror", what="round", name=v.ty)
        it.do_raise(it.exc("TypeError", K("round")))
    if isinstance(v, Term):
        return tm.fn("round", v, *([n] if n is not None and n is not NONE else []))
    try:
        return mk(it, amap(lambda x: tm.fn("round", x, *([n] if n is not None else [])), nd(it, v)))
    except Unknown:
        return unk("round")


@ext("builtins.sorted")
def b_sorted(it, args, kw):
    items = it.known_items(args[0])
    if items is None:
        return it.alloc(LList((("u", "sorted"),), "list"))
    keyf = kw.get("key", NONE)
    ks = items if keyf is NONE else [it.call(keyf, [x], {}) for x in items]
    rev = kw.get("reverse", FALSE)

    def kk(x):
        x = it.norm(x)
        if isk(x):
            return kval(x)
        if isinstance(x, Tup) and all(isk(y) for y in x.items):
            return tuple(kval(y) for y in x.items)
        return None
    vals = [kk(k) for k in ks]
    if len(items) <= 1:
        return it.new_list(items)
    if all(v is not None for v in vals) and isk(rev):
        try:
            order = sorted(range(len(items)), key=lambda j: vals[j], reverse=bool(kval(rev)))
        except TypeError:
            it.do_raise(it.exc("TypeError", K("sorted")))
        return it.new_list([items[j] for j in order])
    if len(items) == 2 and all(isinstance(k, Term) for k in ks) and rev is FALSE:
        c = le(ks[0], ks[1])
        return it.new_list([it.vite(c, items[0], items[1]), it.vite(c, items[1], items[0])])
    return it.alloc(LList((("u", "sorted"),), "list"))


@ext("builtins.reversed")
def b_reversed(it, args, kw):
    return SeqV(tuple(reverse_seg(s) for s in reversed(it.flatten(it.to_segs(args[0])))))


@ext("builtins.map")
def b_map(it, args, kw):
    r = it.new_list([], "gen")
    if len(args) == 2:
        seq = args[1]
    else:
        seq = b_zip(it, args[1:], {})

    def body(v):
        a = [v] if len(args) == 2 else it.known_items(v)
        x = it.call(args[0], a, {})
        o = it.obj(r)
        it.put(r, LList(o.segs + (("i", x, None),), o.kind))
    it.run_loop(seq, body)
    return r


@ext("builtins.filter")
def b_filter(it, args, kw):
    r = it.new_list([], "gen")

    def body(v):
        c = it.truth(v if args[0] is NONE else it.call(args[0], [v], {}))

        def yes():
            o = it.obj(r)
            it.put(r, LList(o.segs + (("i", v, None),), o.kind))
        it.branch(c, yes, lambda: None)
    it.run_loop(args[1], body)
    return r


@ext("builtins.print", "art.tprint", "sys.stdout.write", "pprint.pprint", "sys.stderr.write")
def b_print(it, args, kw):
    it.event("print", args=args)
    return NONE


@ext("builtins.chr", "builtins.ord")
def b_chr(it, args, kw):
    x = it.norm(args[0])
    if isk(x):
        v = kval(x)
        return K(ord(v)) if isinstance(v, str) else K(chr(int(v)))
    return unk("chr")


@ext("art.art")
def b_art(it, args, kw):
    return T("ext", "art", ty="str")


@ext("tqdm.tqdm", "tqdm.auto.tqdm")
def b_tqdm(it, args, kw):
    d = kw.get("disable", FALSE)
    if d is not FALSE:
        def loud():
            it.event("print", args=[])
        it.branch(not_(it.truth(d)), loud, lambda: None)
    else:
        it.event("print", args=[])
    if args:
        return args[0]
    return it.alloc(Inst("tqdm", {}))


@ext("builtins.repr")
def b_repr(it, args, kw):
    v = it.norm(args[0])
    if isinstance(v, Term) and v.ty == "str":
        return K(repr(kval(v))) if isk(v) else unk("repr", ty="str")
    return b_str(it, args, kw)


@ext("builtins.str", "builtins.format")
def b_str(it, args, kw):
    if not args:
        return K("")
    return fmt(it, args[0], kval(args[1]) if len(args) > 1 and isk(args[1]) else "", -1)


@ext("builtins.int")
def b_int(it, args, kw):
    v = args[0] if args else ZERO
    if isk(v):
        try:
            return K(int(kval(v)))
        except Exception as e:
            it.do_raise(it.exc(type(e).__name__))
    if isinstance(v, Term):
        if v.ty == "int":
            return v
        if v.ty == "bool":
            return ite(v, ONE, ZERO)
        if v.ty == "real":
            return T("fn", "trunc", v, ty="int")
        if v.op == "fmt" and v.args[1] == "":
            return v.args[0]
    return unk("int", v if isinstance(v, Term) else "obj", ty="int")


@ext("builtins.float")
def b_pyfloat(it, args, kw):
    if args and is_arr(it, it.norm(args[0])):
        # numpy only converts arrays without axes
        it.event("typeerror", what="float", name="array")
        it.do_raise(it.exc("TypeError", K("only 0-dimensional arrays can be converted to Python scalars")))
    return b_float(it, args, kw)


@ext("numpy.float64", "numpy.float32", "numpy.double")
def b_float(it, args, kw):
    v = it.norm(args[0]) if args else K(0.0)
    if isinstance(v, IteV):
        return it.branch(v.c, lambda: b_float(it, [v.a], {}), lambda: b_float(it, [v.b], {}))
    if isk(v):
        try:
            return K(float(kval(v)))
        except Exception as e:
            it.do_raise(it.exc(type(e).__name__))
    if isinstance(v, Term):
        if v.ty == "real":
            return v
        if v.ty in ("int", "bool"):
            return tm.fn("float", v)
        if v.op == "fmt" and (v.args[1] == "" or re.fullmatch(r"[ +]?\.1[2-9][eEg]", v.args[1])):
            return v.args[0]
        if v.op == "fmt" and v.args[0].ty == "real" and re.fullmatch(r"\.[0-6]f", v.args[1]):
            # digits are lost on the way
            return tm.fn("round", v.args[0], K(int(v.args[1][1:-1])))
        if v.op == "ite":
            return ite(v.args[0], b_float(it, [v.args[1]], {}), b_float(it, [v.args[2]], {}))
        if v.ty == "none":
            it.event("typeerror", what="float", name="None")
            it.do_raise(it.exc("TypeError", K("float")))
        return unk("float", v, ty="real")
    if is_arr(it, v):
        try:
            fl = aflat(nd(it, v))
            if len(fl) == 1:
                return fl[0]
        except Unknown:
            pass
    return unk("float", ty="real")


@ext("builtins.bool")
def b_bool(it, args, kw):
    return it.truth(args[0]) if args else FALSE


@ext("builtins.list")
def b_list(it, args, kw):
    if not args:
        return it.new_list([])
    return it.alloc(LList(it.flatten(it.to_segs(args[0])), "list"))


@ext("builtins.tuple")
def b_tuple(it, args, kw):
    if not args:
        return Tup([])
    items = it.known_items(args[0])
    if items is not None:
        return Tup(items)
    return SeqV(it.to_segs(args[0]), "tuple")


@ext("builtins.set", "builtins.frozenset")
def b_set(it, args, kw):
    return it.alloc(LList(dedupe(it, it.flatten(it.to_segs(args[0]))) if args else (), "set"))


@ext("builtins.dict", "collections.OrderedDict")
def b_dict(it, args, kw, kwsegs=()):
    r = it.alloc(DDict(()))
    if args:
        dict_update(it, r, args[0])
    for k, v in kw.items():
        dict_set(it, r, K(k), v)
    for s in kwsegs:
        it.put(r, DDict(it.obj(r).segs + (s,)))
    return r


@ext("collections.defaultdict")
def b_defaultdict(it, args, kw):
    return it.alloc(DDict((("u", "defaultdict"),)))


@ext("collections.Counter")
def b_counter(it, args, kw):
    return it.alloc(DDict((("u", "counter"),)))


@ext("builtins.id")
def b_id(it, args, kw):
    v = it.norm(args[0])
    return K(v.id) if isinstance(v, Ref) else unk("id", ty="int")


@ext("builtins.type")
def b_type(it, args, kw):
    v = it.norm(args[0])
    if it.is_src_inst(v):
        return it.obj(v).cls
    if isinstance(v, Term) and v.ty in ("int", "real", "bool", "str", "none"):
        return _bi({"int": "int", "real": "float", "bool": "bool", "str": "str", "none": "NoneType"}[v.ty])
    if isinstance(v, Ref):
        o = it.obj(v)
        if isinstance(o, DDict):
            return _bi("dict")
        if isinstance(o, LList):
            return Bi("numpy.ndarray") if o.kind == "arr" else _bi(o.kind)
        return Bi("ext.%s" % (o.cls,))
    if isinstance(v, Tup):
        return _bi("tuple")
    if isinstance(v, (Fn, Bound, PyFn)):
        return Bi("types.FunctionType")
    if isinstance(v, ClassV):
        return _bi("type")
    return unk("type")


@ext("builtins.callable")
def b_callable(it, args, kw):
    v = it.norm(args[0])
    if isinstance(v, IteV):
        return ite(v.c, b_callable(it, [v.a], {}), b_callable(it, [v.b], {}))
    if isinstance(v, (Fn, Bound, PyFn, BiM, ClassV, Bi)):
        return TRUE
    if it.is_src_inst(v):
        return K(it.obj(v).cls.lookup("__call__") is not None)
    if isinstance(v, Term):
        if v.ty == "any" and not isk(v):
            return unk("callable", ty="bool")
        return K(v.ty in ("func", "surface", "path"))
    return FALSE


@ext("builtins.iter")
def b_iter(it, args, kw):
    return args[0]


@ext("builtins.next")
def b_next(it, args, kw):
    segs = it.flatten(it.to_segs(args[0]))
    if segs and segs[0][0] == "i" and segs[0][2] is None:
        if isinstance(args[0], Ref) and isinstance(it.obj(args[0]), LList):
            it.put(args[0], LList(segs[1:], it.obj(args[0]).kind))
        return segs[0][1]
    if not segs:
        if len(args) > 1:
            return args[1]
        it.do_raise(it.exc("StopIteration"))
    if all(s[0] == "i" for s in segs):
        # first present element
        dflt = args[1] if len(args) > 1 else None
        none = not_(or_(*[s[2] if s[2] is not None else TRUE for s in segs]))
        if dflt is None:
            it.may_raise(none, it.exc("StopIteration"))
            v = segs[-1][1]
            rest = segs[:-1]
        else:
            v, rest = dflt, segs
        for s in reversed(rest):
            v = it.vite(s[2] if s[2] is not None else TRUE, s[1], v)
        return it.norm(v)
    return unk("next")


@ext("builtins.vars")
def b_vars(it, args, kw):
    return BiM(args[0], "__dict__")


@ext("builtins.divmod")
def b_divmod(it, args, kw):
    return Tup([tm.floordiv(args[0], args[1]), tm.mod(args[0], args[1])])


@ext("builtins.pow")
def b_pow(it, args, kw):
    return tm.pow_(args[0], args[1])


@ext("builtins.object")
def b_object(it, args, kw):
    return it.alloc(Inst("object", {}))


@ext("builtins.open")
def b_open(it, args, kw):
    it.event("open", path=args[0], mode=args[1] if len(args) > 1 else kw.get("mode", K("r")))
    return it.alloc(Inst("file", {"path": args[0]}))


@ext("builtins.hash")
def b_hash(it, args, kw):
    return unk("hash", ty="int")


@ext("builtins.slice")
def b_slice(it, args, kw):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return SliceV(*a)


@ext("builtins.property")
def b_property(it, args, kw):
    return Prop(args[0], args[1] if len(args) > 1 else None)


@ext("builtins.exit", "sys.exit")
def b_exit(it, args, kw):
    it.do_raise(it.exc("SystemExit"))


# ------------------------------------------------------------------ copy


@ext("copy.copy")
def c_copy(it, args, kw):
    v = it.norm(args[0])
    if isinstance(v, Ref):
        o = it.obj(v)
        if isinstance(o, Inst) and isinstance(o.cls, ClassV):
            f = o.cls.lookup("__copy__")
            if f is not None:
                return it.call(f, [v], {})
            return it.alloc(Inst(o.cls, dict(o.f)))
        if isinstance(o, LList):
            return arr_copy(it, v) if o.kind == "arr" else it.alloc(LList(o.segs, o.kind))
        if isinstance(o, DDict):
            return it.alloc(DDict(o.segs, o.kind))
        return it.alloc(Inst(o.cls, dict(o.f)))
    if isinstance(v, IteV):
        return it.branch(v.c, lambda: c_copy(it, [v.a], {}), lambda: c_copy(it, [v.b], {}))
    return v


@ext("copy.deepcopy")
def c_deepcopy(it, args, kw):
    memo = args[1] if len(args) > 1 else kw.get("memo", NONE)
    if not (isinstance(memo, Ref) and isinstance(it.obj(memo), DDict)):
        memo = it.new_dict()
    return deep(it, args[0], memo)


def deep(it, v, memo):
    v = it.norm(v)
    if isinstance(v, Tup):
        return Tup([deep(it, x, memo) for x in v.items])
    if isinstance(v, IteV):
        return it.branch(v.c, lambda: deep(it, v.a, memo), lambda: deep(it, v.b, memo))
    if isinstance(v, Bound):
        return Bound(v.fn, deep(it, v.self_, memo))
    if isinstance(v, BiM) and isinstance(v.obj, (Ref, FamRef)):
        return BiM(deep(it, v.obj, memo), v.name)
    if not isinstance(v, Ref):
        return v
    key = K(v.id)
    for s in it.obj(memo).segs:
        if s[0] == "e" and s[1] is key:
            return it.norm(s[2])
    o = it.obj(v)
    if isinstance(o, Inst):
        if isinstance(o.cls, ClassV):
            f = o.cls.lookup("__deepcopy__")
            if f is not None:
                r = it.call(f, [v, memo], {})
                dict_set(it, memo, key, r)
                return r
            r = it.alloc(Inst(o.cls, {}))
            dict_set(it, memo, key, r)
            for k, x in list(o.f.items()):
                nv = deep(it, x, memo)
                it.put(r, it.obj(r).with_(k, nv))
            return r
        if o.cls == "env":
            return v
        r = it.alloc(Inst(o.cls, {}))
        dict_set(it, memo, key, r)
        for k, x in list(o.f.items()):
            nv = deep(it, x, memo)
            it.put(r, it.obj(r).with_(k, nv))
        return r
    r = it.alloc(LList((), o.kind) if isinstance(o, LList) else DDict((), o.kind))
    dict_set(it, memo, key, r)

    def segs(ss):
        out = []
        for s in ss:
            if s[0] == "i":
                out.append(("i", deep(it, s[1], memo), s[2]))
            elif s[0] == "e":
                out.append(("e", s[1], deep(it, s[2], memo), s[3]))
            elif s[0] == "m" and all(isinstance(x[1 if x[0] == "i" else 2], Term) for x in s[3] if x[0] in "ie"):
                out.append(s)
            elif s[0] in ("u", "o", "om"):
                out.append(s)
            else:
                out.append(("u", "deepcopy of mapped objects"))
        return tuple(out)
    ns = segs(o.segs)
    it.put(r, LList(ns, o.kind) if isinstance(o, LList) else DDict(ns, o.kind))
    return r


# ------------------------------------------------------------------ numpy


@ext("numpy.linspace")
def np_linspace(it, args, kw):
    a, b = args[0], args[1]
    n = args[2] if len(args) > 2 else kw.get("num", K(50))
    endp = kw.get("endpoint", TRUE)
    if endp is not TRUE:
        return unk("linspace", ty="arr")
    if isk(n) and isinstance(kval(n), int):
        m = kval(n)
        if m <= 64:
            if m < 0:
                it.do_raise(it.exc("ValueError"))
            if m == 1:
                return it.new_list([tm.add(a, K(0.0)) if not isk(a) else K(float(kval(a)))], "arr")
            xs = []
            for k in range(m):
                if isnum(a) and isnum(b):
                    x = K(float(kval(b))) if k == m - 1 else K(float(kval(a)) + k * ((kval(b) - kval(a)) / (m - 1)))
                elif k == 0:
                    x = a
                elif k == m - 1:
                    x = b
                else:
                    x = tm.add(a, tm.mul(K(k / (m - 1)), tm.sub(b, a)))
                xs.append(x)
            return it.new_list(xs, "arr")
    if isinstance(n, Term) and n.ty in ("real", "str", "none"):
        it.event("typeerror", what="linspace", name=str(n))
        it.do_raise(it.exc("TypeError", K("linspace")))
    v = tm.fresh_bv("i")
    x = tm.add(a, tm.div(tm.mul(v, tm.sub(b, a)), tm.sub(n, ONE)))
    return it.alloc(LList((("m", v, n, (("i", x, None),)),), "arr"))


def _shape_arg(it, v):
    if isinstance(v, Term):
        return [v]
    return it.known_items(v)


def _full(it, sh, val, kw):
    dt = kw.get("dtype")
    if isinstance(dt, Bi) and dt.path == "stl.mesh.Mesh.dtype":
        n = sh[0]
        if isk(n) and kval(n) <= 1024:
            vec = mk(it, [[[K(0.0)] * 3 for _ in range(3)] for _ in range(int(kval(n)))])
        else:
            v = tm.fresh_bv("t")
            vec = it.alloc(LList((("m", v, n, (("i", unk("zero facet"), None),)),), "arr"))
        return it.alloc(Inst("stl.data", {"vectors": vec}))
    if all(isk(s) and isinstance(kval(s), int) and kval(s) <= 256 for s in sh):
        def build(ds):
            if not ds:
                return val
            return [build(ds[1:]) for _ in range(kval(ds[0]))]
        return mk(it, build(list(sh)))
    if len(sh) == 1:
        v = tm.fresh_bv("i")
        return it.alloc(LList((("m", v, sh[0], (("i", val, None),)),), "arr"))
    return unk("zeros", ty="arr")


@ext("numpy.zeros", "numpy.empty")
def np_zeros(it, args, kw):
    kw = dict(kw)
    if len(args) > 1:
        kw["dtype"] = args[1]
    return _full(it, _shape_arg(it, args[0] if args else kw["shape"]), K(0.0), kw)


@ext("numpy.ones")
def np_ones(it, args, kw):
    return _full(it, _shape_arg(it, args[0]), K(1.0), kw)


@ext("numpy.full")
def np_full(it, args, kw):
    return _full(it, _shape_arg(it, args[0]), args[1], kw)


@ext("numpy.zeros_like", "numpy.empty_like")
def np_zeros_like(it, args, kw):
    return _full_like(it, args[0], K(0.0))


@ext("numpy.ones_like")
def np_ones_like(it, args, kw):
    return _full_like(it, args[0], K(1.0))


@ext("numpy.full_like")
def np_full_like(it, args, kw):
    return _full_like(it, args[0], args[1] if len(args) > 1 else kw["fill_value"])


def _full_like(it, a, val):
    if isinstance(a, Term):
        return val
    try:
        return mk(it, amap(lambda x: val, nd(it, a)))
    except Unknown:
        return smap(it, lambda x: val, a)


@ext("numpy.eye", "numpy.identity")
def np_eye(it, args, kw):
    if isk(args[0]):
        n = kval(args[0])
        return mk(it, [[K(1.0 if i == j else 0.0) for j in range(n)] for i in range(n)])
    return unk("eye", ty="arr")


@ext("numpy.array", "numpy.asarray", "numpy.copy", "numpy.asanyarray", "numpy.ascontiguousarray")
def np_array(it, args, kw):
    v = it.norm(args[0])
    if isinstance(v, Term):
        return v
    if isinstance(v, IteV):
        return it.branch(v.c, lambda: np_array(it, [v.a], kw), lambda: np_array(it, [v.b], kw))
    if isinstance(v, Ref) and isinstance(it.obj(v), Inst):
        o = it.obj(v)
        if o.cls == "stl.Mesh":
            return unk("array of mesh", ty="arr")
        if not isinstance(o.cls, ClassV) and o.cls not in ("pd.Series", "pd.DataFrame"):
            return unk("array", ty="arr")
    try:
        return mk(it, nd(it, v))
    except Unknown:
        return it.alloc(LList(it.to_segs(v), "arr"))


def _joined(it, parts, axis):
    """Nested lists joined along an axis."""
    if axis == 0:
        return [y for x in parts for y in x]
    return [_joined(it, [x[k] for x in parts], axis - 1) for k in range(len(parts[0]))]


def _arrays(it, seq):
    items = it.known_items(seq)
    if items is None:
        raise Unknown()
    return [nd(it, x) for x in items]


@ext("numpy.vstack", "numpy.row_stack")
def np_vstack(it, args, kw):
    try:
        xs = [x if depth(x) > 1 else [x] if depth(x) else [[x]] for x in _arrays(it, args[0])]
        return mk(it, _joined(it, xs, 0))
    except Unknown:
        items = it.known_items(args[0])
        if items and all(is_seq(it, x) and any(not isinstance(y, Term) for y in it.known_items(x) or ()) for x in items):
            return np_concatenate(it, args, {})
        return unk("vstack", ty="arr")


@ext("numpy.hstack")
def np_hstack(it, args, kw):
    try:
        xs = [x if depth(x) else [x] for x in _arrays(it, args[0])]
        return mk(it, _joined(it, xs, 0 if depth(xs[0]) == 1 else 1))
    except Unknown:
        return unk("hstack", ty="arr")


@ext("numpy.column_stack")
def np_column_stack(it, args, kw):
    try:
        xs = [x if depth(x) > 1 else [[y] for y in x] for x in _arrays(it, args[0])]
        return mk(it, _joined(it, xs, 1))
    except Unknown:
        return unk("column_stack", ty="arr")


@ext("numpy.stack", "numpy.dstack")
def np_stack(it, args, kw):
    ax = args[1] if len(args) > 1 else kw.get("axis", ZERO)
    try:
        xs = _arrays(it, args[0])
        n = depth(xs[0])
        if not isk(ax) or not n:
            raise Unknown()

        def at(parts, k):
            return list(parts) if k == 0 else [at([x[j] for x in parts], k - 1) for j in range(len(parts[0]))]
        return mk(it, at(xs, kval(ax) % (n + 1)))
    except Unknown:
        return unk("stack", ty="arr")


@ext("numpy.append")
def np_append(it, args, kw):
    if "axis" in kw or len(args) > 2:
        return np_concatenate(it, [Tup([args[0], args[1]])], {"axis": kw.get("axis", args[2] if len(args) > 2 else ZERO)})
    try:
        a, b = nd(it, args[0]), nd(it, args[1])
        return mk(it, (aflat(a) if depth(a) else [a]) + (aflat(b) if depth(b) else [b]))
    except Unknown:
        return unk("append", ty="arr")


@ext("numpy.tile")
def np_tile(it, args, kw):
    n = it.norm(args[1])
    try:
        x = nd(it, args[0])
        if isinstance(n, Term) and isk(n) and 0 < kval(n) <= 64 and depth(x) == 1:
            return mk(it, x * kval(n))
        ns = it.known_items(n) if not isinstance(n, Term) else None
        if ns and len(ns) == 2 and depth(x) == 1 and all(isk(k) and 0 < kval(k) <= 64 for k in ns):
            return mk(it, [list(x * kval(ns[1])) for _ in range(kval(ns[0]))])
    except Unknown:
        pass
    return unk("tile", ty="arr")


@ext("numpy.repeat")
def np_repeat(it, args, kw):
    n = it.norm(args[1])
    try:
        x = nd(it, args[0])
        if isinstance(n, Term) and isk(n) and 0 <= kval(n) <= 64 and depth(x) <= 1 and "axis" not in kw:
            return mk(it, [y for y in (x if depth(x) else [x]) for _ in range(kval(n))])
    except Unknown:
        pass
    return unk("repeat", ty="arr")


@ext("numpy.sort")
def np_sort(it, args, kw):
    try:
        x = nd(it, args[0])
        if depth(x) == 1 and len(x) <= 8:
            order = it.known_items(np_argsort(it, [args[0]], {}))
            if order is not None:
                a = it.new_list(list(x), "arr")
                return it.new_list([it.getitem(a, k) for k in order], "arr")
        if depth(x) == 1 and all(isnum(y) for y in x):
            return it.new_list(sorted(x, key=kval), "arr")
    except Unknown:
        pass
    return unk("sort", ty="arr")


@ext("numpy.meshgrid")
def np_meshgrid(it, args, kw):
    ij = kw.get("indexing", K("xy"))
    try:
        a, b = [nd(it, x) for x in args]
        if depth(a) == depth(b) == 1 and isk(ij):
            if kval(ij) == "ij":
                return Tup([mk(it, [[x for _ in b] for x in a]), mk(it, [list(b) for _ in a])])
            return Tup([mk(it, [list(a) for _ in b]), mk(it, [[y for _ in a] for y in b])])
    except (Unknown, ValueError):
        pass
    return unk("meshgrid")


@ext("numpy.concatenate")
def np_concatenate(it, args, kw):
    ax = args[1] if len(args) > 1 else kw.get("axis", ZERO)
    if ax is not ZERO and not (isk(ax) and kval(ax) == 0):
        try:
            xs = _arrays(it, args[0])
            if not isk(ax) or kval(ax) is None:
                raise Unknown()
            return mk(it, _joined(it, xs, kval(ax) % depth(xs[0])))
        except Unknown:
            return unk("concatenate", ty="arr")
    items = it.known_items(args[0])
    if items is None:
        return unk("concatenate", ty="arr")
    if items and all(isinstance(x, Ref) and isinstance(it.obj(x), Inst) and it.obj(x).cls == "stl.data" for x in items):
        segs = []
        for x in items:
            segs += list(it.obj(arr_copy(it, it.norm(it.obj(x).f["vectors"]))).segs)
        return it.alloc(Inst("stl.data", {"vectors": it.alloc(LList(segs, "arr"))}))
    if not items:
        it.do_raise(it.exc("ValueError", K("need at least one array to concatenate")))
    segs = []
    for x in items:
        if not is_seq(it, x):
            return unk("concatenate", ty="arr")
        segs += list(it.obj(arr_copy(it, np_array(it, [x], {}))).segs)
    return it.alloc(LList(segs, "arr"))


@ext("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot")
def np_dot(it, args, kw):
    try:
        a, b = nd(it, args[0]), nd(it, args[1])
    except Unknown:
        return unk("dot")

    def s(xs, ys):
        t = None
        for x, y in zip(xs, ys):
            p = tm.mul(x, y)
            t = p if t is None else tm.add(t, p)
        return t
    da, db = depth(a), depth(b)
    if da == 1 and db == 1:
        return s(a, b)
    if da == 2 and db == 1:
        return mk(it, [s(r, b) for r in a])
    if da == 1 and db == 2:
        return mk(it, [s(a, [r[j] for r in b]) for j in range(len(b[0]))])
    if da == 2 and db == 2:
        return mk(it, [[s(r, [q[j] for q in b]) for j in range(len(b[0]))] for r in a])
    if da == 0 or db == 0:
        return mk(it, bcast(tm.mul, a, b))
    return unk("dot")


@ext("numpy.outer")
def np_outer(it, args, kw):
    try:
        a, b = nd(it, args[0]), nd(it, args[1])
        return mk(it, [[tm.mul(x, y) for y in b] for x in a])
    except Unknown:
        return unk("outer", ty="arr")


@ext("numpy.cross")
def np_cross(it, args, kw):
    try:
        a, b = nd(it, args[0]), nd(it, args[1])

        def c(p, q):
            f = lambda i, j: tm.sub(tm.mul(p[i], q[j]), tm.mul(p[j], q[i]))
            return [f(1, 2), f(2, 0), f(0, 1)]
        if depth(a) == 1 and depth(b) == 1:
            return mk(it, c(a, b))
        if depth(a) == 2 and depth(b) == 2:
            return mk(it, [c(p, q) for p, q in zip(a, b)])
    except Unknown:
        pass
    return unk("cross", ty="arr")


@ext("numpy.linalg.norm")
def np_norm(it, args, kw):
    if isinstance(args[0], Term):
        return tm.fn("abs", args[0])
    if len(args) > 1 or kw:
        ax = kw.get("axis")
        if ax is not None and set(kw) == {"axis"}:
            return _npred(it, [args[0], ax], {}, lambda xs: tm.fn("sqrt", _sum_terms(it, [tm.mul(x, x) for x in xs], ZERO)))
        return unk("norm")
    try:
        xs = aflat(nd(it, args[0]))
        return tm.fn("sqrt", _sum_terms(it, [tm.mul(x, x) for x in xs], ZERO))
    except Unknown:
        return unk("norm", ty="real")


@ext("numpy.trace")
def np_trace(it, args, kw):
    x = nd(it, args[0])
    return _sum_terms(it, [x[i][i] for i in range(len(x))])


@ext("numpy.diag")
def np_diag(it, args, kw):
    x = nd(it, args[0])
    if depth(x) == 1:
        return mk(it, [[x[i] if i == j else K(0.0) for j in range(len(x))] for i in range(len(x))])
    return mk(it, [x[i][i] for i in range(len(x))])


@ext("numpy.transpose")
def np_transpose(it, args, kw):
    return np_T(it, args[0])


@ext("math.comb")
def math_comb(it, args, kw):
    if all(isinstance(a, Term) and isk(a) and isinstance(kval(a), int) for a in args):
        return K(math.comb(kval(args[0]), kval(args[1])))
    return unk("comb", ty="int")


@ext("math.isclose")
def math_isclose(it, args, kw):
    a, b = it.norm(args[0]), it.norm(args[1])
    if not isinstance(a, Term) or not isinstance(b, Term):
        return unk("isclose", ty="bool")
    big = tm.fn("max", tm.fn("abs", a), tm.fn("abs", b))
    return le(tm.fn("abs", tm.sub(a, b)), tm.fn("max", tm.mul(kw.get("rel_tol", K(1e-9)), big), kw.get("abs_tol", K(0.0))))


@ext("numpy.isclose")
def np_isclose(it, args, kw):
    a, b = it.norm(args[0]), it.norm(args[1])
    rt = args[2] if len(args) > 2 else kw.get("rtol", K(1e-5))
    at = args[3] if len(args) > 3 else kw.get("atol", K(1e-8))
    if isinstance(a, Term) and isinstance(b, Term):
        if a is b and a.op != "unk":
            return TRUE
        return tm.fn("isclose", a, b, rt, at, ty="bool")
    try:
        return mk(it, bcast(lambda x, y: tm.fn("isclose", x, y, rt, at, ty="bool"), nd(it, a), nd(it, b)))
    except Unknown:
        return unk("isclose", ty="arr")


@ext("numpy.allclose")
def np_allclose(it, args, kw):
    return b_all(it, [np_isclose(it, args, kw)], {})


@ext("numpy.array_equal")
def np_array_equal(it, args, kw):
    try:
        return and_(*aflat(bcast(eq, nd(it, args[0]), nd(it, args[1]))))
    except Unknown:
        return unk("array_equal", ty="bool")


@ext("numpy.logical_and")
def np_land(it, args, kw):
    return _logical(it, args, and_)


@ext("numpy.logical_or")
def np_lor(it, args, kw):
    return _logical(it, args, or_)


def _logical(it, args, f):
    a, b = it.norm(args[0]), it.norm(args[1])
    if isinstance(a, Term) and isinstance(b, Term):
        return f(it.truth(a), it.truth(b))
    try:
        return mk(it, bcast(f, nd(it, a), nd(it, b)))
    except Unknown:
        return unk("logical", ty="arr")


@ext("numpy.where")
def np_where(it, args, kw):
    c = it.norm(args[0])
    if len(args) == 3:
        if isinstance(c, Term):
            ct = it.truth(c)
            try:
                return mk(it, bcast(lambda x, y: it.vite(ct, x, y), nd(it, args[1]), nd(it, args[2])))
            except Unknown:
                return unk("where", ty="arr")
        try:
            cc, x, y = nd(it, c), nd(it, args[1]), nd(it, args[2])
            xy = bcast(lambda p, q: (p, q), x, y)
            return mk(it, bcast(lambda k, pq: it.vite(k, pq[0], pq[1]), cc, xy))
        except Unknown:
            return unk("where", ty="arr")
    items = it.known_items(c)
    if items is None:
        return Tup([it.alloc(LList((("u", "where"),), "arr"))])
    segs = []
    for k, x in enumerate(items):
        d = it.decide(x)
        if d is False:
            continue
        segs.append(("i", K(k), None if d is True else x))
    return Tup([it.alloc(LList(segs, "arr"))])


@ext("numpy.argsort")
def np_argsort(it, args, kw):
    xs = it.known_items(args[0])
    if xs is None or len(xs) > 8 or not all(isinstance(x, Term) for x in xs):
        return unk("argsort", ty="arr")
    ranks = []
    for i, x in enumerate(xs):
        n = ZERO
        for j, y in enumerate(xs):
            if j != i:
                n = tm.add(n, ite(le(y, x) if j < i else lt(y, x), ONE, ZERO))
        ranks.append(n)
    out = []
    for p in range(len(xs)):
        v = K(len(xs) - 1)
        for i in range(len(xs) - 2, -1, -1):
            v = ite(eq(ranks[i], K(p)), K(i), v)
        out.append(v)
    return it.new_list(out, "arr")


@ext("numpy.argmin")
def np_argmin(it, args, kw):
    return _argext(it, args, kw, lt)


@ext("numpy.argmax")
def np_argmax(it, args, kw):
    return _argext(it, args, kw, lambda x, y: lt(y, x))


def _argext(it, args, kw, better):
    try:
        xs = aflat(nd(it, args[0]))
    except Unknown:
        xs = None
    if not xs or len(xs) > 64 or len(args) > 1 or "axis" in kw or not all(isinstance(x, Term) for x in xs):
        return unk("argmin", ty="int")
    xs = [ite(x, ONE, ZERO) if x.ty == "bool" else x for x in xs]
    i, best = ZERO, xs[0]
    for k, x in enumerate(xs[1:], 1):
        c = better(x, best)
        i, best = ite(c, K(k), i), ite(c, x, best)
    return i


@ext("numpy.searchsorted")
def np_searchsorted(it, args, kw):
    xs = it.known_items(args[0])
    side = kw.get("side", args[2] if len(args) > 2 else K("left"))
    if xs is None or not isk(side) or not isinstance(args[1], Term):
        return unk("searchsorted", ty="int")
    n = ZERO
    for x in xs:
        n = tm.add(n, ite(lt(x, args[1]) if kval(side) == "left" else le(x, args[1]), ONE, ZERO))
    return n


@ext("numpy.interp")
def np_interp(it, args, kw):
    x, xs, ys = it.norm(args[0]), args[1], args[2]
    left = args[3] if len(args) > 3 else kw.get("left", NONE)
    right = args[4] if len(args) > 4 else kw.get("right", NONE)
    if not isinstance(x, Term):
        try:
            return mk(it, amap(lambda v: np_interp(it, [v, xs, ys], kw), nd(it, x)))
        except Unknown:
            return unk("interp", ty="arr")
    xi, yi = it.known_items(xs), it.known_items(ys)
    if xi is not None and yi is not None and len(xi) == len(yi) and xi and len(xi) <= 40:
        lv = yi[0] if left is NONE else left
        rv = yi[-1] if right is NONE else right
        v = rv
        v = ite(le(x, xi[-1]), yi[-1], rv)
        for k in range(len(xi) - 2, -1, -1):
            seg = tm.add(yi[k], tm.div(tm.mul(tm.sub(yi[k + 1], yi[k]), tm.sub(x, xi[k])), tm.sub(xi[k + 1], xi[k])))
            v = ite(lt(x, xi[k + 1]), seg, v)
        return ite(lt(x, xi[0]), lv, v)
    try:
        lo, hi = it.getitem(xs, ZERO), it.getitem(xs, K(-1))
        tlo = it.getitem(ys, ZERO) if left is NONE else left
        thi = it.getitem(ys, K(-1)) if right is NONE else right
        if all(isinstance(v, Term) for v in (lo, hi, tlo, thi)):
            return T("fn", "interp", x, lo, hi, tlo, thi, ty="real")
    except Unknown:
        pass
    return unk("interp", ty="real")


@ext("numpy.fromfunction")
def np_fromfunction(it, args, kw):
    sh = it.known_items(args[1])
    if sh is None or not all(isk(s) and kval(s) <= 16 for s in sh):
        return unk("fromfunction", ty="arr")

    def build(pre, ds):
        if not ds:
            return it.call(args[0], [K(float(p)) for p in pre], {})
        return [build(pre + [k], ds[1:]) for k in range(kval(ds[0]))]
    return mk(it, build([], sh))


@ext("numpy.shape")
def np_shape(it, args, kw):
    return it.getattr(args[0], "shape")


@ext("numpy.size")
def np_size(it, args, kw):
    return it.getattr(args[0], "size")


@ext("numpy.finfo")
def np_finfo(it, args, kw):
    return it.alloc(Inst("finfo", {"eps": K(2.220446049250313e-16), "max": K(1.7976931348623157e308), "tiny": K(2.2250738585072014e-308)}))


@ext("numpy.reshape")
def np_reshape_fn(it, args, kw):
    return np_reshape(it, args[0], it.known_items(args[1]))


@ext("numpy.cumsum")
def np_cumsum(it, args, kw):
    items = it.known_items(args[0])
    if items is None:
        segs = it.flatten(it.to_segs(args[0])) if is_seq(it, args[0]) else ()
        if len(segs) == 1 and segs[0][0] == "m" and len(segs[0][3]) == 1 and segs[0][3][0][0] == "i" and segs[0][3][0][2] is None \
                and isinstance(segs[0][3][0][1], Term) and "axis" not in kw:
            _, v, n, ((_, b, _),) = segs[0]
            w = tm.fresh_bv("c")
            tot = T("sum", v, tm.add(w, ONE), b, ty=b.ty) if v in tm.free(b) else tm.mul(tm.add(w, ONE), b)
            return it.alloc(LList((("m", w, n, (("i", tot, None),)),), "arr"))
        return unk("cumsum", ty="arr")
    out, t = [], None
    for x in items:
        t = x if t is None else tm.add(t, x)
        out.append(t)
    return it.new_list(out, "arr")


@ext("numpy.diff")
def np_diff(it, args, kw):
    items = it.known_items(args[0])
    if items is None:
        return unk("diff", ty="arr")
    return it.new_list([tm.sub(b, a) for a, b in zip(items, items[1:])], "arr")


@ext("numpy.isscalar")
def np_isscalar(it, args, kw):
    return K(isinstance(it.norm(args[0]), Term))


@ext("numpy.ravel")
def np_ravel(it, args, kw):
    return arr_method(it, np_array(it, [args[0]], {}), "ravel", [], {})


@ext("numpy.flip")
def np_flip(it, args, kw):
    try:
        x = nd(it, args[0])
    except Unknown:
        return unk("flip", ty="arr")
    ax = args[1] if len(args) > 1 else kw.get("axis", NONE)
    if depth(x) == 1 or depth(x) == 2 and ax is ZERO:
        return mk(it, x[::-1])
    if depth(x) == 2 and isk(ax) and kval(ax) in (1, -1):
        return mk(it, [r[::-1] for r in x])
    if depth(x) == 2 and ax is NONE:
        return mk(it, [r[::-1] for r in x[::-1]])
    return unk("flip", ty="arr")


@ext("numpy.roll")
def np_roll(it, args, kw):
    try:
        x = nd(it, args[0])
    except Unknown:
        return unk("roll", ty="arr")
    n = args[1] if len(args) > 1 else kw.get("shift")
    if depth(x) == 1 and x and isinstance(n, Term) and isk(n):
        k = kval(n) % len(x)
        return mk(it, x[len(x) - k:] + x[:len(x) - k])
    return unk("roll", ty="arr")


@ext("numpy.nonzero")
def np_nonzero(it, args, kw):
    items = it.known_items(args[0])
    if items is None or not all(isinstance(x, Term) for x in items):
        return unk("nonzero")
    return np_where(it, [it.new_list([it.truth(x) for x in items], "arr")], {})


@ext("numpy.flatnonzero")
def np_flatnonzero(it, args, kw):
    r = np_nonzero(it, args, kw)
    return r.items[0] if isinstance(r, Tup) else unk("flatnonzero", ty="arr")


@ext("numpy.count_nonzero")
def np_count_nonzero(it, args, kw):
    try:
        xs = aflat(nd(it, args[0]))
    except Unknown:
        xs = None
    if xs is None or "axis" in kw or len(args) > 1:
        return unk("count_nonzero", ty="int")
    n = ZERO
    for x in xs:
        n = tm.add(n, ite(it.truth(x), ONE, ZERO))
    return n


@ext("numpy.polyval")
def np_polyval(it, args, kw):
    cs = it.known_items(args[0])
    if cs is None or not isinstance(args[1], Term):
        return unk("polyval")
    t = K(0.0)
    for c in cs:
        t = tm.add(tm.mul(t, args[1]), c)
    return t


@ext("numpy.ndim")
def np_ndim(it, args, kw):
    try:
        return K(depth(nd(it, args[0])))
    except Unknown:
        return unk("ndim", ty="int")


@ext("numpy.fromiter")
def np_fromiter(it, args, kw):
    return np_array(it, [EXT["builtins.list"](it, [args[0]], {})], {})


@ext("numpy.fmod", "math.fmod")
def np_fmod(it, args, kw):
    a, b = it.norm(args[0]), it.norm(args[1])
    if isinstance(a, Term) and isinstance(b, Term):
        return tm.sub(a, tm.mul(b, tm.fn("trunc", tm.div(a, b))))
    return unk("fmod")


@ext("math.dist")
def math_dist(it, args, kw):
    a, b = it.known_items(args[0]), it.known_items(args[1])
    if a is None or b is None or len(a) != len(b):
        return unk("dist", ty="real")
    return tm.fn("sqrt", _sum_terms(it, [tm.mul(tm.sub(x, y), tm.sub(x, y)) for x, y in zip(a, b)], ZERO))


@ext("math.prod")
def math_prod(it, args, kw):
    xs = it.known_items(args[0])
    if xs is None:
        return unk("prod")
    t = kw.get("start", ONE)
    for x in xs:
        t = tm.mul(t, x)
    return t


@ext("math.fsum")
def math_fsum(it, args, kw):
    return b_sum(it, [args[0]], {})


@ext("builtins.dict.fromkeys")
def dict_fromkeys(it, args, kw):
    ks = it.known_items(args[0])
    if ks is None:
        return unk("fromkeys")
    v = args[1] if len(args) > 1 else NONE
    return EXT["builtins.dict"](it, [it.new_list([Tup([k, v]) for k in ks])], {})


@ext("numpy.expand_dims")
def np_expand_dims(it, args, kw):
    ax = args[1] if len(args) > 1 else kw.get("axis")
    try:
        x = nd(it, args[0])
        if isinstance(ax, Term) and isk(ax):
            k = kval(ax) % (depth(x) + 1)

            def at(y, k):
                return [y] if k == 0 else [at(z, k - 1) for z in y]
            return mk(it, at(x, k))
    except Unknown:
        pass
    return unk("expand_dims", ty="arr")


@ext("numpy.vectorize")
def np_vectorize(it, args, kw):
    f = args[0]

    def g(it, a, k):
        if all(isinstance(x, Term) for x in a):
            return it.call(f, a, k)
        try:
            xs = [nd(it, x) for x in a]
        except Unknown:
            return unk("vectorize", ty="arr")
        if len(xs) == 1:
            return mk(it, amap(lambda x: it.call(f, [x], k), xs[0]))
        if len(xs) == 2:
            return mk(it, bcast(lambda x, y: it.call(f, [x, y], k), xs[0], xs[1]))
        return unk("vectorize", ty="arr")
    return PyFn(g, "vectorize") if not kw else unk("vectorize")


@ext("numpy.unique")
def np_unknown(it, args, kw):
    return unk("numpy", ty="arr")


# ------------------------------------------------------------------ others


@ext("scipy.optimize.bisect", "scipy.optimize.brentq")
def sp_bisect(it, args, kw):
    f, a, b = [args[i] if len(args) > i else kw[k] for i, k in enumerate(("f", "a", "b"))]
    extra = it.known_items(kw["args"]) if "args" in kw else []
    v = tm.sym("#u%d" % it.fresh(), "real")
    n = len(it.raises)
    r = it.call(f, [v] + list(extra or []), {})
    if isinstance(r, Term) and isinstance(a, Term) and isinstance(b, Term):
        return T("root", v, a, b, r, ty="real")
    return unk("bisect", ty="real")


@ext("os.path.join")
def os_join(it, args, kw):
    parts = []
    for a in args:
        a = it.norm(a)
        if not isinstance(a, Term):
            return unk("join", ty="str")
        if a.ty in ("none", "int", "real"):
            it.event("typeerror", what="path", name=str(a))
            it.do_raise(it.exc("TypeError", K("join")))
        if isk(a) and kval(a).startswith("/"):
            parts = [a]
            continue
        if parts:
            last = parts[-1]
            if isk(last) and (kval(last) == "" or kval(last).endswith("/")):
                parts.append(a)
                continue
            parts.append(K("/"))
        parts.append(a)
    return tm.cat(*parts)


@ext("os.path.exists", "os.path.isdir", "os.path.isfile")
def os_exists(it, args, kw):
    p = it.norm(args[0])
    it.event("fs", op="exists", path=p)
    for e in it.fsknown:
        if p is e:
            return TRUE
    if isinstance(p, Term):
        return tm.app("fs.exists", p, ty="bool")
    return unk("exists", ty="bool")


@ext("os.mkdir", "os.makedirs")
def os_mkdir(it, args, kw):
    it.event("write", how="mkdir", path=it.norm(args[0]), value=NONE)
    return NONE


@ext("os.getcwd")
def os_getcwd(it, args, kw):
    return tm.sym("cwd", "str")


def path_parts(p):
    """(directory, file) of a path whose last separator is in its known tail, else None."""
    if not isinstance(p, Term):
        return None
    parts = list(p.args) if p.op == "cat" else [p]
    if all(isk(x) and isinstance(kval(x), str) for x in parts):
        d, f = os.path.split("".join(kval(x) for x in parts))
        return K(d), K(f)
    tail = ""
    while parts and isk(parts[-1]) and isinstance(kval(parts[-1]), str):
        tail = kval(parts.pop()) + tail
        if "/" in tail:
            d, f = tail.rsplit("/", 1)
            if d.endswith("/"):
                return None
            return tm.cat(*parts, K(d)) if d else tm.cat(*parts), K(f)
    return None


@ext("os.path.dirname")
def os_dirname(it, args, kw):
    p = path_parts(it.norm(args[0]))
    return p[0] if p else unk("os", ty="str")


@ext("os.path.basename")
def os_basename(it, args, kw):
    p = path_parts(it.norm(args[0]))
    return p[1] if p else unk("os", ty="str")


@ext("os.path.splitext")
def os_splitext(it, args, kw):
    p = it.norm(args[0])
    if isk(p) and isinstance(kval(p), str):
        return tuple(K(x) for x in os.path.splitext(kval(p)))
    return unk("os", ty="str")


@ext("os.path.abspath", "glob.glob")
def os_misc(it, args, kw):
    return unk("os", ty="str")


@ext("os.remove", "os.unlink", "os.rename", "shutil.rmtree", "os.rmdir", "shutil.move", "os.replace")
def os_remove(it, args, kw):
    it.event("fsremove", args=args)
    return NONE


@ext("multiprocess.pool.Pool")
def mp_pool(it, args, kw):
    r = it.alloc(Inst("Pool", {"open": TRUE}))
    it.event("poolopen", obj=r)
    return r


@ext("stl.mesh.Mesh")
def stl_mesh(it, args, kw):
    d = it.norm(args[0]) if args else it.norm(kw["data"])
    if isinstance(d, Ref) and isinstance(it.obj(d), Inst) and it.obj(d).cls == "stl.data":
        return it.alloc(Inst("stl.Mesh", {"data": d}))
    return unk("Mesh of unknown data")


@ext("itertools.chain")
def it_chain(it, args, kw):
    segs = []
    for a in args:
        segs += list(it.to_segs(a))
    return SeqV(segs)


@ext("itertools.cycle")
def it_cycle(it, args, kw):
    return it.alloc(Inst("iter", {"seq": args[0], "cycle": TRUE}))


@ext("itertools.product")
def it_product(it, args, kw):
    lists = [it.known_items(a) for a in args]
    if any(l is None for l in lists):
        return SeqV([("u", "product")])
    out = [[]]
    for l in lists:
        out = [o + [x] for o in out for x in l]
    return SeqV([("i", Tup(o), None) for o in out])


@ext("itertools.repeat")
def it_repeat(it, args, kw):
    if len(args) > 1 and isk(args[1]):
        return SeqV([("i", args[0], None)] * kval(args[1]))
    return SeqV([("u", "repeat")])


@ext("functools.partial")
def ft_partial(it, args, kw):
    f, pre = args[0], list(args[1:])
    return PyFn(lambda it, a, k: it.call(f, pre + list(a), {**kw, **k}), "partial")


@ext("functools.wraps")
def ft_wraps(it, args, kw):
    return PyFn(lambda it, a, k: a[0], "wraps")


@ext("functools.reduce")
def ft_reduce(it, args, kw):
    items = it.known_items(args[1])
    if items is None:
        return unk("reduce")
    if len(args) > 2:
        acc = args[2]
    else:
        acc, items = items[0], items[1:]
    for x in items:
        acc = it.call(args[0], [acc, x], {})
    return acc


@ext("operator.attrgetter")
def op_attrgetter(it, args, kw):
    n = kval(args[0])
    return PyFn(lambda it, a, k: it.getattr(a[0], n), "attrgetter")


@ext("operator.itemgetter")
def op_itemgetter(it, args, kw):
    n = args[0]
    return PyFn(lambda it, a, k: it.getitem(a[0], n), "itemgetter")


@ext("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings")
def w_warn(it, args, kw):
    it.event("warn", args=args)
    return NONE


@ext("contextlib.contextmanager", "abc.abstractmethod", "functools.lru_cache", "functools.cache", "typing.overload", "typing.no_type_check")
def ident(it, args, kw):
    return args[0] if args else PyFn(lambda it, a, k: a[0], "decorator")


@ext("typing.TypeVar", "typing.NewType", "typing.cast")
def ty_var(it, args, kw):
    return args[-1] if len(args) > 1 else unk("typevar")


# xml ------------------------------------------------------------------


@ext("xml.etree.ElementTree.parse")
def et_parse(it, args, kw):
    p = it.norm(args[0])
    for k, v in it.xmlfiles:
        if k is p:
            return it.alloc(Inst("xmltree", {"root": v, "path": p}))
    return unk("xml parse")


@ext("xml.etree.ElementTree.SubElement")
def et_sub(it, args, kw):
    ch = it.new_list([])
    att = it.new_dict()
    if len(args) > 2:
        dict_update(it, att, args[2])
    for k, v in kw.items():
        dict_set(it, att, K(k), v)
    e = it.alloc(Inst("xml", {"tag": args[1], "attrib": att, "text": NONE, "children": ch}))
    par = it.norm(args[0])
    if isinstance(par, Ref) and isinstance(it.obj(par), Inst) and it.obj(par).cls == "xml":
        c = it.norm(it.obj(par).f["children"])
        o = it.obj(c)
        it.put(c, LList(o.segs + (("i", e, None),), o.kind))
    return e


@ext("pymesh.meshio.load_mesh")
def pm_load(it, args, kw):
    it.event("read", how="stl", path=it.norm(args[0]))
    return tm.app("pymesh.load", it.norm(args[0]), ty="any") if isinstance(it.norm(args[0]), Term) else unk("load")


@ext("pymesh.merge_meshes")
def pm_merge(it, args, kw):
    items = it.known_items(args[0])
    it.event("merge", items=items)
    return T("ext", "merged")


@ext("pymesh.resolve_self_intersection")
def pm_one(it, args, kw):
    return args[0]


@ext("pymesh.remove_degenerated_triangles", "pymesh.remove_duplicated_faces", "pymesh.remove_isolated_vertices", "pymesh.remove_obtuse_triangles")
def pm_two(it, args, kw):
    return Tup([args[0], NONE])


@ext("pymesh.meshio.save_mesh")
def pm_save(it, args, kw):
    it.event("write", how="merged", path=it.norm(args[0]), value=NONE)
    return NONE


def register_frames():
    from . import frames
    frames.register(EXT)


register_frames()
