"""Hash-consed value-number terms and their comparison by random interpretation.

A term denotes the value an expression of the analysed program has as a function of the
symbolic inputs.  Two terms are compared by evaluating both under random interpretations of
the input symbols (Gulwani & Necula, "Global value numbering using random interpretation");
symbolic input functions are interpreted by fixed pseudo-random smooth functions.  The
interpretations are directed at every comparison occurring in the terms, so that both sides
and the boundary of each condition are exercised.
"""
import functools
import hashlib
import math
import operator
import random

_TABLE = {}


class Term:
    """Interned: equality is identity."""
    __slots__ = ("op", "args", "ty", "_n", "_prec", "_free")

    def __repr__(self):
        return show(self)


def T(op, *args, ty="any"):
    key = (op, args, ty)
    if op == "k":
        key = (op, type(args[0]).__name__, repr(args[0]) if isinstance(args[0], float) else args[0])
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.ty = ty
        t._n = len(_TABLE)
        t._prec = None
        t._free = None
        _TABLE[key] = t
    return t


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "k":
        return repr(t.args[0])
    if t.op in ("sym", "bv"):
        return str(t.args[0])
    if depth == 0:
        return "..."
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "eq": "==", "lt": "<", "le": "<=",
           "mod": "%", "and": " and ", "or": " or "}
    a = [show(x, depth - 1) if isinstance(x, Term) else str(x) for x in t.args]
    if t.op in inf and len(a) >= 2:
        return "(" + (" %s " % inf[t.op].strip()).join(a) + ")"
    return "%s(%s)" % (t.op, ", ".join(a))


_PYTY = {bool: "bool", int: "int", float: "real", str: "str", type(None): "none"}


def K(v):
    return T("k", v, ty=_PYTY.get(type(v), "any"))


TRUE, FALSE, NONE, ZERO, ONE = K(True), K(False), K(None), K(0), K(1)
UNDEF = T("undef")
NAN = K(float("nan"))


def isk(t):
    return isinstance(t, Term) and t.op == "k"


def kval(t):
    return t.args[0]


def isnum(t):
    return isk(t) and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


_SYMS = {}


def sym(name, ty="real", dom=None):
    """An input symbol. dom: (lo, hi) for numbers, or a tuple of values."""
    t = T("sym", name, dom, ty=ty)
    return t


_bv = [0]


def fresh_bv(hint="i"):
    _bv[0] += 1
    return T("bv", "%s%d" % (hint, _bv[0]), ty="int")


UNKNOWNS = [0]


def unk(why, *args, ty="any"):
    """A value the analysis does not know: a function of its arguments, a fresh value if there are none."""
    if not args:
        UNKNOWNS[0] += 1
        return T("unk", why, UNKNOWNS[0], ty=ty)
    return T("unk", why, *args, ty=ty)


IMPRECISE = {"unk", "ext", "first", "fold"}


def precise(t):
    if not isinstance(t, Term):
        return not hasattr(t, "imprecise")
    if t._prec is None:
        # iterative to avoid deep recursion on long chains
        stack = [t]
        while stack:
            u = stack[-1]
            if u._prec is not None:
                stack.pop()
                continue
            if u.op in IMPRECISE:
                u._prec = False
                stack.pop()
                continue
            todo = [a for a in u.args if isinstance(a, Term) and a._prec is None]
            if todo:
                stack.extend(todo)
                continue
            u._prec = all(a._prec for a in u.args if isinstance(a, Term))
            stack.pop()
    return t._prec


def free(t):
    """Free symbols and bound variables of a term (binders sum/join/all/any bind args[0])."""
    if not isinstance(t, Term):
        return frozenset()
    if t._free is None:
        stack = [t]
        while stack:
            u = stack[-1]
            if u._free is not None:
                stack.pop()
                continue
            if u.op in ("sym", "bv"):
                u._free = frozenset((u,))
                stack.pop()
                continue
            todo = [a for a in u.args if isinstance(a, Term) and a._free is None]
            if todo:
                stack.extend(todo)
                continue
            f = frozenset().union(*[a._free for a in u.args if isinstance(a, Term)])
            if u.op in BINDERS:
                inner = frozenset().union(*[a._free for a in u.args[2:] if isinstance(a, Term)])
                outer = u.args[1]._free if isinstance(u.args[1], Term) else frozenset()
                f = (inner - {u.args[0]}) | outer
            u._free = f
            stack.pop()
    return t._free


BINDERS = {"sum", "join", "all", "any", "maxof", "minof", "count", "root"}


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        for a in u.args:
            if isinstance(a, Term):
                stack.append(a)


# ---------------------------------------------------------------- smart constructors


def _num(a, b):
    return isnum(a) and isnum(b) or (isk(a) and isk(b) and isinstance(kval(a), (int, float)) and isinstance(kval(b), (int, float)))


def _aty(a, b):
    if a.ty in ("arr", "vec3", "mat3"):
        return a.ty
    if b.ty in ("arr", "vec3", "mat3"):
        return b.ty
    if a.ty in ("int", "bool") and b.ty in ("int", "bool"):
        return "int"
    if a.ty in ("int", "real", "bool") and b.ty in ("int", "real", "bool"):
        return "real"
    if a.ty == b.ty:
        return a.ty
    return "real" if "real" in (a.ty, b.ty) else "any"


def add(a, b):
    if isk(a) and isk(b):
        try:
            return K(kval(a) + kval(b))
        except Exception:
            return unk("add", a, b)
    if a.ty == "str" or b.ty == "str":
        return cat(a, b)
    if isnum(a) and kval(a) == 0:
        return b
    if isnum(b) and kval(b) == 0:
        return a
    if isnum(b) and a.op == "add" and isnum(a.args[1]):
        return add(a.args[0], K(kval(a.args[1]) + kval(b)))
    if isnum(b) and a.op == "sub" and isnum(a.args[1]) :
        return add(a.args[0], K(kval(b) - kval(a.args[1])))
    if isnum(a) and not isnum(b):
        return add(b, a)
    return T("add", a, b, ty=_aty(a, b))


def sub(a, b):
    if _num(a, b):
        return K(kval(a) - kval(b))
    if isnum(b) and kval(b) == 0:
        return a
    if a is b and a.ty in ("int", "real"):
        return ZERO if a.ty == "int" else K(0.0)
    if isnum(b) and a.op == "add" and isnum(a.args[1]):
        return add(a.args[0], K(kval(a.args[1]) - kval(b)))
    if isnum(b):
        return add(a, K(-kval(b)))
    if isnum(a) and kval(a) == 0:
        return neg(b)
    return T("sub", a, b, ty=_aty(a, b))


def neg(a):
    if isk(a) and isinstance(kval(a), (int, float)):
        return K(-kval(a))
    if a.op == "neg":
        return a.args[0]
    return T("neg", a, ty=a.ty)


def mul(a, b):
    if _num(a, b):
        return K(kval(a) * kval(b))
    if isk(a) and isk(b):
        try:
            return K(kval(a) * kval(b))
        except Exception:
            return unk("mul", a, b)
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if kval(x) == 1:
                return y
            if kval(x) == -1:
                return neg(y)
            if kval(x) == 0 and y.ty in ("int", "real", "bool"):
                return x
    return T("mul", a, b, ty=_aty(a, b))


def div(a, b):
    if _num(a, b):
        try:
            return K(kval(a) / kval(b))
        except ZeroDivisionError:
            return NAN
    if isnum(b) and kval(b) == 1:
        return a
    t = _aty(a, b)
    return T("div", a, b, ty="real" if t == "int" else t)


def floordiv(a, b):
    if _num(a, b):
        try:
            return K(kval(a) // kval(b))
        except ZeroDivisionError:
            return NAN
    return T("floordiv", a, b, ty=_aty(a, b))


def mod(a, b):
    if _num(a, b):
        try:
            return K(kval(a) % kval(b))
        except ZeroDivisionError:
            return NAN
    return T("mod", a, b, ty=_aty(a, b))


def pow_(a, b):
    if _num(a, b):
        try:
            return K(kval(a) ** kval(b))
        except Exception:
            return NAN
    if isnum(b):
        if kval(b) == 1:
            return a
        if kval(b) == 2:
            return mul(a, a)
    return T("pow", a, b, ty=_aty(a, b))


def not_(c):
    if isk(c):
        return FALSE if kval(c) else TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return or_(*[not_(a) for a in c.args])
    if c.op == "or":
        return and_(*[not_(a) for a in c.args])
    return T("not", c, ty="bool")


def and_(*cs):
    out = []
    for c in cs:
        if isk(c):
            if not kval(c):
                return FALSE
            continue
        for d in (c.args if c.op == "and" else (c,)):
            if d not in out:
                if not_(d) in out:
                    return FALSE
                out.append(d)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out, ty="bool")


def or_(*cs):
    out = []
    for c in cs:
        if isk(c):
            if kval(c):
                return TRUE
            continue
        for d in (c.args if c.op == "or" else (c,)):
            if d not in out:
                if d.op != "and" and not_(d) in out:
                    return TRUE
                out.append(d)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # (a and b) or not a -> b or not a
    for i, d in enumerate(out):
        if d.op == "and":
            keep = [x for x in d.args if not_(x) not in out]
            if len(keep) < len(d.args):
                return or_(*(out[:i] + [and_(*keep)] + out[i + 1:])) if keep else TRUE
    # (c and x) or (not c and x) -> x ; (c and x) or not c -> not (c and not x)
    if len(out) == 2:
        a = set(out[0].args if out[0].op == "and" else (out[0],))
        b = set(out[1].args if out[1].op == "and" else (out[1],))
        common = a & b
        ra, rb = and_(*[x for x in out[0].args if x not in common]) if out[0].op == "and" else (TRUE if common else out[0]), \
                 and_(*[x for x in out[1].args if x not in common]) if out[1].op == "and" else (TRUE if common else out[1])
        if common:
            r = or_(ra, rb)
            return and_(*([x for x in (out[0].args if out[0].op == "and" else (out[0],)) if x in common] + [r]))
    return T("or", *out, ty="bool")


def eq(a, b):
    if a is b and a.op != "k":
        return TRUE
    if isk(a) and isk(b):
        try:
            return K(bool(kval(a) == kval(b)))
        except Exception:
            return unk("eq", a, b, ty="bool")
    # definitely different kinds
    num = ("int", "real", "bool")
    if (a.ty == "str" and b.ty in num + ("none",)) or (b.ty == "str" and a.ty in num + ("none",)):
        return FALSE
    if (a.ty == "none" and b.ty not in ("none", "any")) or (b.ty == "none" and a.ty not in ("none", "any")):
        return FALSE
    if a.ty == "bool" and b is TRUE:
        return a
    if a.ty == "bool" and b is FALSE:
        return not_(a)
    if b.ty == "bool" and a is TRUE:
        return b
    if b.ty == "bool" and a is FALSE:
        return not_(b)
    if a.op == "ite" and isk(b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and isk(a):
        return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
    if a.ty == "str" and b.ty == "str" and "cat" in (a.op, b.op):
        # equal prefixes and suffixes cancel; different constant ends settle it
        xs = list(a.args) if a.op == "cat" else [a]
        ys = list(b.args) if b.op == "cat" else [b]
        n = len(xs)
        for end in (0, -1):
            while xs and ys:
                x, y = xs[end], ys[end]
                if x is y:
                    xs.pop(end)
                    ys.pop(end)
                    continue
                if isk(x) and isk(y) and isinstance(kval(x), str) and isinstance(kval(y), str):
                    u, v = kval(x), kval(y)
                    m = min(len(u), len(v))
                    if (u[:m] != v[:m]) if end == 0 else (u[len(u) - m:] != v[len(v) - m:]):
                        return FALSE
                    u, v = (u[m:], v[m:]) if end == 0 else (u[:len(u) - m], v[:len(v) - m])
                    for l, w in ((xs, u), (ys, v)):
                        l.pop(end)
                        if w:
                            l.insert(0, K(w)) if end == 0 else l.append(K(w))
                    continue
                break
        if len(xs) < n:
            return eq(cat(*xs), cat(*ys))
    if isk(a) and not isk(b):
        a, b = b, a
    if not isk(b) and a._n > b._n:
        a, b = b, a
    return T("eq", a, b, ty="bool" if a.ty != "arr" and b.ty != "arr" else "arr")


def _cmp(op, a, b, f):
    if isk(a) and isk(b):
        try:
            return K(bool(f(kval(a), kval(b))))
        except Exception:
            return unk(op, a, b, ty="bool")
    if a is b and a.ty in ("int", "real"):
        return K(op == "le")
    # small integer range reasoning for bound variables
    if b.op == "add" and b.args[0] is a and isnum(b.args[1]):
        return K(bool(f(0, kval(b.args[1]))))
    if a.op == "add" and a.args[0] is b and isnum(a.args[1]):
        return K(bool(f(kval(a.args[1]), 0)))
    return T(op, a, b, ty="bool" if a.ty != "arr" and b.ty != "arr" else "arr")


def lt(a, b):
    return _cmp("lt", a, b, lambda x, y: x < y)


def le(a, b):
    return _cmp("le", a, b, lambda x, y: x <= y)


def ite(c, a, b):
    if isk(c):
        return a if kval(c) else b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.ty == "bool" and b.ty == "bool":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    ty = a.ty if a.ty == b.ty else ("real" if {a.ty, b.ty} <= {"int", "real", "bool"} else "any")
    return T("ite", c, a, b, ty=ty)


def cat(*parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == "cat" else (p,)):
            if isk(q) and isinstance(kval(q), str):
                if kval(q) == "":
                    continue
                if out and isk(out[-1]):
                    out[-1] = K(kval(out[-1]) + kval(q))
                    continue
            out.append(q)
    if not out:
        return K("")
    if len(out) == 1 and out[0].ty == "str":
        return out[0]
    return T("cat", *out, ty="str")


def fmt(v, spec="", conv=-1):
    if isk(v):
        try:
            x = kval(v)
            if conv == 114:
                x = repr(x)
            elif conv == 115:
                x = str(x)
            return K(format(x, spec))
        except Exception:
            return unk("fmt", v, ty="str")
    if v.ty == "str" and spec == "" and conv in (-1, 115):
        return v
    return T("fmt", v, spec, conv, ty="str")


FN1 = {}


def fn(name, *args, ty="real"):
    """Interpreted mathematical function."""
    if all(isnum(a) or (isk(a) and isinstance(kval(a), bool)) for a in args) and args:
        try:
            return K(_MATH[name](*[kval(a) for a in args]))
        except Exception:
            return NAN
    if name in ("abs", "floor", "round", "sign") and args and args[0].ty == "int":
        ty = "int"
    if args and any(isinstance(a, Term) and a.ty == "arr" for a in args):
        ty = "arr"
    return T("fn", name, *args, ty=ty)


def app(f, *args, ty="real", flags=""):
    """Application of a symbolic input function (f: name or term)."""
    return T("app", f, flags, *args, ty=ty)


# ---------------------------------------------------------------- substitution


def subst(t, m, memo=None):
    if not m:
        return t
    memo = {} if memo is None else memo
    keys = frozenset(m)

    def go(u):
        if not isinstance(u, Term):
            return u
        if not (free(u) & keys):
            return u
        r = memo.get(u)
        if r is not None:
            return r
        if u in m:
            r = m[u]
        elif u.op in BINDERS:
            v = u.args[0]
            nv = fresh_bv(v.args[0].rstrip("0123456789") or "i")
            if u.op == "root":
                nv = sym("#r" + nv.args[0], "real")
            m2 = dict(m)
            m2[v] = nv
            r = T(u.op, nv, go(u.args[1]), *[subst(a, m2) if isinstance(a, Term) else a for a in u.args[2:]], ty=u.ty)
        else:
            r = rebuild(u, [go(a) for a in u.args])
        memo[u] = r
        return r

    return go(t)


def rebuild(u, a):
    op = u.op
    f = _BUILD.get(op)
    if f:
        return f(*a)
    if op == "fn":
        return fn(a[0], *a[1:], ty=u.ty)
    if op == "fmt":
        return fmt(*a)
    return T(op, *a, ty=u.ty)


_BUILD = {"add": add, "sub": sub, "neg": neg, "mul": mul, "div": div, "floordiv": floordiv, "mod": mod, "pow": pow_,
          "not": not_, "and": and_, "or": or_, "eq": eq, "lt": lt, "le": le, "ite": ite, "cat": cat}


def linear(t, x):
    """(c, d) with t == c*x + d and c, d free of x, or None."""
    if x not in free(t):
        return ZERO, t
    if t is x:
        return ONE, ZERO
    if t.op in ("add", "sub"):
        a, b = linear(t.args[0], x), linear(t.args[1], x)
        if a is None or b is None:
            return None
        f = add if t.op == "add" else sub
        return f(a[0], b[0]), f(a[1], b[1])
    if t.op == "neg":
        a = linear(t.args[0], x)
        return a and (neg(a[0]), neg(a[1]))
    if t.op == "mul":
        p, q = t.args
        if x in free(p) and x in free(q):
            return None
        if x in free(q):
            p, q = q, p
        a = linear(p, x)
        return a and (mul(a[0], q), mul(a[1], q))
    if t.op == "div" and x not in free(t.args[1]):
        a = linear(t.args[0], x)
        return a and (div(a[0], t.args[1]), div(a[1], t.args[1]))
    if t.op == "ite" and x not in free(t.args[0]):
        a, b = linear(t.args[1], x), linear(t.args[2], x)
        if a is None or b is None:
            return None
        return ite(t.args[0], a[0], b[0]), ite(t.args[0], a[1], b[1])
    return None


# ---------------------------------------------------------------- evaluation


class Arr:
    """Small dense array for random interpretation of vec3/mat3 valued terms."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def map(self, f):
        return Arr([x.map(f) if isinstance(x, Arr) else f(x) for x in self.v])

    def __repr__(self):
        return "Arr(%r)" % (self.v,)


def bcast(f, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        da, db = depth(a), depth(b)
        if da == db:
            if len(a.v) != len(b.v):
                raise EvalError("shape")
            return Arr([bcast(f, x, y) for x, y in zip(a.v, b.v)])
        if da > db:
            return Arr([bcast(f, x, b) for x in a.v])
        return Arr([bcast(f, a, y) for y in b.v])
    if isinstance(a, Arr):
        return Arr([bcast(f, x, b) for x in a.v])
    if isinstance(b, Arr):
        return Arr([bcast(f, a, y) for y in b.v])
    return f(a, b)


def depth(a):
    d = 0
    while isinstance(a, Arr):
        d += 1
        a = a.v[0] if a.v else None
    return d


class EvalError(Exception):
    pass


def _h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big")


def _u(*xs):
    return (_h(*xs) % (1 << 53)) / float(1 << 53)


@functools.lru_cache(maxsize=200000)
def _coef(name, n, others, seed):
    w = tuple((0.35 + 0.9 * _u(seed, name, others, i, "w")) * (1 if _u(seed, name, others, i, "s") < 0.5 else -1) for i in range(n))
    return w, 6.28 * _u(seed, name, others, "p"), 6.28 * _u(seed, name, others, "q"), 0.4 * (2 * _u(seed, name, others, "c") - 1)


def smooth(name, nums, others, seed):
    w, p, q, c = _coef(name, len(nums), others, seed)
    z = 0.0
    for k, x in zip(w, nums):
        z += k * x
    return 0.9 * math.sin(z + p) + 0.45 * math.cos(1.7 * z + q) + 0.31 * z + c


def _flat(x, nums, oth):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        oth.append(x)
    elif isinstance(x, (int, float)):
        nums.append(float(x))
        oth.append("#")
    elif isinstance(x, Arr):
        oth.append("[")
        for y in x.v:
            _flat(y, nums, oth)
        oth.append("]")
    elif isinstance(x, tuple):
        oth.append("(")
        for y in x:
            _flat(y, nums, oth)
        oth.append(")")
    else:
        oth.append(repr(x))


def uf(name, vals, ty, seed, flags=""):
    nums, oth = [], []
    for v in vals:
        _flat(v, nums, oth)
    oth = tuple(oth)
    if ty in ("real", "any"):
        v = smooth(name, nums, oth, seed)
        if "pos" in flags:
            v = 0.2 + v * v
        return v * seed[2] if len(seed) > 2 else v
    rn = tuple(round(x, 6) for x in nums)
    if ty == "int":
        v = _h(seed, name, oth, rn) % 5
        return 1 + v if "pos" in flags else v
    if ty == "bool":
        return bool(_h(seed, name, oth, rn) & 1)
    if ty == "str":
        return "s%x" % (_h(seed, name, oth, rn) & 0xFFFFFFFF)
    if ty == "vec3":
        return Arr([smooth((name, k), nums, oth, seed) for k in range(3)])
    if ty == "mat3":
        return Arr([Arr([smooth((name, k, l), nums, oth, seed) for l in range(3)]) for k in range(3)])
    if ty == "arr":
        v = smooth(name, nums, oth, seed)
        return 0.2 + v * v if "pos" in flags else v
    return ("obj", name if isinstance(name, str) else repr(name), oth, rn)


def _dot(a, b):
    if depth(a) == 1 and depth(b) == 1:
        return sum(x * y for x, y in zip(a.v, b.v))
    if depth(a) == 2 and depth(b) == 1:
        return Arr([_dot(r, b) for r in a.v])
    if depth(a) == 1 and depth(b) == 2:
        return Arr([sum(a.v[k] * b.v[k].v[j] for k in range(len(a.v))) for j in range(len(b.v[0].v))])
    if depth(a) == 2 and depth(b) == 2:
        return Arr([Arr([sum(r.v[k] * b.v[k].v[j] for k in range(len(r.v))) for j in range(len(b.v[0].v))]) for r in a.v])
    return bcast(lambda x, y: x * y, a, b)


def _norm(a):
    if isinstance(a, Arr):
        return math.sqrt(sum(_norm(x) ** 2 for x in a.v))
    return abs(a)


def _cross(a, b):
    a, b = a.v, b.v
    return Arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def _asum(a):
    return sum(_asum(x) for x in a.v) if isinstance(a, Arr) else a


def _aflat(a):
    if isinstance(a, Arr):
        r = []
        for x in a.v:
            r += _aflat(x)
        return r
    return [a]


def _trace(a):
    return sum(a.v[i].v[i] for i in range(len(a.v)))


def _transpose(a):
    return Arr([Arr([r.v[j] for r in a.v]) for j in range(len(a.v[0].v))]) if depth(a) == 2 else a


def _round(x, n=0):
    return round(x, int(n))


def _isclose(a, b, rtol=1e-05, atol=1e-08):
    return abs(a - b) <= atol + rtol * abs(b)


_MATH = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "arccos": math.acos,
    "arctan": math.atan, "arctan2": math.atan2, "sqrt": math.sqrt, "exp": math.exp, "log": math.log,
    "log10": math.log10, "abs": abs, "floor": math.floor, "ceil": math.ceil, "round": _round,
    "hypot": lambda *a: math.sqrt(sum(x * x for x in a)), "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
    "radians": math.radians, "degrees": math.degrees, "min": min, "max": max,
    "sign": lambda x: (x > 0) - (x < 0), "trunc": lambda x: int(x), "float": float, "isclose": _isclose,
    "isnan": lambda x: x != x, "isfinite": lambda x: x == x and abs(x) != math.inf,
    "clip": lambda x, lo, hi: min(max(x, lo), hi), "copysign": math.copysign, "square": lambda x: x * x,
    "reciprocal": lambda x: 1 / x, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
    "arcsinh": math.asinh, "arccosh": math.acosh, "arctanh": math.atanh, "log1p": math.log1p, "expm1": math.expm1,
}
_ELEMWISE = set(_MATH) - {"min", "max"}


_FAST = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "lt": operator.lt, "le": operator.le}
BUDGET = [0]
EFFORT = 1500000  # term nodes evaluated on directed interpretations per comparison


SIZES = (1e-4, 1e-7, 1e3, None, None)


class Inner(dict):
    """Values under a binder; terms free of its variable are evaluated outside of it."""

    __slots__ = ("var", "env", "outer")

    def __init__(self, var, env, outer):
        dict.__init__(self)
        self.var, self.env, self.outer = var, env, outer


def ev(t, env, memo):
    """Evaluate a term under an interpretation env (symbol -> value, '#seed')."""
    if type(t) is not Term:
        return t
    op = t.op
    if op == "k":
        return t.args[0]
    r = memo.get(t, memo)
    if r is not memo:
        if isinstance(r, EvalError):
            raise r
        return r
    if type(memo) is Inner and memo.var not in (free(t) if t._free is None else t._free):
        return ev(t, memo.env, memo.outer)
    BUDGET[0] -= 1
    try:
        f = _FAST.get(op)
        if f is not None:
            x, y = t.args
            x, y = ev(x, env, memo), ev(y, env, memo)
            r = f(x, y) if type(x) is float and type(y) is float else bcast(f, x, y)
        else:
            r = _ev(t, env, memo)
    except EvalError as e:
        memo[t] = e
        raise
    except (ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, AttributeError, KeyError) as e:
        e2 = EvalError("%s: %s" % (type(e).__name__, e))
        memo[t] = e2
        raise e2
    memo[t] = r
    return r


def _iseq(x, y):
    if isinstance(x, Arr) or isinstance(y, Arr):
        return bcast(lambda p, q: p == q, x, y)
    return x == y


def _ev(t, env, memo):
    op, a = t.op, t.args
    E = lambda x: ev(x, env, memo)
    if op == "k":
        return a[0]
    if op in ("sym", "bv"):
        if t in env:
            return env[t]
        v = uf(("sym", a[0]), (), t.ty, env["#seed"])
        if op == "bv":
            v = 1 + _h(env["#seed"], a[0]) % 4
        env[t] = v
        return v
    if op == "ite":
        c = E(a[0])
        if isinstance(c, Arr):
            raise EvalError("array condition")
        return E(a[1]) if c else E(a[2])
    if op == "and":
        for x in a:
            if not E(x):
                return False
        return True
    if op == "or":
        for x in a:
            if E(x):
                return True
        return False
    if op == "not":
        v = E(a[0])
        return v.map(lambda x: not x) if isinstance(v, Arr) else not v
    if op == "add":
        x, y = E(a[0]), E(a[1])
        if isinstance(x, float) and isinstance(y, float):
            return x + y
        return bcast(lambda p, q: p + q, x, y)
    if op == "sub":
        return bcast(lambda p, q: p - q, E(a[0]), E(a[1]))
    if op == "mul":
        return bcast(lambda p, q: p * q, E(a[0]), E(a[1]))
    if op == "div":
        return bcast(lambda p, q: p / q, E(a[0]), E(a[1]))
    if op == "floordiv":
        return bcast(lambda p, q: p // q, E(a[0]), E(a[1]))
    if op == "mod":
        return bcast(lambda p, q: p % q, E(a[0]), E(a[1]))
    if op == "pow":
        def pw(p, q):
            if isinstance(q, (int, float)) and p < 0 and q != int(q):
                raise EvalError("complex power")
            return p ** q
        return bcast(pw, E(a[0]), E(a[1]))
    if op == "neg":
        v = E(a[0])
        return v.map(lambda x: -x) if isinstance(v, Arr) else -v
    if op == "eq":
        return _iseq(E(a[0]), E(a[1]))
    if op == "lt":
        return bcast(lambda p, q: p < q, E(a[0]), E(a[1]))
    if op == "le":
        return bcast(lambda p, q: p <= q, E(a[0]), E(a[1]))
    if op == "fn":
        f = a[0]
        vals = [E(x) for x in a[1:]]
        if f in _MATH:
            if f in _ELEMWISE and len(vals) == 1 and isinstance(vals[0], Arr):
                return vals[0].map(_MATH[f])
            if f in _ELEMWISE and any(isinstance(v, Arr) for v in vals):
                if len(vals) == 2:
                    return bcast(_MATH[f], vals[0], vals[1])
                raise EvalError("array call")
            if f in ("min", "max"):
                fl = []
                for v in vals:
                    fl += _aflat(v)
                vals = fl
            return _MATH[f](*vals)
        if f == "dot":
            return _dot(*vals)
        if f == "norm":
            return _norm(vals[0])
        if f == "cross":
            return _cross(*vals)
        if f == "outer":
            return Arr([Arr([x * y for y in vals[1].v]) for x in vals[0].v])
        if f == "eye":
            n = int(vals[0])
            return Arr([Arr([1.0 if i == j else 0.0 for j in range(n)]) for i in range(n)])
        if f == "diag":
            n = len(vals[0].v)
            if depth(vals[0]) == 2:
                return Arr([vals[0].v[i].v[i] for i in range(n)])
            return Arr([Arr([vals[0].v[i] if i == j else 0.0 for j in range(n)]) for i in range(n)])
        if f == "asum":
            return _asum(vals[0])
        if f == "amin":
            return min(_aflat(vals[0]))
        if f == "amax":
            return max(_aflat(vals[0]))
        if f == "mean":
            fl = _aflat(vals[0])
            return sum(fl) / len(fl)
        if f == "trace":
            return _trace(vals[0])
        if f == "T":
            return _transpose(vals[0])
        if f == "arr":
            return Arr(vals)
        if f == "index":
            v = vals[0]
            for i in vals[1:]:
                v = v.v[int(i)]
            return v
        if f == "interp":
            x, lo, hi, tlo, thi = vals[:5]
            if abs(x - lo) < 1e-12 or x < lo:
                return tlo
            if abs(x - hi) < 1e-12 or x > hi:
                return thi
            w = 0.5 + 0.45 * math.sin(smooth("interp", [x] + [float(z) for z in vals[5:] if isinstance(z, (int, float))], (), env["#seed"]))
            return tlo + (thi - tlo) * w
        raise EvalError("fn %s" % f)
    if op == "app":
        f = a[0]
        vals = [E(x) for x in a[2:]]
        if isinstance(f, Term):
            fv = E(f)
            return uf(("app",), [fv] + vals, t.ty, env["#seed"], a[1])
        return uf(("app", f), vals, t.ty, env["#seed"], a[1])
    if op == "cat":
        return "".join(_s(E(x)) for x in a)
    if op == "fmt":
        v = E(a[0])
        if a[1] and isinstance(v, (int, float)):
            return format(v, a[1])
        return _s(v)
    if op == "tup":
        return tuple(E(x) for x in a)
    if op == "len":
        return uf("len", [E(x) for x in a], "int", env["#seed"], "pos")
    if op == "sum":
        return _binder_sum(t, env, memo)
    if op in ("join", "all", "any", "maxof", "minof", "count"):
        n = E(a[1])
        out = []
        for k in (0.25, 0.75):
            e2 = dict(env)
            e2[a[0]] = 7 + _h("bv", env.get("#depth", 0), k) % 90
            e2["#depth"] = env.get("#depth", 0) + 1
            m2 = Inner(a[0], env, memo)
            out.append(tuple(ev(x, e2, m2) for x in a[2:]))
        if op == "all":
            return all(all(o) for o in out)
        if op == "any":
            return any(any(o) for o in out)
        return uf(op, [n] + out, t.ty, env["#seed"])
    if op == "root":
        lo, hi = float(E(a[1])), float(E(a[2]))

        def g(x):
            e2 = dict(env)
            e2[a[0]] = x
            return ev(a[3], e2, Inner(a[0], env, memo))
        fa, fb = g(lo), g(hi)
        if fa == 0:
            return lo
        if fb == 0:
            return hi
        if fa * fb > 0:
            raise EvalError("no sign change")
        # Chandrupatla's method: inverse quadratic steps where safe, bisection otherwise
        b, c, fc, step = hi, None, None, 0.5
        x, fx = lo, fa
        for _ in range(60):
            m = x + step * (b - x)
            fm = g(m)
            if (fm > 0) == (fx > 0):
                c, fc = x, fx
            else:
                c, b, fc, fb = b, x, fb, fx
            x, fx = m, fm
            if fx == 0:
                return x
            best = x if abs(fx) < abs(fb) else b
            tol = 2e-15 * max(abs(best), 1e-3) / abs(b - x) if b != x else 1.0
            if tol > 0.5:
                return best
            xi, phi = (x - b) / (c - b), (fx - fb) / (fc - fb)
            if phi * phi < xi and (1 - phi) * (1 - phi) < 1 - xi:
                step = fx / (fb - fx) * fc / (fb - fc) + (c - x) / (b - x) * fx / (fc - fx) * fb / (fc - fb)
            else:
                step = 0.5
            step = min(1 - tol, max(tol, step))
        lo, hi = x, b
        return 0.5 * (lo + hi)
    if op == "undef":
        raise EvalError("undefined")
    # anything else: uninterpreted constructor
    return uf((op,) + tuple(x for x in a if not isinstance(x, Term)), [E(x) for x in a if isinstance(x, Term)], t.ty, env["#seed"])


def _s(v):
    if isinstance(v, str):
        return v
    if isinstance(v, float):
        return repr(round(v, 9))
    return repr(v)


def _binder_sum(t, env, memo):
    """Sum over var in range(n) as a linear functional with weights adding up to n."""
    var, n = t.args[0], t.args[1]
    nv = ev(n, env, memo)
    d = env.get("#depth", 0)
    key = round(float(nv), 9)
    w = [0.2 + _u("w", key, d, k, env["#seed"]) for k in range(3)]
    s = sum(w)
    tot = None
    for k in range(3):
        e2 = dict(env)
        e2[var] = _u("sumv", d, k) * 40 + 3
        e2["#depth"] = d + 1
        v = ev(t.args[2], e2, Inner(var, env, memo))
        c = w[k] / s * nv
        v = bcast(lambda p, q: p * q, v, c)
        tot = v if tot is None else bcast(lambda p, q: p + q, tot, v)
    return tot


# ---------------------------------------------------------------- comparison


class Verdict:
    __slots__ = ("kind", "detail", "n")

    def __init__(self, kind, detail="", n=0):
        self.kind, self.detail, self.n = kind, detail, n

    def __bool__(self):
        return self.kind == "equal"

    def __repr__(self):
        return "%s %s" % (self.kind, self.detail)


def _rand_sym(s, rng):
    dom = s.args[1] if s.op == "sym" else None
    if s.op == "bv":
        return rng.randrange(0, 5)
    if dom is not None:
        if s.ty in ("real",) and len(dom) == 2:
            return rng.uniform(dom[0], dom[1])
        if s.ty == "int" and len(dom) == 2:
            return rng.randint(dom[0], dom[1])
        return rng.choice(dom)
    if s.ty == "real":
        return rng.choice([-1, 1]) * rng.uniform(0.15, 2.2)
    if s.ty == "int":
        return rng.randint(1, 6)
    if s.ty == "bool":
        return rng.random() < 0.5
    if s.ty == "str":
        return "v%06x" % rng.randrange(1 << 24)
    return None


def _in_dom(s, v):
    dom = s.args[1] if s.op == "sym" else None
    if dom is None:
        return True
    if s.ty in ("real", "int") and len(dom) == 2:
        return dom[0] <= v <= dom[1]
    return v in dom


def interpretations(terms, seed=1, n=16, directed=True, assume=()):
    """Yield environments (interpretations of the symbols of terms)."""
    allt = [t for t in terms if isinstance(t, Term)] + list(assume)
    syms = sorted({s for t in allt for s in free(t)}, key=lambda s: str(s.args[0]))
    rng = random.Random("%s" % seed)

    def base(k):
        env = {"#seed": (seed, k)}
        for s in syms:
            v = _rand_sym(s, rng)
            if v is not None:
                env[s] = v
        return env

    def ok(env):
        memo = {}
        for c in assume:
            try:
                if not ev(c, env, memo):
                    return False
            except EvalError:
                return False
        return True

    made = 0
    tries = 0
    bases = []
    BUDGET[0] = EFFORT
    while made < n and tries < 60 * n:
        if BUDGET[0] < 0 and tries >= 2 * n:
            break
        tries += 1
        e = base(tries)
        if assume and tries % 4 == 3:
            fixed = set()
            for c in assume:
                _force(c, True, e, fixed, rng)
        if ok(e):
            made += 1
            bases.append(e)
            yield e
    if not directed or not bases:
        return
    # other magnitudes: everything small, everything large, each symbol of its own size
    for k, size in enumerate(SIZES):
        BUDGET[0] = EFFORT // 4
        for rep in range(3):
            e = base(("size", k, rep))
            if size:
                e["#seed"] += (size,)
            for s in syms:
                if s in e and s.op == "sym" and s.ty == "real" and s.args[1] is None:
                    e[s] *= size or rng.choice((1e-4, 1e-2, 1.0, 30.0, 1e3))
            if ok(e):
                yield e
                break
            if BUDGET[0] < 0:
                break
    BUDGET[0] = EFFORT
    cmps, consts = [], {0.0, 1.0, -1.0, 0.5, 2.0}
    seen = set()
    for t in allt:
        for u in walk(t, seen):
            if u.op in ("eq", "lt", "le"):
                cmps.append(u)
                for x in u.args:
                    if isnum(x):
                        consts.add(float(kval(x)))
                    if isk(x) and isinstance(kval(x), str):
                        consts.add(kval(x))
    for s in syms:
        vals = []
        if s.ty == "real":
            vals = [c for c in consts if isinstance(c, float)][:24]
        elif s.ty == "int":
            vals = [0, 1, 2, 3, 7] + [int(c) for c in consts if isinstance(c, float) and c == int(c)][:12]
        elif s.ty == "bool":
            vals = [True, False]
        elif s.ty == "str":
            vals = [c for c in consts if isinstance(c, str)]
        for v in vals:
            if _in_dom(s, v):
                e = dict(rng.choice(bases))
                e = {k: x for k, x in e.items() if isinstance(k, Term) and k in syms or k == "#seed"}
                e[s] = v
                if ok(e):
                    yield e
    conds = _conditions(allt)
    if len(conds) > 60:
        conds = rng.sample(conds, 60)
    for c in conds:
        for want in (True, False):
            for rep in range(2):
                if BUDGET[0] < 0:
                    return
                e = {k: v for k, v in rng.choice(bases).items() if k == "#seed" or k in syms}
                fixed = set()
                if rep:
                    for a in assume:
                        _force(a, True, e, fixed, rng)
                _force(c, want, e, fixed, rng)
                if ok(e):
                    yield e
    for c in cmps[:120]:
        x, y = c.args
        fs = [s for s in free(x) | free(y) if s.ty == "real" and s.op == "sym"]
        fs.sort(key=lambda s: str(s.args[0]))
        for s in fs[:3]:
            for rep in range(2):
                if BUDGET[0] < 0:
                    return
                e0 = {k: v for k, v in rng.choice(bases).items() if k == "#seed" or k in syms}

                def g(v):
                    e = dict(e0)
                    e[s] = v
                    a, b = ev(x, e, {}), ev(y, e, {})
                    if isinstance(a, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
                        raise EvalError("non numeric")
                    return a - b
                try:
                    root = _root(g, s, rng)
                except (EvalError, TypeError):
                    root = None
                if root is None:
                    continue
                exact = [root] if c.op == "eq" else []
                for v in exact + [root + 1e-4 * (1 + abs(root)), root - 1e-4 * (1 + abs(root))] + ([0.9 * root] if 0 < abs(root) < 1e-2 else []):
                    if _in_dom(s, v):
                        e = dict(e0)
                        e[s] = v
                        if ok(e):
                            yield e


def _force(c, want, env, fixed, rng, depth=0):
    """Try to change env so that condition c takes the wanted value; fixed: symbols already used."""
    if depth > 12 or isk(c):
        return
    op = c.op
    if op == "not":
        return _force(c.args[0], not want, env, fixed, rng, depth + 1)
    if op in ("and", "or"):
        if (op == "and") == want:
            for x in c.args:
                _force(x, want, env, fixed, rng, depth + 1)
        else:
            _force(rng.choice(c.args), want, env, fixed, rng, depth + 1)
        return
    if op == "ite":
        try:
            b = bool(ev(c.args[0], dict(env), {}))
        except EvalError:
            b = True
        if rng.random() < 0.3:
            b = not b
            _force(c.args[0], b, env, fixed, rng, depth + 1)
        _force(c.args[1] if b else c.args[2], want, env, fixed, rng, depth + 1)
        return
    if op == "sym":
        if c.ty == "bool" and c not in fixed:
            env[c] = want
            fixed.add(c)
        return
    if op == "fn" and c.args[0] == "isclose":
        x, y, op = c.args[1], c.args[2], "eq"
    elif op in ("eq", "lt", "le"):
        x, y = c.args
    else:
        return
    try:
        if bool(ev(c, dict(env), {})) == want:
            for q in free(c):
                if op == "eq" or rng.random() < 0.5:
                    fixed.add(q)
            return
    except EvalError:
        pass
    if not isinstance(x, Term) or not isinstance(y, Term):
        return
    fs = [q for q in free(x) | free(y) if q.op == "sym" and q not in fixed]
    fs.sort(key=lambda q: str(q.args[0]))
    rng.shuffle(fs)
    for q in fs[:4]:
        if q.ty in ("str", "any", "bool"):
            o = y if x is q else x if y is q else None
            if o is not None:
                try:
                    v = ev(o, dict(env), {})
                except EvalError:
                    continue
                if want:
                    env[q] = v
                fixed.add(q)
                return
            continue
        base = {k: v for k, v in env.items() if k == "#seed" or isinstance(k, Term) and k.op in ("sym", "bv")}

        def g(v):
            e = dict(base)
            e[q] = v
            p1, p2 = ev(x, e, {}), ev(y, e, {})
            if isinstance(p1, bool) or not isinstance(p1, (int, float)) or not isinstance(p2, (int, float)):
                raise EvalError("non numeric")
            return p1 - p2
        try:
            root = _root(g, q, rng)
        except (EvalError, TypeError):
            root = None
        if root is None:
            continue
        d = rng.choice([1e-4, 1e-2, 0.3]) * (1 + abs(root))
        for v in ([root, root + d, root - d] if op != "eq" or want else [root + d, root - d]):
            if q.ty == "int":
                v = int(round(v))
            if abs(v - round(v)) < 1e-12:
                v = float(round(v)) if q.ty == "real" else v
            if not _in_dom(q, v):
                continue
            e = dict(base)
            e[q] = v
            try:
                if bool(ev(c, e, {})) == want:
                    env.clear()
                    env.update({k: w for k, w in e.items() if k == "#seed" or isinstance(k, Term)})
                    fixed.add(q)
                    return
            except EvalError:
                continue


def _conditions(terms):
    """Branch conditions occurring in terms (deduplicated, in order)."""
    out, seen, have = [], set(), set()
    for t in terms:
        for u in walk(t, seen):
            c = None
            if u.op == "ite":
                c = u.args[0]
            elif u.op in ("and", "or"):
                c = u
            elif u.op == "fn" and u.args[0] in ("max", "min") and len(u.args) == 3 and u.ty == "real":
                c = lt(u.args[1], u.args[2])
            if c is not None and c not in have and not isk(c):
                have.add(c)
                out.append(c)
    return out


def _root(g, s, rng):
    dom = s.args[1]
    lo, hi = dom if dom and len(dom) == 2 else (-3.0, 3.0)
    # try a linear guess first
    x0, x1 = lo + 0.3 * (hi - lo), lo + 0.7 * (hi - lo)
    f0, f1 = g(x0), g(x1)
    for _ in range(8):
        if f1 == f0:
            break
        x2 = x1 - f1 * (x1 - x0) / (f1 - f0)
        if not (abs(x2) < 1e6):
            break
        if abs(x2 - round(x2, 9)) < 1e-12:
            x2 = round(x2, 9)
        f2 = g(x2)
        x0, f0, x1, f1 = x1, f1, x2, f2
        if f2 == 0:
            return x2
        if abs(f2) < 1e-13:
            return x2
    # bisection over a scan
    N = 24
    px, pf = None, None
    for i in range(N + 1):
        x = lo + (hi - lo) * i / N
        try:
            f = g(x)
        except EvalError:
            px = None
            continue
        if px is not None and pf * f < 0:
            a, b, fa = px, x, pf
            for _ in range(60):
                m = 0.5 * (a + b)
                fm = g(m)
                if fa * fm <= 0:
                    b = m
                else:
                    a, fa = m, fm
            return 0.5 * (a + b)
        px, pf = x, f
    return None


def same(x, y, tol=1e-7, unit=1.0):
    if isinstance(x, Arr) or isinstance(y, Arr):
        if not (isinstance(x, Arr) and isinstance(y, Arr)) or len(x.v) != len(y.v):
            return False
        return all(same(p, q, tol, unit) for p, q in zip(x.v, y.v))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(p, q, tol, unit) for p, q in zip(x, y))
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y) if isinstance(x, (bool, int)) and isinstance(y, (bool, int)) else x == y
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if x != x or y != y:
            raise EvalError("nan")
        return abs(x - y) <= tol * (unit + abs(x) + abs(y))
    return x == y


STATS = {"comparisons": 0, "interpretations": 0}


def compare(code, spec, assume=(), seed=1, n=16, tol=1e-7):
    """Compare a code term with a spec term for all interpretations satisfying assume."""
    STATS["comparisons"] += 1
    if code is spec:
        return Verdict("equal", "identical terms", 0)
    if not isinstance(code, Term) or not isinstance(spec, Term):
        return Verdict("unknown", "non-term value %r" % (code,))
    good = 0
    for env in interpretations([code, spec], seed=seed, n=n, assume=assume):
        e, memo = dict(env), {}
        try:
            b = ev(spec, e, memo)
        except EvalError:
            continue
        try:
            a = ev(code, e, memo)
        except EvalError as e:
            if "undefined" in str(e):
                if precise(code) and precise(spec):
                    return Verdict("different", "undefined value reached")
                return Verdict("unknown", "possibly undefined")
            continue
        try:
            size = env["#seed"][2] if len(env["#seed"]) > 2 else 1.0
            r = same(a, b, tol, max(size, 1e-5))
        except EvalError:
            continue
        STATS["interpretations"] += 1
        if not r:
            if not precise(code) or not precise(spec):
                return Verdict("unknown", "imprecise %s value %s" % (("spec", show(spec, 4)) if precise(code) else ("code", show(code, 4))))
            wit = {str(k.args[0]): v for k, v in env.items() if isinstance(k, Term) and k in free(code) | free(spec)}
            return Verdict("different", "%s instead of %s at %s" % (_r(a), _r(b), {k: _r(v) for k, v in sorted(wit.items())[:10]}))
        good += 1
    if good < 4:
        return Verdict("unknown", "no usable interpretation")
    return Verdict("equal", "", good)


def _r(v):
    if isinstance(v, float):
        return "%.6g" % v
    return str(v)


# ---------------------------------------------------------------- propositional entailment


def _atoms(c, out):
    if c.op in ("and", "or", "not"):
        for a in c.args:
            _atoms(a, out)
    elif c.op == "ite" and c.ty == "bool":
        for a in c.args:
            _atoms(a, out)
    elif not isk(c):
        if c not in out:
            out.append(c)


def _beval(c, m):
    if isk(c):
        return bool(kval(c))
    if c.op == "and":
        return all(_beval(a, m) for a in c.args)
    if c.op == "or":
        return any(_beval(a, m) for a in c.args)
    if c.op == "not":
        return not _beval(c.args[0], m)
    if c.op == "ite" and c.ty == "bool":
        return _beval(c.args[1], m) if _beval(c.args[0], m) else _beval(c.args[2], m)
    return m[c]


_ENT = {}


def _numfacts(atoms):
    """Constraints between atoms comparing the same term with constants."""
    by = {}
    for i, a in enumerate(atoms):
        if a.op in ("lt", "le", "eq"):
            x, y = a.args
            if isk(y) and isinstance(kval(y), (int, float)) and not isk(x):
                by.setdefault(x, []).append((i, a.op, kval(y), 1))
            elif isk(x) and isinstance(kval(x), (int, float)) and not isk(y):
                by.setdefault(y, []).append((i, a.op, kval(x), -1))
        if a.op == "eq" and isk(a.args[1]) and isinstance(kval(a.args[1]), str):
            by.setdefault(a.args[0], []).append((i, "seq", kval(a.args[1]), 1))
    return by


def _consistent(by, bits):
    for x, cs in by.items():
        if cs[0][1] == "seq":
            if sum(1 for (i, o, v, d) in cs if bits[i]) > 1:
                return False
            continue
        dom = x.args[1] if x.op == "sym" and x.ty in ("real", "int") else None
        if dom is not None and len(dom) != 2:
            dom = None
        if len(cs) < 2 and dom is None:
            continue
        pts = sorted({float(c[2]) for c in cs if c[1] != "seq"})
        cand = []
        for p in pts:
            cand += [p, p + 1e-9 * (1 + abs(p)), p - 1e-9 * (1 + abs(p))]
        if x.ty == "int":
            cand = sorted({math.floor(c) for c in cand} | {math.ceil(c) for c in cand})
        cand += [pts[0] - 1, pts[-1] + 1]
        if dom is not None:
            cand = [v for v in cand if dom[0] <= v <= dom[1]] + [dom[0], dom[1]]
        ok = False
        for v in cand:
            good = True
            for (i, o, c, d) in cs:
                if o == "seq":
                    continue
                if o == "eq":
                    r = v == c
                elif o == "lt":
                    r = v < c if d == 1 else c < v
                else:
                    r = v <= c if d == 1 else c <= v
                if r != bits[i]:
                    good = False
                    break
            if good:
                ok = True
                break
        if not ok:
            return False
    return True


def entails(pc, c):
    """True / False / None: does the conjunction pc decide c (propositional + interval reasoning)?"""
    if isk(c):
        return bool(kval(c))
    from .intervals import decide
    r = decide(c)
    if r is not None:
        return r
    s = set()
    for p in pc:
        if p.op == "and":
            s.update(p.args)
        else:
            s.add(p)
    if c in s:
        return True
    if not_(c) in s:
        return False
    at = []
    _atoms(c, at)
    rel = []
    ats = list(at)
    keyterms = {x for a in at if a.op in ("lt", "le", "eq") for x in a.args if not isk(x)}
    for p in s:
        pa = []
        _atoms(p, pa)
        if any(a in at for a in pa) or any(x in keyterms for a in pa if a.op in ("lt", "le", "eq") for x in a.args if not isk(x)):
            rel.append(p)
            for a in pa:
                if a not in ats:
                    ats.append(a)
    if len(ats) > 10:
        return None
    key = (frozenset(rel), c)
    if key in _ENT:
        return _ENT[key]
    by = _numfacts(ats)
    can = {True: False, False: False}
    for m in range(1 << len(ats)):
        bits = [(m >> i) & 1 == 1 for i in range(len(ats))]
        mm = dict(zip(ats, bits))
        if not _consistent(by, bits):
            continue
        if all(_beval(p, mm) for p in rel):
            can[_beval(c, mm)] = True
            if can[True] and can[False]:
                break
    r = None
    if can[True] != can[False]:
        r = can[True]
    _ENT[key] = r
    return r


def satisfiable(pc):
    """False if the conjunction is propositionally contradictory."""
    c = and_(*pc) if pc else TRUE
    if isk(c):
        return bool(kval(c))
    from .intervals import decide
    if decide(c) is False:
        return False
    at = []
    _atoms(c, at)
    if len(at) > 10:
        return True
    by = _numfacts(at)
    for m in range(1 << len(at)):
        bits = [(m >> i) & 1 == 1 for i in range(len(at))]
        if _consistent(by, bits) and _beval(c, dict(zip(at, bits))):
            return True
    return False
