"""Interval component of the reduced product: bounds of numeric terms, three-valued conditions."""
import math
import random

from .terms import EvalError, K, Term, _rand_sym, compare, ev, free, isk, kval, precise, walk

INF = math.inf
TOP = (-INF, INF)
_IV, _DEC, _ID = {}, {}, {}
ZERO = K(0.0)


def _mul(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return (min(ps), max(ps))


def iv(t):
    if not isinstance(t, Term):
        return TOP
    r = _IV.get(t)
    if r is None:
        try:
            r = _iv(t)
        except (OverflowError, ZeroDivisionError, ValueError):
            r = TOP
        if r[0] != r[0] or r[1] != r[1]:
            r = TOP
        _IV[t] = r
    return r


def _iv(t):
    op, a = t.op, t.args
    if op == "k":
        v = a[0]
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v:
            return TOP
        return (float(v), float(v))
    if op == "sym":
        dom = a[1] if len(a) > 1 else None
        if t.ty in ("real", "int") and dom and len(dom) == 2:
            return (float(dom[0]), float(dom[1]))
        return TOP
    if op == "add":
        x, y = iv(a[0]), iv(a[1])
        return (x[0] + y[0], x[1] + y[1])
    if op == "sub":
        x, y = iv(a[0]), iv(a[1])
        return (x[0] - y[1], x[1] - y[0])
    if op == "neg":
        x = iv(a[0])
        return (-x[1], -x[0])
    if op == "mul":
        if a[0] is a[1]:
            x = iv(a[0])
            lo = 0.0 if x[0] <= 0 <= x[1] else min(x[0] * x[0], x[1] * x[1])
            return (lo, max(x[0] * x[0], x[1] * x[1]))
        return _mul(iv(a[0]), iv(a[1]))
    if op == "div":
        y = iv(a[1])
        if y[0] > 0 or y[1] < 0:
            return _mul(iv(a[0]), (1 / y[1], 1 / y[0]))
        return TOP
    if op == "pow" and isk(a[1]) and isinstance(kval(a[1]), (int, float)):
        n, x = kval(a[1]), iv(a[0])
        if n == int(n) and n > 0 and int(n) % 2 == 0:
            lo = 0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])) ** n
            return (lo, max(abs(x[0]), abs(x[1])) ** n)
        if x[0] >= 0 and n > 0:
            return (x[0] ** n, x[1] ** n)
        return TOP
    if op == "ite":
        c = decide(a[0])
        if c is True:
            return iv(a[1])
        if c is False:
            return iv(a[2])
        x, y = iv(a[1]), iv(a[2])
        return (min(x[0], y[0]), max(x[1], y[1]))
    if op == "fn":
        f = a[0]
        if f in ("abs", "fabs", "absolute"):
            x = iv(a[1])
            return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
        if f == "sqrt":
            x = iv(a[1])
            return (math.sqrt(max(x[0], 0.0)), math.sqrt(x[1]) if 0 <= x[1] < INF else INF)
        if f in ("sin", "cos"):
            x = iv(a[1])
            if x[0] == x[1]:
                v = math.sin(x[0]) if f == "sin" else math.cos(x[0])
                return (v - 1e-12, v + 1e-12)
            return (-1.0, 1.0)
        if f in ("exp",):
            x = iv(a[1])
            return (math.exp(x[0]), math.exp(x[1]) if x[1] < 700 else INF)
        if f == "float":
            return iv(a[1])
        if f in ("min", "max") and len(a) > 2:
            xs = [iv(q) for q in a[1:]]
            g = min if f == "min" else max
            return (g(x[0] for x in xs), g(x[1] for x in xs))
    return TOP


_ANALYTIC = {"k", "sym", "add", "sub", "mul", "div", "neg", "pow", "app"}
_SMOOTH = {"sqrt", "sin", "cos", "tan", "exp", "log", "arctan2", "atan2", "abs", "fabs", "absolute", "float"}


def _identity(a, b):
    """The constant that a - b is identically equal to (random interpretation of an
    analytic expression), or None."""
    key = (a, b)
    if key in _ID:
        return _ID[key]
    r = None
    for t in (a, b):
        for u in walk(t):
            if not (u.op in _ANALYTIC or u.op == "fn" and u.args[0] in _SMOOTH) or u.op == "sym" and u.ty not in ("real", "int"):
                _ID[key] = None
                return None
    if precise(a) and precise(b):
        syms = sorted(set(free(a)) | set(free(b)), key=lambda s: str(s.args[0]))
        rng, vals = random.Random("identity"), []
        for k in range(12):
            env, memo = {"#seed": ("identity", k)}, {}
            for s in syms:
                env[s] = _rand_sym(s, rng)
            try:
                x, y = ev(a, env, memo), ev(b, env, memo)
                vals.append((float(x) - float(y), 1 + abs(x) + abs(y)))
            except (EvalError, TypeError, ValueError):
                vals = []
                break
        if vals and all(abs(v - vals[0][0]) <= 1e-12 * m for v, m in vals):
            r = vals[0][0]
    _ID[key] = r
    return r


def decide(c):
    """True / False / None for a boolean term, from the domains of its symbols alone."""
    if not isinstance(c, Term):
        return None
    if c in _DEC:
        return _DEC[c]
    r = _decide(c)
    _DEC[c] = r
    return r


def _num(t):
    return isinstance(t, Term) and (t.ty in ("real", "int", "any") and t.op not in ("unk",) or isk(t) and isinstance(kval(t), (int, float)))


def _decide(c):
    op, a = c.op, c.args
    if op == "k":
        return bool(a[0]) if isinstance(a[0], bool) else None
    if op == "not":
        r = decide(a[0])
        return None if r is None else not r
    if op in ("and", "or"):
        rs = [decide(x) for x in a]
        stop = op == "or"
        if any(r is stop for r in rs):
            return stop
        return (not stop) if all(r is not None for r in rs) else None
    if op == "ite" and c.ty == "bool":
        k = decide(a[0])
        if k is not None:
            return decide(a[1] if k else a[2])
        x, y = decide(a[1]), decide(a[2])
        return x if x is y else None
    if op in ("lt", "le", "eq") and _num(a[0]) and _num(a[1]):
        x, y = iv(a[0]), iv(a[1])
        # a margin of a few ulps keeps rounded bounds on the safe side
        m = 1e-12 * (1 + min(abs(v) for v in x + y if abs(v) < INF)) if any(abs(v) < INF for v in x + y) else 0.0
        if x[1] < y[0] - m:
            return op != "eq"
        if x[0] > y[1] + m:
            return False
        if x[0] == x[1] == y[0] == y[1] and isk(a[0]) and isk(a[1]):
            return op != "lt"
        if op != "eq" and not (isk(a[0]) and isk(a[1])):
            g = _identity(a[0], a[1])
            if g is not None and abs(g) > 1e-11:
                return g < 0
            # a distance that is identically zero against a tolerance
            for dist, tol, r in ((a[0], a[1], True), (a[1], a[0], False)):
                if iv(tol)[0] > 2e-6 and iv(dist)[0] == 0.0 and not isk(dist):
                    g = _identity(dist, ZERO)
                    if g is not None:
                        return r if abs(g) < 1e-9 else None
                    if precise(dist) and compare(dist, ZERO).kind == "equal":
                        return r
        return None
    if op == "fn" and a[0] == "isclose" and len(a) >= 3:
        x, y = iv(a[1]), iv(a[2])
        rt = kval(a[3]) if len(a) > 3 and isk(a[3]) else None
        at = kval(a[4]) if len(a) > 4 and isk(a[4]) else None
        if rt is None or at is None:
            return None
        gap = max(y[0] - x[1], x[0] - y[1])
        big = max(abs(y[0]), abs(y[1]))
        if big < INF and gap > at + rt * big + 1e-12 * (1 + big):
            return False
        wide = max(x[1] - y[0], y[1] - x[0])
        small = 0.0 if y[0] <= 0 <= y[1] else min(abs(y[0]), abs(y[1]))
        if wide < (at + rt * small) * (1 - 1e-9):
            return True
        g = _identity(a[1], a[2])
        if g is not None and abs(g) < (at + rt * small) * 0.5:
            return True
        if g is None and at + rt * small > 2e-6 and precise(a[1]) and precise(a[2]) and compare(a[1], a[2]).kind == "equal":
            return True
    return None
