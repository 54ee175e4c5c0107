"""Abstract model of the pandas subset: tables of terms whose rows carry presence guards."""
from . import terms as tm
from .terms import Term, K, TRUE, FALSE, NONE, NAN, ZERO, ONE, isk, kval, unk, eq, not_, and_, or_, ite
from .values import *


def frame(it, cols, index, data, guards=None):
    if guards is not None and any(g is FALSE for g in guards):
        keep = [i for i, g in enumerate(guards) if g is not FALSE]
        index, guards, data = [index[i] for i in keep], [guards[i] for i in keep], [[c[i] for i in keep] for c in data]
    n = len(index)
    return it.alloc(Inst("pd.DataFrame", {"cols": Tup(cols), "index": Tup(index), "data": Tup([Tup(c) for c in data]),
                                          "guards": Tup(guards if guards is not None else [TRUE] * n)}))


def series(it, index, data, guards=None, name=NONE):
    return it.alloc(Inst("pd.Series", {"index": Tup(index), "data": Tup(data),
                                       "guards": Tup(guards if guards is not None else [TRUE] * len(index)), "name": name}))


def is_df(it, v):
    return isinstance(v, Ref) and isinstance(it.obj(v), Inst) and it.obj(v).cls == "pd.DataFrame"


def is_se(it, v):
    return isinstance(v, Ref) and isinstance(it.obj(v), Inst) and it.obj(v).cls == "pd.Series"


def rows(o):
    cols = [c.items for c in o.f["data"].items]
    return [[c[i] for c in cols] for i in range(len(o.f["index"].items))]


def make_df(it, args, kw):
    M = it.models
    kw = dict(kw)
    names = ["data", "index", "columns", "dtype", "copy"]
    for n, a in zip(names, args):
        kw[n] = a
    data = it.norm(kw.get("data", NONE))
    index, columns = it.norm(kw.get("index", NONE)), it.norm(kw.get("columns", NONE))
    idx = None if index is NONE else it.known_items(index)
    cols = None if columns is NONE else it.known_items(columns)
    if data is NONE:
        return frame(it, cols or [], idx or [], [[] for _ in cols or []])
    if is_df(it, data):
        o = it.obj(data)
        return it.alloc(Inst("pd.DataFrame", dict(o.f)))
    if isinstance(data, Ref) and isinstance(it.obj(data), DDict):
        segs = it.obj(data).segs
        if not all(s[0] == "e" and s[3] is None for s in segs):
            return unk("DataFrame")
        keys = [s[1] for s in segs]
        vals = [it.norm(s[2]) for s in segs]
        # dict of dicts: columns of labelled values
        if vals and all(isinstance(v, Ref) and isinstance(it.obj(v), DDict) for v in vals):
            lab = []
            for v in vals:
                for s in it.obj(v).segs:
                    if s[0] != "e" or s[3] is not None:
                        return unk("DataFrame")
                    if s[1] not in lab:
                        lab.append(s[1])
            out = []
            for v in vals:
                m = {s[1]: s[2] for s in it.obj(v).segs}
                out.append([m.get(k, NAN) for k in lab])
            return frame(it, keys, lab, out)
        if all(isinstance(v, Term) for v in vals):
            if idx is None:
                it.do_raise(it.exc("ValueError", K("If using all scalar values, you must pass an index")))
            return frame(it, keys, idx, [[v] * len(idx) for v in vals])
        out, n = [], None
        for v in vals:
            items = it.known_items(v) if not is_se(it, v) else list(it.obj(v).f["data"].items)
            if items is None:
                return unk("DataFrame")
            if n is not None and len(items) != n:
                it.do_raise(it.exc("ValueError", K("All arrays must be of the same length")))
            n = len(items)
            out.append(items)
        n = n or 0
        if idx is not None and len(idx) != n:
            it.do_raise(it.exc("ValueError", K("Shape of passed values")))
        return frame(it, keys, idx if idx is not None else [K(i) for i in range(n)], out)
    try:
        x = M.nd(it, data)
    except M.Unknown:
        return unk("DataFrame")
    if not isinstance(x, list):
        return unk("DataFrame")
    if x and not isinstance(x[0], list):
        x = [[v] for v in x]
    w = len(cols) if cols is not None else (max(len(r) for r in x) if x else 0)
    for r in x:
        if len(r) > w:
            it.do_raise(it.exc("ValueError", K("columns")))
    x = [list(r) + [NAN] * (w - len(r)) for r in x]
    if cols is None:
        cols = [K(i) for i in range(w)]
    n = len(x)
    return frame(it, cols, idx if idx is not None else [K(i) for i in range(n)], [[r[j] for r in x] for j in range(w)])


def make_series(it, args, kw):
    data = it.norm(args[0]) if args else it.norm(kw.get("data", NONE))
    if isinstance(data, Ref) and isinstance(it.obj(data), DDict):
        segs = it.obj(data).segs
        if all(s[0] == "e" and s[3] is None for s in segs):
            return series(it, [s[1] for s in segs], [it.norm(s[2]) for s in segs])
        return unk("Series")
    items = it.known_items(data)
    if items is None:
        return unk("Series")
    index = kw.get("index", args[1] if len(args) > 1 else NONE)
    idx = [K(i) for i in range(len(items))] if index is NONE else it.known_items(index)
    return series(it, idx, items)


def concat(it, args, kw):
    objs = it.known_items(args[0] if args else kw["objs"])
    axis = kw.get("axis", args[1] if len(args) > 1 else ZERO)
    join = kw.get("join", K("outer"))
    ign = kw.get("ignore_index", FALSE)
    if objs is None or not isk(axis) or not isk(join) or not all(is_df(it, o) or is_se(it, o) for o in objs):
        return unk("concat")
    os_ = [it.obj(o) for o in objs]
    if kval(axis) in (0, "index"):
        if any(o.cls == "pd.Series" for o in os_):
            return unk("concat")
        cols = []
        for o in os_:
            for c in o.f["cols"].items:
                if c not in cols:
                    cols.append(c)
        if kval(join) == "inner":
            cols = [c for c in cols if all(c in o.f["cols"].items for o in os_)]
        idx, gs, data = [], [], [[] for _ in cols]
        for o in os_:
            idx += list(o.f["index"].items)
            gs += list(o.f["guards"].items)
            m = dict(zip(o.f["cols"].items, o.f["data"].items))
            for j, c in enumerate(cols):
                data[j] += list(m[c].items) if c in m else [NAN] * len(o.f["index"].items)
        if it.truth(ign) is TRUE:
            if any(g is not TRUE for g in gs):
                return unk("concat")
            idx = [K(i) for i in range(len(idx))]
        return frame(it, cols, idx, data, gs)
    # axis 1: align on labels
    labs = []
    for o in os_:
        ix = o.f["index"].items
        if len(set(ix)) != len(ix):
            same = all(p.f["index"].items == ix and p.f["guards"].items == o.f["guards"].items for p in os_)
            if not same:
                return unk("concat with repeated labels")
        for l in ix:
            if l not in labs:
                labs.append(l)
    cols, data, gs = [], [], None
    for l in labs:
        pres = []
        for o in os_:
            ix = list(o.f["index"].items)
            pres.append(o.f["guards"].items[ix.index(l)] if l in ix else FALSE)
        g = and_(*pres) if kval(join) == "inner" else or_(*pres)
        gs = (gs or []) + [g]
    for o in os_:
        ix = list(o.f["index"].items)
        cs = o.f["cols"].items if o.cls == "pd.DataFrame" else [o.f["name"]]
        ds = o.f["data"].items if o.cls == "pd.DataFrame" else [o.f["data"]]
        for c, d in zip(cs, ds):
            cols.append(c)
            col = []
            for l in labs:
                if l in ix:
                    k = ix.index(l)
                    col.append(ite(o.f["guards"].items[k], d.items[k], NAN))
                else:
                    col.append(NAN)
            data.append(col)
    return frame(it, cols, labs, data, gs or [])


def merge(it, args, kw):
    kw = dict(kw)
    for n, a in zip(["left", "right", "how", "on"], args):
        kw[n] = a
    l, r = it.norm(kw["left"]), it.norm(kw["right"])
    if not (is_df(it, l) and is_df(it, r)) or kw.get("left_index") is not TRUE or kw.get("right_index") is not TRUE:
        return unk("merge")
    a, b = it.obj(l), it.obj(r)
    ia, ib = list(a.f["index"].items), list(b.f["index"].items)
    if len(set(ia)) != len(ia) or len(set(ib)) != len(ib):
        return unk("merge with repeated labels")
    how = kval(kw["how"]) if "how" in kw and isk(kw["how"]) else "inner"
    if how != "inner":
        return unk("merge")
    labs = [x for x in ia if x in ib]
    ca, cb = list(a.f["cols"].items), list(b.f["cols"].items)
    both = [c for c in ca if c in cb]
    cols = [tm.cat(c, K("_x")) if c in both else c for c in ca] + [tm.cat(c, K("_y")) if c in both else c for c in cb]
    data = [[d.items[ia.index(x)] for x in labs] for d in a.f["data"].items] + [[d.items[ib.index(x)] for x in labs] for d in b.f["data"].items]
    gs = [and_(a.f["guards"].items[ia.index(x)], b.f["guards"].items[ib.index(x)]) for x in labs]
    return frame(it, cols, labs, data, gs)


def read_csv(it, args, kw):
    p = it.norm(args[0])
    it.event("read", how="csv", path=p)
    for k, v in it.csvfiles:
        if k is p:
            o = it.obj(v)
            return it.alloc(Inst("pd.DataFrame", dict(o.f)))
    return unk("read_csv")


def elem(it, f, args):
    """Element-wise application over tables, series and scalars."""
    args = [it.norm(a) for a in args]
    ref = [a for a in args if is_df(it, a)] or [a for a in args if is_se(it, a)]
    o = it.obj(ref[0])
    n = len(o.f["index"].items)

    def col(a, j, i):
        x = cell(a, j, i)
        if not isinstance(x, Term):
            raise it.models.Unknown("cell")
        return x

    def cell(a, j, i):
        if isinstance(a, Term):
            return a
        h = it.obj(a)
        if isinstance(h, Inst) and h.cls == "pd.DataFrame":
            if h.f["index"].items != o.f["index"].items:
                raise it.models.Unknown("labels")
            return h.f["data"].items[j].items[i]
        if isinstance(h, Inst) and h.cls == "pd.Series":
            if o.cls == "pd.DataFrame" or h.f["index"].items != o.f["index"].items:
                raise it.models.Unknown("labels")
            return h.f["data"].items[i]
        items = it.known_items(a)
        if items is not None and len(items) == n and o.cls == "pd.Series":
            return items[i]
        raise it.models.Unknown("operand")
    try:
        if o.cls == "pd.DataFrame":
            for a in args:
                if is_df(it, a) and it.obj(a).f["cols"].items != o.f["cols"].items:
                    return align_op(it, f, args)
                if is_df(it, a) and it.obj(a).f["index"].items != o.f["index"].items:
                    return align_op(it, f, args)
            data = [[f(*[col(a, j, i) for a in args]) for i in range(n)] for j in range(len(o.f["cols"].items))]
            return frame(it, o.f["cols"].items, o.f["index"].items, data, o.f["guards"].items)
        data = [f(*[col(a, 0, i) for a in args]) for i in range(n)]
        return series(it, o.f["index"].items, data, o.f["guards"].items, o.f["name"])
    except it.models.Unknown:
        return unk("table operation")


def align_op(it, f, args):
    """Binary operation aligning rows and columns by label (missing -> NaN)."""
    if len(args) != 2 or not all(is_df(it, a) for a in args):
        return unk("table operation")
    a, b = it.obj(args[0]), it.obj(args[1])
    ia, ib = list(a.f["index"].items), list(b.f["index"].items)
    ca, cb = list(a.f["cols"].items), list(b.f["cols"].items)
    if len(set(ia)) != len(ia) or len(set(ib)) != len(ib):
        return unk("table operation")
    idx = ia + [x for x in ib if x not in ia]
    cols = ca + [c for c in cb if c not in ca]
    data = []
    for c in cols:
        col = []
        for x in idx:
            if c in ca and c in cb and x in ia and x in ib:
                col.append(f(a.f["data"].items[ca.index(c)].items[ia.index(x)], b.f["data"].items[cb.index(c)].items[ib.index(x)]))
            else:
                col.append(NAN)
        data.append(col)
    return frame(it, cols, idx, data)


def binop(it, name, a, b):
    f0 = it.models.tfun(name)

    def f(x, y):
        if isinstance(x, Term) and isinstance(y, Term):
            return f0(x, y)
        return it.binop_named(name, x, y)
    return elem(it, f, [a, b])


def unop(it, name, v):
    f = {"__neg__": tm.neg, "__invert__": not_, "__pos__": lambda x: x}[name]
    return elem(it, f, [v])


def colpos(o, c):
    cs = list(o.f["cols"].items)
    return [i for i, x in enumerate(cs) if x is c or x == c]


def getitem(it, ref, i):
    o = it.obj(ref)
    c = o.cls
    if c == "pd.DataFrame":
        if isinstance(i, Term) and not (isk(i) and kval(i) is None):
            p = colpos(o, i)
            if len(p) == 1:
                return series(it, o.f["index"].items, o.f["data"].items[p[0]].items, o.f["guards"].items, i)
            if not p and isk(i):
                it.do_raise(it.exc("KeyError", i))
            return unk("column")
        if is_se(it, i):
            m = it.obj(i)
            if m.f["index"].items != o.f["index"].items or len(m.f["index"].items) != len(o.f["guards"].items):
                return unk("mask")
            gs = [and_(g, x) for g, x in zip(o.f["guards"].items, m.f["data"].items)]
            return mask(it, o, gs)
        if it.models.is_seq(it, i):
            items = it.known_items(i)
            if items is None:
                return unk("columns")
            if items and all(isinstance(x, Term) and x.ty == "bool" for x in items):
                return mask(it, o, [and_(g, x) for g, x in zip(o.f["guards"].items, items)])
            data = []
            for x in items:
                p = colpos(o, x)
                if not p:
                    it.do_raise(it.exc("KeyError", x if isinstance(x, Term) else K("column")))
                if len(p) > 1:
                    return unk("repeated columns")
                data.append(o.f["data"].items[p[0]].items)
            return frame(it, items, o.f["index"].items, data, o.f["guards"].items)
        return unk("table index")
    if c == "pd.Series":
        if it.models.is_seq(it, i):
            items = it.known_items(i)
            if items is not None and all(x in o.f["index"].items for x in items):
                ix = list(o.f["index"].items)
                return series(it, items, [o.f["data"].items[ix.index(x)] for x in items])
            if items is not None:
                it.do_raise(it.exc("KeyError"))
            return unk("series index")
        ix = list(o.f["index"].items)
        if isinstance(i, Term) and i in ix:
            return o.f["data"].items[ix.index(i)]
        if isk(i) and all(isk(x) for x in ix):
            it.do_raise(it.exc("KeyError", i))
        return unk("series index")
    base = it.obj(it.norm(o.f["of"]))
    if c == "pd.iloc":
        return iloc(it, base, i)
    if c == "pd.loc":
        if isinstance(i, Tup) and len(i.items) == 2:
            r, cc = i.items
            ix = list(base.f["index"].items)
            if isinstance(r, Term) and r in ix and isinstance(cc, Term):
                p = colpos(base, cc)
                if len(p) == 1 and ix.count(r) == 1:
                    return base.f["data"].items[p[0]].items[ix.index(r)]
            return unk("loc")
        ix = list(base.f["index"].items)
        if isinstance(i, Term) and ix.count(i) == 1 and base.cls == "pd.DataFrame":
            k = ix.index(i)
            return series(it, base.f["cols"].items, [d.items[k] for d in base.f["data"].items], None, i)
        if isinstance(i, Term) and ix.count(i) == 1 and base.cls == "pd.Series":
            return base.f["data"].items[ix.index(i)]
        return unk("loc")
    return unk("getitem")


def mask(it, o, gs):
    keep, out = [], []
    for k, g in enumerate(gs):
        d = it.decide(g)
        if d is False:
            continue
        keep.append(k)
        out.append(TRUE if d is True else g)
    sel = lambda xs: [xs[k] for k in keep]
    return frame(it, o.f["cols"].items, sel(o.f["index"].items), [sel(d.items) for d in o.f["data"].items], out)


def iloc(it, o, i):
    gs = list(o.f["guards"].items)
    n = len(gs)
    if isk(i) and isinstance(kval(i), int) and not isinstance(kval(i), bool):
        k = kval(i)
        if all(g is TRUE for g in gs):
            if not -n <= k < n:
                it.do_raise(it.exc("IndexError"))
            if o.cls == "pd.Series":
                return o.f["data"].items[k]
            return series(it, o.f["cols"].items, [d.items[k] for d in o.f["data"].items])
        if k == 0:
            it.may_raise(not_(or_(*gs)), it.exc("IndexError"))
            vals = rows(o) if o.cls == "pd.DataFrame" else [[x] for x in o.f["data"].items]
            v = list(vals[-1])
            for j in range(n - 2, -1, -1):
                v = [ite(gs[j], a, b) for a, b in zip(vals[j], v)]
            if o.cls == "pd.Series":
                return v[0]
            return series(it, o.f["cols"].items, v)
        if k == -1:
            it.may_raise(not_(or_(*gs)), it.exc("IndexError"))
            vals = rows(o) if o.cls == "pd.DataFrame" else [[x] for x in o.f["data"].items]
            v = list(vals[0])
            for j in range(1, n):
                v = [ite(gs[j], a, b) for a, b in zip(vals[j], v)]
            if o.cls == "pd.Series":
                return v[0]
            return series(it, o.f["cols"].items, v)
    return unk("iloc")


def setitem(it, ref, i, v):
    o = it.obj(ref)
    if o.cls == "pd.DataFrame" and isinstance(i, Term):
        v = it.norm(v)
        n = len(o.f["index"].items)
        if is_se(it, v):
            s = it.obj(v)
            if s.f["index"].items != o.f["index"].items:
                vals = [unk("align")] * n
            else:
                vals = list(s.f["data"].items)
        elif isinstance(v, Term):
            vals = [v] * n
        else:
            items = it.known_items(v)
            vals = items if items is not None and len(items) == n else [unk("column")] * n
        cols, data = list(o.f["cols"].items), list(o.f["data"].items)
        p = colpos(o, i)
        if p:
            data[p[0]] = Tup(vals)
        else:
            cols.append(i)
            data.append(Tup(vals))
        f = dict(o.f)
        f["cols"], f["data"] = Tup(cols), Tup(data)
        it.put(ref, Inst(o.cls, f))
        return
    it.event("tablestore", obj=ref)
    f = dict(o.f)
    if "data" in f:
        f["data"] = Tup([unk("store")] * len(f["data"].items)) if o.cls == "pd.Series" else \
            Tup([Tup([unk("store")] * len(c.items)) for c in f["data"].items])
        it.put(ref, Inst(o.cls, f))


def getattr_(it, ref, o, name, default):
    if name in ("iloc", "loc", "iat", "at"):
        return it.alloc(Inst("pd.iloc" if name in ("iloc", "iat") else "pd.loc", {"of": ref}))
    if name == "columns" and o.cls == "pd.DataFrame":
        return it.new_list(o.f["cols"].items, "arr")
    if name == "index" and "index" in o.f:
        return it.new_list(o.f["index"].items, "arr")
    if name == "name" and o.cls == "pd.Series":
        return o.f["name"]
    if name == "values" and "data" in o.f:
        if any(g is not TRUE for g in o.f["guards"].items):
            return unk("values", ty="arr")
        if o.cls == "pd.Series":
            # a view of the column: copy-on-write makes it read-only
            v = it.new_list(o.f["data"].items, "arr")
            it.readonly.add(v.id)
            return v
        return it.models.mk(it, rows(o))
    if name == "shape" and "data" in o.f:
        n = ZERO
        for g in o.f["guards"].items:
            n = tm.add(n, ite(g, ONE, ZERO))
        return Tup([n] + ([K(len(o.f["cols"].items))] if o.cls == "pd.DataFrame" else []))
    if name == "empty" and "guards" in o.f:
        return not_(or_(*o.f["guards"].items)) if o.f["guards"].items else TRUE
    if name == "T":
        return unk("T")
    if o.cls == "pd.DataFrame" and colpos(o, K(name)):
        return getitem(it, ref, K(name))
    return BiM(ref, name)


def setattr_(it, ref, o, name, v):
    if name == "columns" and o.cls == "pd.DataFrame":
        items = it.known_items(v)
        if items is not None and len(items) == len(o.f["cols"].items):
            it.put(ref, o.with_("cols", Tup(items)))
            return
    if name == "index":
        items = it.known_items(v)
        if items is not None and len(items) == len(o.f["index"].items):
            it.put(ref, o.with_("index", Tup(items)))
            return
    it.put(ref, o.with_("data", Tup([Tup([unk("attr")] * len(c.items)) for c in o.f["data"].items])) if o.cls == "pd.DataFrame" else o)


def row_eq(a, b):
    return and_(*[eq(x, y) for x, y in zip(a, b)])


def method(it, ref, o, name, args, kw):
    if o.cls in ("pd.iloc", "pd.loc"):
        return unk(name)
    inplace = kw.get("inplace", FALSE) is TRUE

    def ret(r):
        if inplace:
            it.put(ref, it.obj(r))
            return NONE
        return r
    if name == "to_csv":
        it.event("write", how="csv", path=it.norm(args[0]) if args else NONE, value=Inst(o.cls, dict(o.f)),
                 index=kw.get("index", TRUE), mode=kw.get("mode", K("w")), kw=dict(kw))
        return NONE
    if name == "copy":
        return it.alloc(Inst(o.cls, dict(o.f)))
    if name == "abs":
        return elem(it, lambda x: tm.fn("abs", x), [ref])
    if name in ("isna", "isnull"):
        return elem(it, lambda x: tm.fn("isnan", x, ty="bool"), [ref])
    if name in ("sub", "add", "mul", "div", "truediv", "lt", "le", "gt", "ge", "eq", "ne", "subtract", "divide", "multiply", "pow"):
        n = {"div": "truediv", "subtract": "sub", "divide": "truediv", "multiply": "mul"}.get(name, name)
        return binop(it, "__%s__" % n, ref, args[0])
    if name == "rename":
        c = kw.get("columns")
        if c is not None and o.cls == "pd.DataFrame":
            m = it.obj(it.norm(c))
            if isinstance(m, DDict) and all(s[0] == "e" and s[3] is None for s in m.segs):
                mm = {s[1]: s[2] for s in m.segs}
                return ret(it.alloc(o.with_("cols", Tup([mm.get(x, x) for x in o.f["cols"].items]))))
        return ret(unk("rename")) if not inplace else NONE
    if name == "merge":
        k2 = dict(kw)
        return merge(it, [ref] + list(args), k2)
    if name == "duplicated":
        rs = rows(o)
        gs = o.f["guards"].items
        sub = kw.get("subset", args[0] if args else NONE)
        if sub is not NONE:
            items = it.known_items(sub) if not isinstance(sub, Term) else [sub]
            pos = [colpos(o, x)[0] for x in items]
            rs = [[r[p] for p in pos] for r in rs]
        keep = kw.get("keep", K("first"))
        out = []
        for i in range(len(rs)):
            js = range(i) if keep is K("first") else range(i + 1, len(rs)) if keep is K("last") else [j for j in range(len(rs)) if j != i]
            out.append(or_(*[and_(gs[j], row_eq(rs[i], rs[j])) for j in js]))
        return series(it, o.f["index"].items, out, gs)
    if name == "drop_duplicates":
        d = method(it, ref, o, "duplicated", args, {k: v for k, v in kw.items() if k in ("subset", "keep")})
        return ret(mask(it, o, [and_(g, not_(x)) for g, x in zip(o.f["guards"].items, it.obj(d).f["data"].items)]))
    if name == "dropna":
        if o.cls == "pd.DataFrame":
            ax = kw.get("axis", ZERO)
            if ax is ZERO and kw.get("how", K("any")) is K("any"):
                return ret(mask(it, o, [and_(g, *[not_(isnan(x)) for x in r]) for g, r in zip(o.f["guards"].items, rows(o))]))
        return unk("dropna")
    if name == "fillna" and args:
        return elem(it, lambda x: ite(isnan(x), args[0], x), [ref])
    if name == "reset_index":
        if any(g is not TRUE for g in o.f["guards"].items):
            return unk("reset_index")
        n = len(o.f["index"].items)
        idx = [K(i) for i in range(n)]
        drop = kw.get("drop", FALSE)
        if drop is TRUE:
            return ret(it.alloc(o.with_("index", Tup(idx))))
        if o.cls == "pd.DataFrame":
            return ret(frame(it, [K("index")] + list(o.f["cols"].items), idx, [list(o.f["index"].items)] + [list(d.items) for d in o.f["data"].items]))
        return unk("reset_index")
    if name == "drop":
        ax = kw.get("axis", args[1] if len(args) > 1 else ZERO)
        lab = kw.get("columns", args[0] if args else kw.get("labels", NONE))
        if "columns" in kw or (isk(ax) and kval(ax) in (1, "columns")):
            items = [lab] if isinstance(lab, Term) else it.known_items(lab)
            if items is None:
                return unk("drop")
            for x in items:
                if not colpos(o, x):
                    it.do_raise(it.exc("KeyError", x))
            keep = [j for j, c in enumerate(o.f["cols"].items) if c not in items]
            return ret(frame(it, [o.f["cols"].items[j] for j in keep], o.f["index"].items, [o.f["data"].items[j].items for j in keep], o.f["guards"].items))
        return unk("drop")
    if name in ("sum", "mean", "max", "min"):
        ax = kw.get("axis", args[0] if args else ZERO)

        def red(xs, gs=None):
            if name in ("sum", "mean"):
                t = ZERO
                for k, x in enumerate(xs):
                    x = x if gs is None or gs[k] is TRUE else ite(gs[k], x, ZERO)
                    t = tm.add(t, x)
                return t if name == "sum" else (tm.div(t, K(len(xs))) if gs is None or all(g is TRUE for g in gs) else unk("mean"))
            return tm.fn(name, *xs) if len(xs) > 1 else xs[0]
        gs = o.f["guards"].items
        if o.cls == "pd.Series":
            return red(o.f["data"].items, gs)
        if isk(ax) and kval(ax) in (1, "columns"):
            return series(it, o.f["index"].items, [red(r) for r in rows(o)], gs)
        return series(it, o.f["cols"].items, [red(d.items, gs) for d in o.f["data"].items])
    if name == "iterrows":
        segs = []
        for l, r, g in zip(o.f["index"].items, rows(o), o.f["guards"].items):
            segs.append(("i", Tup([l, series(it, o.f["cols"].items, r, None, l)]), None if g is TRUE else g))
        return SeqV(segs)
    if name == "items":
        if o.cls == "pd.Series":
            return SeqV([("i", Tup([l, x]), None if g is TRUE else g) for l, x, g in zip(o.f["index"].items, o.f["data"].items, o.f["guards"].items)])
        return SeqV([("i", Tup([c, getitem(it, ref, c)]), None) for c in o.f["cols"].items])
    if name in ("to_numpy",):
        v = getattr_(it, ref, o, "values", None)
        c = kwargs.get("copy", args[1] if len(args) > 1 else FALSE)
        if isinstance(v, Ref) and c is not FALSE:
            it.readonly.discard(v.id)
        return v
    if name in ("tolist", "to_list") and o.cls == "pd.Series":
        return it.new_list(o.f["data"].items)
    if name in ("any", "all") and o.cls == "pd.Series":
        xs = [and_(g, x) if name == "any" else or_(not_(g), x) for g, x in zip(o.f["guards"].items, o.f["data"].items)]
        return or_(*xs) if name == "any" else and_(*xs)
    if name == "head" and args and isk(args[0]):
        return unk("head")
    if name == "keys":
        return it.new_list(o.f["cols" if o.cls == "pd.DataFrame" else "index"].items)
    if name == "get" and o.cls == "pd.Series":
        return getitem(it, ref, args[0])
    it.event("extmethod", obj=ref, name=name)
    return unk("pandas." + name)


def isnan(x):
    if x is NAN:
        return TRUE
    if isk(x):
        return FALSE
    if x.op == "ite":
        return ite(x.args[0], isnan(x.args[1]), isnan(x.args[2]))
    return FALSE if x.ty in ("real", "int", "str", "bool") else tm.fn("isnan", x, ty="bool")


def register(EXT):
    EXT["pandas.DataFrame"] = make_df
    EXT["pandas.Series"] = make_series
    EXT["pandas.concat"] = concat
    EXT["pandas.merge"] = merge
    EXT["pandas.read_csv"] = read_csv
