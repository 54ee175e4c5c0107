from .common import S, METHOD

RULE = "path-term equality: the value of each path kind equals its definition at symbolic parameters, ends and breakpoints"
EXPLANATION = METHOD + "Contexts: lines, Bezier curves of 1-13 points, polylines of 1-4 uninterpreted segments of symbolic length, open and closed splines of 2-5 points, sub-ranged and reversed paths of uninterpreted curves, arcs in a symbolic frame, arc-length paths with 1-4 samples and, for concrete curves, the default number."

SEG = '''
from hypervehicle.geometry.path import Line, Bezier, Polyline, Spline, Arc, ArcLengthParameterizedPath
from hypervehicle.geometry.geometry import SubRangedPath, ReversedPath
class Seg(Path):
    """Any path of given length."""
    def __init__(self, tag):
        self.tag = tag
    def __repr__(self):
        return "Seg"
    def __call__(self, t):
        return Vector3(F(self.tag + ".x", t), F(self.tag + ".y", t), F(self.tag + ".z", t))
    def length(self):
        return real("len" + self.tag, 0.1, 5)
def lerp(p, q, u):
    return plus(scale(p, 1 - u), scale(q, u))
def dist(p, q):
    d = minus(p, q)
    return math.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
def bern(ps, u):
    n = len(ps) - 1
    out = (0.0, 0.0, 0.0)
    for i, p in enumerate(ps):
        out = plus(out, scale(p, math.comb(n, i) * (1 - u) ** (n - i) * u ** i))
    return out
u = real("u", 0.05, 0.95)
'''


def run(d):
    S(d, "line", SEG + '''
a, b = vec("a"), vec("b")
w = Line(a, b)
A, B = xyz(vec("a")), xyz(vec("b"))
same("start", xyz(w(0.0)), A)
same("end", xyz(w(1.0)), B)
same("between", xyz(w(t)), lerp(A, B, t))
same("extrapolated", xyz(w(real("q", -2, 3))), lerp(A, B, real("q", -2, 3)))
same("length", w.length(), dist(B, A))
m = w + vec("o")
same("displaced", xyz(m(t)), plus(lerp(A, B, t), xyz(vec("o"))))
same("original kept", xyz(w(t)), lerp(A, B, t))
raises("displaced by a non-vector", lambda: w + 1.0, ValueError)
''')
    S(d, "Bezier curves", SEG + '''
for n in (1, 2, 3, 4, 5):
    ps = [vec("p" + str(i)) for i in range(n)]
    w = Bezier(ps)
    P = [xyz(vec("p" + str(i))) for i in range(n)]
    same("start", xyz(w(0.0)), P[0])
    same("end", xyz(w(1.0)), P[n - 1])
    same("between", xyz(w(t)), bern(P, t))
    same("evaluated again", xyz(w(t)), bern(P, t))
    same("points kept", [xyz(p) for p in ps], P)
for n in (8, 9, 13):
    P = [(float(i * i % 7), 0.5 * i, float(i % 3)) for i in range(n - 1)] + [xyz(vec("last"))]
    w = Bezier([Vector3(p[0], p[1], p[2]) for p in P])
    same("start of many points", xyz(w(0.0)), P[0])
    same("end of many points", xyz(w(1.0)), P[n - 1])
    same("between many points", xyz(w(t)), bern(P, t))
w = Bezier([vec("p0"), vec("p1"), vec("p2")])
P = [xyz(vec("p" + str(i))) for i in range(3)]
same("sampled length", w.length(4), sum([dist(bern(P, 0.25 * (i + 1)), bern(P, 0.25 * i)) for i in range(4)]))
same("default sampling is the 20-interval sum", w.length(), w.length(20))
raises("not a list of points", lambda: Bezier([1.0, "x"]), ValueError)
''')
    S(d, "polylines", SEG + '''
for n in (1, 2, 3, 4):
    tags = ["A", "B", "C", "D"][:n]
    segs = [Seg(g) for g in tags]
    w = Polyline(segs)
    L = [Seg(g).length() for g in tags]
    total = sum(L)
    same("length", w.length(), total)
    same("start", xyz(w(0.0)), xyz(Seg(tags[0])(0.0)))
    same("end", xyz(w(1.0)), xyz(Seg(tags[n - 1])(1.0)))
    for i in range(n):
        same("inside segment", xyz(w((sum(L[:i]) + u * L[i]) / total)), xyz(Seg(tags[i])(u)))
    check("list handed in keeps its segments", len(segs) == n)
''')
    S(d, "polylines of the library's own paths", SEG + '''
P = [vec("p" + str(i)) for i in range(7)]
def paths():
    return {"line": Line(P[0], P[1]), "curve": Bezier([P[0], P[2], P[1]]), "part": SubRangedPath(Line(P[0], P[1]), 0.25, 0.5), "reversed": ReversedPath(Line(P[0], P[1])),
            "polyline": Polyline([Line(P[0], P[2]), Line(P[2], P[1])]), "any": Seg("A")}
for k, p in paths().items():
    w = Polyline([p, Seg("B")])
    L = [p.length(), Seg("B").length()]
    total = sum(L)
    same(k + " first", xyz(w(u * L[0] / total)), xyz(p(u)))
    same(k + " first: rest", xyz(w((L[0] + u * L[1]) / total)), xyz(Seg("B")(u)))
    same(k + " first: start", xyz(w(0.0)), xyz(p(0.0)))
    w = Polyline([Seg("B"), p])
    same(k + " last", xyz(w((L[1] + u * L[0]) / total)), xyz(p(u)))
    same(k + " last: rest", xyz(w(u * L[1] / total)), xyz(Seg("B")(u)))
    same(k + " last: end", xyz(w(1.0)), xyz(p(1.0)))
    a, b = real("a", 0, 1), real("b", 0, 1)
    same("part of " + k, xyz(SubRangedPath(p, a, b)(t)), xyz(p(a + t * (b - a))))
    same("reversed " + k, xyz(ReversedPath(p)(t)), xyz(p(1 - t)))
    same("part of reversed " + k, xyz(SubRangedPath(ReversedPath(p), a, b)(t)), xyz(p(1 - (a + t * (b - a)))))
    same("part of part of " + k, xyz(SubRangedPath(SubRangedPath(p, a, b), 0.25, 0.75)(t)), xyz(p(a + (0.25 + 0.5 * t) * (b - a))))
''')
    S(d, "polyline breakpoints", SEG + '''
P = [Vector3(0.0, 0.0, 0.0), Vector3(1.0, 0.0, 0.0), Vector3(1.0, 1.0, 0.0), Vector3(1.0, 1.0, 2.0)]
w = Polyline([Line(P[i], P[i + 1]) for i in range(3)])
for q, p in ((0.0, P[0]), (0.25, P[1]), (0.5, P[2]), (1.0, P[3]), (0.125, Vector3(0.5, 0.0, 0.0)), (0.75, Vector3(1.0, 1.0, 1.0))):
    same("joined lines", xyz(w(q)), xyz(p))
''')
    S(d, "closed polylines", SEG + '''
a, b, c = Vector3(0.0, 0.0, 0.0), Vector3(1.5, 0.0, 1.25), Vector3(2.0, 1.75, 0.5)
w = Polyline([Line(a, b), Line(b, c)], closed=True)
A, B, C = xyz(a), xyz(b), xyz(c)
L = [dist(A, B), dist(B, C), dist(C, A)]
total = sum(L)
same("length includes the closing line", w.length(), total)
same("starts", xyz(w(0.0)), A)
same("returns to its start", xyz(w(1.0)), A)
same("first side", xyz(w(u * L[0] / total)), lerp(A, B, u))
same("second side", xyz(w((L[0] + u * L[1]) / total)), lerp(B, C, u))
same("closing side", xyz(w((L[0] + L[1] + u * L[2]) / total)), lerp(C, A, u))
w = Polyline([Line(a, b), Line(b, c), Line(c, a)], closed=True)
same("closed already: length", w.length(), total)
same("closed already: end", xyz(w(1.0)), A)
for k in range(3):
    g = [0.0, 0.0, 0.0]
    g[k] = real("gap", 0.5, 2)
    q = Vector3(g[0], g[1], g[2])
    w = Polyline([Line(a, b), Line(b, q)], closed=True)
    same("gap along one axis: returns to its start", xyz(w(1.0)), A)
    same("gap along one axis: length", w.length(), dist(A, B) + dist(B, xyz(q)) + g[k])
w = Polyline([Line(a, b), Line(b, c)])
same("open: end", xyz(w(1.0)), C)
same("open: length", w.length(), L[0] + L[1])
''')
    S(d, "splines", SEG + '''
def shares(ws):
    L = [w.length() for w in ws]
    return L, sum(L)
ps = [vec("p" + str(i)) for i in range(3)]
P = [xyz(p) for p in ps]
w = Spline(ps)
d1 = tuple((6.0 * P[1][i] - P[0][i] - P[2][i]) / 4.0 for i in range(3))
def third(p, q):
    return tuple((2.0 * p[i] + q[i]) / 3.0 for i in range(3))
def V(p):
    return Vector3(p[0], p[1], p[2])
S0 = [P[0], third(P[0], d1), third(d1, P[0]), P[1]]
S1 = [P[1], third(d1, P[2]), third(P[2], d1), P[2]]
L, total = shares([Bezier([V(p) for p in S0]), Bezier([V(p) for p in S1])])
same("start", xyz(w(0.0)), P[0])
same("end", xyz(w(1.0)), P[2])
same("first half", xyz(w(u * L[0] / total)), bern(S0, u))
same("second half", xyz(w((L[0] + u * L[1]) / total)), bern(S1, u))
same("points kept", [xyz(p) for p in ps], [xyz(vec("p" + str(i))) for i in range(3)])
ps = [vec("p0"), vec("p1")]
w = Spline(ps)
same("two points", xyz(w(t)), lerp(xyz(vec("p0")), xyz(vec("p1")), t))
''')
    S(d, "splines of four constant points", SEG + '''
ps = [Vector3(0.0, 0.0, 0.0), Vector3(1.0, 0.5, 0.0), Vector3(2.0, 0.0, 1.0), Vector3(4.0, -1.0, 0.5)]
w = Spline(ps)
def near(a, b, tol):
    return abs(a[0] - b[0]) < tol and abs(a[1] - b[1]) < tol and abs(a[2] - b[2]) < tol
check("start", near(xyz(w(0.0)), xyz(ps[0]), 1e-9))
check("end", near(xyz(w(1.0)), xyz(ps[3]), 1e-9))
# natural cubic spline: weight points solve the tridiagonal system exactly
def weights(k):
    r1 = 6.0 * ps[1].vec[k] - ps[0].vec[k]
    r2 = 6.0 * ps[2].vec[k] - ps[3].vec[k]
    return ((4.0 * r1 - r2) / 15.0, (4.0 * r2 - r1) / 15.0)
W = [weights(k) for k in range(3)]
dd = [xyz(ps[0]), tuple(q[0] for q in W), tuple(q[1] for q in W), xyz(ps[3])]
beziers = [[xyz(ps[i]), tuple((2 * dd[i][k] + dd[i + 1][k]) / 3 for k in range(3)), tuple((dd[i][k] + 2 * dd[i + 1][k]) / 3 for k in range(3)), xyz(ps[i + 1])] for i in range(3)]
L = [Bezier([Vector3(p[0], p[1], p[2]) for p in q]).length() for q in beziers]
total = sum(L)
for i in range(3):
    for uu in (0.25, 0.5, 0.75):
        check("smooth between", near(xyz(w((sum(L[:i]) + uu * L[i]) / total)), bern(beziers[i], uu), 1e-6))
c = Spline(ps, closed=True)
check("closed spline returns", near(xyz(c(1.0)), xyz(ps[0]), 1e-9) and near(xyz(c(0.0)), xyz(ps[0]), 1e-9))
check("points handed in not extended", len(ps) == 4)
e = Spline(ps + [Vector3(ps[0])])
for uu in (0.1, 0.3, 0.55, 0.7, 0.8, 0.95):
    check("closed spline goes through all its points and back", near(xyz(c(uu)), xyz(e(uu)), 1e-6))
''')
    S(d, "sub-ranged and reversed", SEG + '''
a, b = real("a", 0, 1), real("b", 0, 1)
w = SubRangedPath(Curve("C"), a, b)
same("start", xyz(w(0.0)), xyz(Curve("C")(a)))
same("end", xyz(w(1.0)), xyz(Curve("C")(b)))
same("between", xyz(w(t)), xyz(Curve("C")(a + t * (b - a))))
w = SubRangedPath(underlying_path=Curve("C"), t0=0.2, t1=1.0)
same("constant range", xyz(w(t)), xyz(Curve("C")(0.2 + 0.8 * t)))
w = ReversedPath(Curve("C"))
same("reversed", xyz(w(t)), xyz(Curve("C")(1 - t)))
same("reversed start", xyz(w(0.0)), xyz(Curve("C")(1.0)))
same("reversed end", xyz(w(1.0)), xyz(Curve("C")(0.0)))
same("reversed twice", xyz(ReversedPath(ReversedPath(Curve("C")))(t)), xyz(Curve("C")(t)))
same("reversed part", xyz(ReversedPath(SubRangedPath(Curve("C"), a, b))(t)), xyz(Curve("C")(b + t * (a - b))))
same("reversed length", ReversedPath(Line(vec("p"), vec("q"))).length(), dist(xyz(vec("p")), xyz(vec("q"))))
raises("not a path", lambda: SubRangedPath(lambda t: t, 0.0, 1.0))
''')
    S(d, "length of a part", SEG + '''
w = SubRangedPath(Line(vec("p"), vec("q")), 0.25, 0.75)
same("half of a line", w.length(), 0.5 * dist(xyz(vec("p")), xyz(vec("q"))))
''')
    S(d, "arc", SEG + '''
e1, e2 = real("e1", -3, 3), real("e2", -3, 3)
R, phi = real("R", 0.5, 3), real("phi", 0.2, 2.9)
o = xyz(vec("o"))
def place(p):
    q = plus(o, rot(rot(p, e1, "x"), e2, "z"))
    return Vector3(q[0], q[1], q[2])
w = Arc(place((R, 0.0, 0.0)), place((R * math.cos(phi), R * math.sin(phi), 0.0)), place((0.0, 0.0, 0.0)))
def on(q):
    return xyz(place((R * math.cos(q), R * math.sin(q), 0.0)))
same("start", xyz(w(0.0)), on(0.0))
same("end", xyz(w(1.0)), on(phi))
same("between", xyz(w(t)), on(t * phi))
same("length", w.length(), R * phi)
bad = Arc(Vector3(1.0, 0.0, 0.0), Vector3(0.0, 2.0, 0.0), Vector3(0.0, 0.0, 0.0))
raises("unequal radii", lambda: bad(0.5))
flat_ = Arc(Vector3(1.0, 0.0, 0.0), Vector3(-1.0, 0.0, 0.0), Vector3(0.0, 0.0, 0.0))
raises("half turn has no plane", lambda: flat_(0.5))
''')
    S(d, "arc-length parameterised", SEG + '''
for n in (1, 2, 4):
    w = ArcLengthParameterizedPath(Curve("C"), n)
    same("start", xyz(w(0.0)), xyz(Curve("C")(0.0)))
    same("end", xyz(w(1.0)), xyz(Curve("C")(1.0)))
w = ArcLengthParameterizedPath(Line(vec("p"), vec("q")), 3)
same("a line is unchanged", xyz(w(t)), lerp(xyz(vec("p")), xyz(vec("q")), t))
same("length is the path's", w.length(), dist(xyz(vec("p")), xyz(vec("q"))))
w = ArcLengthParameterizedPath(Bezier([Vector3(0.0, 0.0, 0.0), Vector3(0.0, 0.0, 0.0), Vector3(1.0, 0.0, 0.0)]), 4)
xs = [(0.25 * i) ** 2 for i in range(5)]
for i in range(4):
    q = xs[i] + u * (xs[i + 1] - xs[i])
    same("equal distance, not equal parameter", w(q).x, (0.25 * (i + u)) ** 2)
raises("not a path", lambda: ArcLengthParameterizedPath(lambda t: t))
raises("no samples", lambda: ArcLengthParameterizedPath(Curve("C"), 0))
for w, first, last in ((ArcLengthParameterizedPath(Line(Vector3(0.0, 1.0, 2.0), Vector3(4.0, 1.0, -1.0))), (0.0, 1.0, 2.0), (4.0, 1.0, -1.0)),
                       (ArcLengthParameterizedPath(Bezier([Vector3(0.0, 0.0, 0.0), Vector3(1.0, 3.0, 0.0), Vector3(2.0, 0.0, 1.0)]), n=600), (0.0, 0.0, 0.0), (2.0, 0.0, 1.0))):
    for place, want in ((w(0.0), first), (w(1.0), last)):
        check("ends with many samples", dist(xyz(place), want) < 1e-9)
''')
