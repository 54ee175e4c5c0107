from .common import S, METHOD

RULE = "patch-term equality: sides, corners and interior equal the transfinite blend; open corners raise"
EXPLANATION = METHOD + "Contexts: four uninterpreted edges meeting at symbolic corners, patches from symbolic corners, symbolic offsets, a gap in each coordinate of each of the four corners, edits of the edges after construction."

EDGE = '''
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.geometry.path import Line
class Edge(Path):
    """Any path from a to b."""
    def __init__(self, tag, a, b):
        self.tag = tag
        self.a = a
        self.b = b
    def __repr__(self):
        return "Edge"
    def __call__(self, t):
        q = t * (1 - t)
        return Vector3(self.a.x * (1 - t) + self.b.x * t + q * F(self.tag + ".x", t),
                       self.a.y * (1 - t) + self.b.y * t + q * F(self.tag + ".y", t),
                       self.a.z * (1 - t) + self.b.z * t + q * F(self.tag + ".z", t))
def corners():
    return vec("a"), vec("b"), vec("c"), vec("d")
def edges():
    p00, p10, p01, p11 = corners()
    return dict(south=Edge("S", p00, p10), north=Edge("N", p01, p11), west=Edge("W", p00, p01), east=Edge("E", p10, p11))
def blend(e, r, s):
    p00, p10, p01, p11 = [xyz(q) for q in corners()]
    so, no, we, ea = xyz(e["south"](r)), xyz(e["north"](r)), xyz(e["west"](s)), xyz(e["east"](s))
    bil = bilinear(p00, p10, p01, p11, r, s)
    return tuple((1 - s) * so[i] + s * no[i] + (1 - r) * we[i] + r * ea[i] - bil[i] for i in range(3))
def bilinear(p00, p10, p01, p11, r, s):
    return tuple((1 - r) * (1 - s) * p00[i] + r * (1 - s) * p10[i] + (1 - r) * s * p01[i] + r * s * p11[i] for i in range(3))
'''


def run(d):
    S(d, "sides and interior", EDGE + '''
o = vec("o")
for off in (None, vec("o")):
    e = edges()
    w = CoonsPatch(**e) if off is None else CoonsPatch(offset=off, **e)
    O = (0.0, 0.0, 0.0) if off is None else xyz(off)
    same("south side", xyz(w(r, 0.0)), plus(xyz(e["south"](r)), O))
    same("north side", xyz(w(r, 1.0)), plus(xyz(e["north"](r)), O))
    same("west side", xyz(w(0.0, s)), plus(xyz(e["west"](s)), O))
    same("east side", xyz(w(1.0, s)), plus(xyz(e["east"](s)), O))
    same("inside", xyz(w(r, s)), plus(blend(e, r, s), O))
    same("inside again", xyz(w(r, s)), plus(blend(e, r, s), O))
e = edges()
w = CoonsPatch(e["north"], e["east"], e["south"], e["west"])
same("edges by position", xyz(w(r, s)), blend(e, r, s))
''')
    S(d, "straight and curved sides", EDGE + '''
from hypervehicle.geometry.path import Bezier, Polyline
from hypervehicle.geometry.geometry import SubRangedPath, ReversedPath
ends = {"south": (0, 1), "north": (2, 3), "west": (0, 2), "east": (1, 3)}
for lines in (("south",), ("north", "south"), ("east", "west"), ("south", "west"), ("north", "east", "west"), ("south", "north", "east"), ("south", "north", "east", "west")):
    for kind in ("line", "part", "reversed", "curve"):
        e = edges()
        P = corners()
        for k in lines:
            a, b = P[ends[k][0]], P[ends[k][1]]
            e[k] = {"line": Line(a, b), "part": SubRangedPath(Line(b, a), 1.0, 0.0), "reversed": ReversedPath(Line(b, a)), "curve": Bezier([a, vec("m" + k), b])}[kind]
        w = CoonsPatch(**e)
        same("inside with " + kind + " " + " ".join(lines), xyz(w(r, s)), blend(e, r, s))
''')
    S(d, "from corners", EDGE + '''
p00, p10, p01, p11 = corners()
w = CoonsPatch(p00=p00, p10=p10, p11=p11, p01=p01)
same("bilinear", xyz(w(r, s)), bilinear(xyz(p00), xyz(p10), xyz(p01), xyz(p11), r, s))
w = CoonsPatch(p00=p00, p10=p10, p11=p11, p01=p01, offset=vec("o"))
same("bilinear with offset", xyz(w(r, s)), plus(xyz(vec("o")), bilinear(xyz(p00), xyz(p10), xyz(p01), xyz(p11), r, s)))
raises("three corners", lambda: CoonsPatch(p00=p00, p10=p10, p11=p11))
raises("no edges", lambda: CoonsPatch())
e = edges()
raises("three edges", lambda: CoonsPatch(north=e["north"], east=e["east"], south=e["south"]))
''')
    S(d, "open corners", EDGE + '''
def at_(i):
    return [Vector3(0.3, -0.7, 0.4), Vector3(1.2, 0.5, -0.6), Vector3(-0.9, 1.1, 0.8), Vector3(0.8, 1.4, 1.9)][i]
gap = real("gap", 0.1, 1.5)
def build(side, end, k):
    p = [at_(i) for i in range(4)]
    ends = dict(south=[p[0], p[1]], north=[p[2], p[3]], west=[p[0], p[2]], east=[p[1], p[3]])
    if side is not None:
        q = [ends[side][end].x, ends[side][end].y, ends[side][end].z]
        q[k] = q[k] + gap
        ends[side][end] = Vector3(q[0], q[1], q[2])
    return CoonsPatch(**{n: Line(v[0], v[1]) for n, v in ends.items()})
same("closed corners accepted", xyz(build(None, 0, 0)(0.0, 0.0)), xyz(at_(0)))
for side in ("south", "north", "west", "east"):
    for end in (0, 1):
        for k in (0, 1, 2):
            raises("open corner", lambda: build(side, end, k))
''')
    S(d, "displaced copies and later edits", EDGE + '''
e = edges()
w = CoonsPatch(**e)
o = vec("o")
m = w + o
n = w - o
same("added", xyz(m(r, s)), plus(blend(e, r, s), xyz(vec("o"))))
same("subtracted", xyz(n(r, s)), minus(blend(e, r, s), xyz(vec("o"))))
same("added twice", xyz((m + o)(r, s)), plus(blend(e, r, s), scale(xyz(vec("o")), 2.0)))
same("original unchanged", xyz(w(r, s)), blend(e, r, s))
same("a patch built afterwards starts at zero offset", xyz(CoonsPatch(**edges())(r, s)), blend(e, r, s))
same("offset vector unchanged", xyz(o), xyz(vec("o")))
raises("adding a non-vector", lambda: w + 1.0)
raises("subtracting a non-vector", lambda: w - 1.0)
for k in (Vector3(0.0, 0.0, 0.0), Vector3(0.0, 0.0, 1.0), Vector3(1.0, 0.0, 0.0)):
    a, b = w + k, w - k
    check("displaced by a given vector is another patch", a is not w and b is not w)
    same("displaced by a given vector", (xyz(a(r, s)), xyz(b(r, s))), (plus(blend(e, r, s), xyz(k)), minus(blend(e, r, s), xyz(k))))
    same("displaced further", xyz((a + vec("k"))(r, s)), plus(plus(blend(e, r, s), xyz(k)), xyz(vec("k"))))
    same("copies unchanged", (xyz(w(r, s)), xyz(b(r, s))), (blend(e, r, s), minus(blend(e, r, s), xyz(k))))
v = CoonsPatch(offset=vec("o"), **edges())
q = v + vec("k")
same("displaced patch with offset", xyz(q(r, s)), plus(plus(blend(e, r, s), xyz(vec("o"))), xyz(vec("k"))))
same("its original", xyz(v(r, s)), plus(blend(e, r, s), xyz(vec("o"))))
before = edges()
w = CoonsPatch(**before)
for k in before:
    before[k].tag = "changed"
    before[k].a = vec("moved")
    before[k].b *= 2.0
same("edges edited afterwards", xyz(w(r, s)), blend(edges(), r, s))
p00, p10, p01, p11 = corners()
w = CoonsPatch(p00=p00, p10=p10, p11=p11, p01=p01)
for p in (p00, p10, p01, p11):
    p *= 3.0
c = [xyz(q) for q in corners()]
same("corners edited afterwards", xyz(w(r, s)), bilinear(c[0], c[1], c[2], c[3], r, s))
''')
