from .common import S, METHOD
from .c15 import WING, FINS
from .c19 import STUDY
from .c21 import TRI
from .c22 import HANGAR

RULE = "effect freedom: nothing reachable from the caller's arguments, module constants or default arguments is written, repeated evaluation gives the same term, and copies share no effect"
EXPLANATION = METHOD + "Effects: the heap reachable from every argument (points, lists, dictionaries, functions with what they capture), from every module constant, class attribute and default argument is compared field by field with its state before the calls. Contexts: every path and surface class over points and functions the caller keeps, every component, vehicles with all stages, meshing serial and parallel, analysis, saving, and deep copies before and after generation."

KEEP = '''
from hypervehicle.geometry import *
from hypervehicle.geometry.geometry import *
from hypervehicle.geometry.path import *
from hypervehicle.components import *
from hypervehicle.components.common import *
from hypervehicle.transformations import CART3D
import hypervehicle.utilities
class Kept(Path):
    """Any path from a to b that hands out points it keeps."""
    def __init__(self, tag, a, b):
        self.tag = tag
        self.a = a
        self.b = b
        self.out = []
    def __repr__(self):
        return "Kept"
    def __call__(self, t):
        q = t * (1 - t)
        p = Vector3(self.a.x * (1 - t) + self.b.x * t + q * F(self.tag + ".x", t), self.a.y * (1 - t) + self.b.y * t + q * F(self.tag + ".y", t), self.a.z * (1 - t) + self.b.z * t + q * F(self.tag + ".z", t))
        self.out.append((p, xyz(p)))
        return p
class Held(ParametricSurface):
    """Any surface that hands out points it keeps."""
    def __init__(self, tag):
        self.tag = tag
        self.out = []
    def __repr__(self):
        return "Held"
    def __call__(self, r, s):
        p = Vector3(F(self.tag + ".x", r, s), F(self.tag + ".y", r, s), F(self.tag + ".z", r, s))
        self.out.append((p, xyz(p)))
        return p
def handed(label, *sources):
    for s in sources:
        same(label + ": points handed out", [xyz(o) for o, v in s.out], [v for o, v in s.out])
a, b, c, d, o = vec("a"), vec("b"), vec("c"), vec("d"), vec("o")
u = real("u", 0, 1)
def shift(x, y, z=0):
    """A function that always returns the same point."""
    return o
constants = snapshot(world())
def pure(label, make, *inputs):
    """Making and evaluating a path leaves everything alone and gives the same points again."""
    before = snapshot(*inputs)
    p = make()
    one = xyz(p(t))
    two = xyz(p(u))
    same(label + ": evaluated again", [xyz(p(t)), xyz(p(u))], [one, two])
    same(label + ": made again", xyz(make()(t)), one)
    n = p.length()
    same(label + ": evaluated after its length", [xyz(p(t)), p.length()], [one, n])
    repr(p)
    str(p)
    unchanged(label + ": the caller's arguments", before)
    unchanged(label + ": constants and defaults", constants)
def smooth(label, make, *inputs):
    before = snapshot(*inputs)
    p = make()
    one = xyz(p(r, s))
    two = xyz(p(t, u))
    same(label + ": evaluated again", [xyz(p(r, s)), xyz(p(t, u))], [one, two])
    same(label + ": made again", xyz(make()(r, s)), one)
    repr(p)
    str(p)
    unchanged(label + ": the caller's arguments", before)
    unchanged(label + ": constants and defaults", constants)
'''

SOLID = KEEP + '''
def points(c):
    return [xyz(p(r, s)) for p in c.patches.values()]
def solid(label, make, *inputs):
    """Generating a component any number of times leaves everything alone."""
    before = snapshot(*inputs)
    c = make()
    c.generate_patches()
    one = points(c)
    same(label + ": evaluated again", points(c), one)
    c.generate_patches()
    same(label + ": generated again", points(c), one)
    x = make()
    x.generate_patches()
    same(label + ": made again", points(x), one)
    same(label + ": not affected by the second", points(c), one)
    repr(c)
    str(c)
    unchanged(label + ": the caller's arguments", before)
    unchanged(label + ": constants and defaults", constants)
'''


def run(d):
    S(d, "vectors", KEEP + '''
k = real("k", 0.5, 2)
from hypervehicle.geometry.vector import approximately_equal_vectors, cross_product
for label, f in (("sum", lambda: a + b), ("difference", lambda: a - b), ("negation", lambda: -a), ("product", lambda: a * k), ("left product", lambda: k * a),
                 ("quotient", lambda: a / k), ("magnitude", lambda: abs(a)), ("equality", lambda: a == b), ("norm", lambda: a.norm), ("unit", lambda: a.unit),
                 ("array", lambda: a.vec), ("text", lambda: (str(a), repr(a))), ("cross", lambda: cross_product(a, b)), ("dot", lambda: a.dot(b)),
                 ("nearly equal", lambda: approximately_equal_vectors(a, b)), ("copy", lambda: Vector3(a))):
    before = snapshot(a, b)
    f()
    f()
    unchanged(label + " leaves its operands alone", before)
p = a + b
p *= k
p /= k
q = Vector3(a)
q *= k
same("in-place arithmetic on a copy", [xyz(a), xyz(b)], [xyz(vec("a")), xyz(vec("b"))])
l = [1.0, real("w"), 2.0]
before = snapshot(l)
Vector3.from_coordinates(l)
unchanged("coordinates", before)
unchanged("constants and defaults", constants)
''')
    S(d, "lines and curves", KEEP + '''
pure("line", lambda: Line(a, b), a, b)
ln = Line(a, b)
before = snapshot(ln, o)
same("moved line", xyz((ln + o)(t)), plus(xyz(ln(t)), xyz(o)))
unchanged("moving a line", before)
for n in (1, 2, 3, 4, 5):
    pts = [a, b, c, d, o][:n]
    pure("Bezier of %d points" % n, lambda: Bezier(pts), pts)
    p = Bezier(pts)
    first = xyz(p(t))
    q = p(t)
    q *= 0.0
    same("Bezier of %d points after changing a result" % n, xyz(p(t)), first)
''')
    S(d, "polylines", KEEP + '''
for n in (1, 2, 3):
    segs = [Line(a, b), Line(b, c), Line(c, d)][:n]
    pure("polyline of %d" % n, lambda: Polyline(segs), segs)
segs = [Kept("K", a, b), Line(b, c)]
before = snapshot(a, b, c)
p = Polyline(segs)
one = xyz(p(t))
same("evaluated again", xyz(p(t)), one)
handed("polyline", segs[0])
unchanged("points", before)
check("segments", len(segs) == 2)
segs = [Line(Vector3(0.0, 0.0, 0.0), Vector3(1.0, 0.0, 2.0)), Line(Vector3(1.0, 0.0, 2.0), Vector3(1.0, 4.0, 0.0))]
before = snapshot(segs)
p = Polyline(segs, closed=True)
one = xyz(p(t))
same("closed evaluated again", xyz(p(t)), one)
same("closed again", xyz(Polyline(segs, closed=True)(t)), one)
unchanged("segments closed", before)
one = [Bezier([a]), Line(b, c)]
p = Polyline(one)
first = xyz(p(t))
same("polyline that starts at a single point", xyz(p(t)), first)
same("the point", xyz(a), xyz(vec("a")))
''')
    S(d, "splines", KEEP + '''
for n in (3, 4):
    pts = [Vector3(1.0 * i, real("y%d" % i), real("z%d" % i)) for i in range(n)]
    before = snapshot(pts)
    p = Spline(pts)
    one = xyz(p(t))
    same("spline evaluated again", xyz(p(t)), one)
    same("spline made again", xyz(Spline(pts)(t)), one)
    unchanged("points of a spline", before)
unchanged("constants and defaults", constants)
''')
    S(d, "derived paths", KEEP + '''
base, other = Kept("K", a, b), Kept("M", c, d)
def still(label, make):
    before = snapshot(a, b, c, d, o, shift)
    p = make()
    one, two = xyz(p(t)), xyz(p(u))
    same(label + ": evaluated again", [xyz(p(t)), xyz(p(u))], [one, two])
    same(label + ": made again", xyz(make()(t)), one)
    handed(label, base, other)
    unchanged(label + ": the caller's points", before)
    unchanged(label + ": constants and defaults", constants)
    base.out, other.out = [], []
still("part", lambda: SubRangedPath(base, u, t))
still("reversed", lambda: ReversedPath(base))
still("offset by a function", lambda: OffsetPathFunction(base, shift))
still("mean", lambda: GeometricMeanPathFunction(base, other))
''')
    S(d, "ellipses and trailing edges", KEEP + '''
def wide(t):
    return 0.02
for side in ("top", "bot"):
    centre = vec("q")
    pure("ellipse " + side, lambda: ElipsePath(centre, 0.1, 0.05, side), centre)
pure("trailing edge", lambda: TrailingEdgePath(a, b, shift), a, b, shift)
''')
    S(d, "arcs", KEEP + '''
ctr = vec("q")
w, rad = real("w", 0.3, 2.5), real("rad", 0.5, 2)
pa = ctr + Vector3(rad, 0.0, 0.0)
pb = ctr + Vector3(rad * math.cos(w), rad * math.sin(w), 0.0)
pure("arc", lambda: Arc(pa, pb, ctr), pa, pb, ctr)
''')
    S(d, "arc-length parameterised", KEEP + '''
base = Line(a, b)
before = snapshot(a, b, base)
p = ArcLengthParameterizedPath(base, n=4)
one = xyz(p(t))
same("evaluated again", xyz(p(t)), one)
same("made again", xyz(ArcLengthParameterizedPath(base, n=4)(t)), one)
unchanged("underlying path", before)
unchanged("constants and defaults", constants)
''')
    S(d, "patches", KEEP + '''
def edges():
    return dict(south=Kept("S", a, b), north=Kept("N", c, d), west=Kept("W", a, c), east=Kept("E", b, d))
e = edges()
before = snapshot(a, b, c, d, o)
for w in (CoonsPatch(**e), CoonsPatch(offset=o, **e), CoonsPatch(p00=a, p10=b, p01=c, p11=d)):
    one = xyz(w(r, s))
    same("Coons patch evaluated again", xyz(w(r, s)), one)
    same("moved patch", xyz((w + o)(r, s)), plus(one, xyz(o)))
    same("patch moved back", xyz((w - o)(r, s)), minus(one, xyz(o)))
    same("Coons patch after moving", xyz(w(r, s)), one)
handed("Coons patch", *e.values())
unchanged("corners and offset", before)
unchanged("constants and defaults", constants)
''')
    S(d, "derived surfaces", KEEP + '''
base = Held("P")
def f1(x, y):
    return F("f1", x, y)
def d1(x, y):
    return F("d1", x, y)
def still(label, make):
    before = snapshot(o, shift, f1, d1)
    p = make()
    one, two = xyz(p(r, s)), xyz(p(t, u))
    same(label + ": evaluated again", [xyz(p(r, s)), xyz(p(t, u))], [one, two])
    same(label + ": made again", xyz(make()(r, s)), one)
    handed(label, base)
    unchanged(label + ": the caller's arguments", before)
    unchanged(label + ": constants and defaults", constants)
    base.out = []
still("offset", lambda: OffsetPatchFunction(base, shift))
for ax in ("x", "y", "z"):
    still("rotated about " + ax, lambda: RotatedPatch(base, u, axis=ax, point=o))
    still("rotated about the origin, " + ax, lambda: RotatedPatch(base, u, axis=ax))
    still("mirrored in " + ax, lambda: MirroredPatch(base, axis=ax))
for ax in ("x", "y"):
    still("curved along " + ax, lambda: CurvedPatch(base, direction=ax, fun=f1, fun_dash=d1))
p = SurfacePerimeter(base)
one = xyz(p(t))
same("perimeter evaluated again", xyz(p(t)), one)
handed("perimeter", base)
''')
    S(d, "swept and revolved", KEEP + '''
ks = [Kept("A", a, b), Kept("B", c, d), Kept("C", b, c)]
for n in (2, 3):
    before = snapshot(a, b, c, d)
    paths = ks[:n]
    w = SweptPatchfromEdges(paths)
    one = xyz(w(r, s))
    same("sweep evaluated again", xyz(w(r, s)), one)
    same("sweep made again", xyz(SweptPatchfromEdges(paths)(r, s)), one)
    check("paths swept", len(paths) == n and all([paths[i] is ks[i] for i in range(n)]))
    unchanged("points swept", before)
handed("sweep", *ks)
line = Kept("L", a, b)
w = RevolvedPatch(line, u, t)
one = xyz(w(r, s))
same("revolved again", xyz(w(r, s)), one)
handed("revolved", line)
ctr = vec("q")
for face in ("east", "west", "south", "north", "bottom", "top"):
    smooth("cube " + face, lambda: CubePatch(2.0, ctr, face), ctr)
    smooth("sphere " + face, lambda: SpherePatch(2.0, ctr, face), ctr)
smooth("cone", lambda: ConePatch(0.0, 1.0, 0.5, 0.7, 0.1, 0.9))
unchanged("constants and defaults", constants)
''')
    S(d, "sweep of parallel sections", KEEP + '''
def quad(j, pos):
    P = [Vector3(real("q%d%da" % (j, i), -1, 1), real("q%d%db" % (j, i), -1, 1), pos) for i in range(4)]
    return CoonsPatch(p00=P[0], p10=P[1], p11=P[2], p01=P[3])
for n in (2, 3):
    cs = [quad(j, 1.5 * j) for j in range(n)]
    before = snapshot(cs)
    w = SweptPatch(cs, "z")
    one = [xyz(w(0.3, k / 4 + 0.1)) for k in range(4)]
    same("evaluated again", [xyz(w(0.3, k / 4 + 0.1)) for k in range(4)], one)
    w = SweptPatch(cs, "z")
    same("made again", [xyz(w(0.3, k / 4 + 0.1)) for k in range(4)], one)
    unchanged("sections", before)
unchanged("constants and defaults", constants)
''')
    S(d, "simple components", SOLID + '''
solid("cube", lambda: Cube(2.0, verbosity=0))
ctr = vec("q")
solid("cube elsewhere", lambda: Cube(2.0, centre=ctr, verbosity=0), ctr)
solid("sphere", lambda: Sphere(2.0, verbosity=0))
solid("sphere elsewhere", lambda: Sphere(2.0, centre=ctr, verbosity=0), ctr)
ln = Line(a, b)
solid("revolved", lambda: RevolvedComponent(ln, verbosity=0), ln)
''')
    S(d, "swept component", SOLID + '''
def ring(z):
    p = [Vector3(1.0, 1.0, z), Vector3(-1.0, 1.0, z), Vector3(-1.0, -1.0, z), Vector3(1.0, -1.0, z)]
    return [Line(p[0], p[1]), Line(p[1], p[2]), Line(p[2], p[3]), Line(p[3], p[0])]
for n in (2, 3):
    cs = [ring(real("z%d" % i)) for i in range(n)]
    solid("swept through %d" % n, lambda: SweptComponent(cs, verbosity=0), cs)
    solid("open sweep through %d" % n, lambda: SweptComponent(cs, close_ends=False, verbosity=0), cs)
res = {"e0": 2, "e1": 3, "e2": 2, "e3": 3, "sweep": 4}
solid("swept with resolutions", lambda: SweptComponent(cs, stl_resolution=res, verbosity=0), cs, res)
''')
    wing = SOLID + WING
    for label, kw in (("wing", ""), ("closed wing", ", close_wing=True"), ("flat wing", ", LE_type='FLAT'")):
        S(d, label, wing + """
args = dict(t_B1=tB1, t_B2=tB2%s)
solid("wing", lambda: Wing(A0, A1, TT, B0, Line_B0TT=L, top_tf=top, bot_tf=bot, LE_wf=width, flap_length=fl, flap_angle=fa, verbosity=0, **args), A0, A1, TT, B0, L, top, bot, width, args)
""" % kw)
    for label, kw in (("fin", "dict()"), ("sharp fin", "sharp"), ("moved fin", "dict(pivot_angle=pivot, pivot_point=about, offset_func=lambda x, y, z: off)")):
        S(d, label, SOLID + FINS + """
off = vec("f")
kw = %s
solid("fin", lambda: Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=th, fin_angle=cant, top_thickness_function=top, bot_thickness_function=bot, LE_wf=width, verbosity=0, **kw), p0, p1, p2, p3, about, off, top, bot, kw)
""" % kw)
    S(d, "composite", SOLID + '''
mv = [("rotate", real("w", -90, 90), "x"), ("translate", o)]
cl = dict(i_clustering_func=RobertsFunction(True, False, 1.1))
cu = [("x", lambda x, y: F("f", x, y), lambda x, y: F("g", x, y))]
def make():
    m = CompositeComponent(verbosity=0)
    m.add_component(Cube(2.0, verbosity=0), transformations=mv, reflection_axis="y")
    m.add_component(Sphere(1.0, verbosity=0), clustering=cl, curvatures=cu)
    return m
solid("composite", make, mv, cl, cu, o)
''')
    for par in (False, True):
        S(d, "vehicle, %s" % ("parallel" if par else "serial"), SOLID + '''
class Any(Component):
    componenttype = "wing"
    def generate_patches(self):
        self.patches = {"P": Held("P"), "Q": Held("Q")}
def m1(x, y, z):
    return o
mv = [("rotate", real("w", -90, 90), "z"), ("translate", a), ("translate", m1)]
cl = dict(i_clustering_func=RobertsFunction(True, False, 1.1), j_clustering_func=LinearFunction())
cu = [("x", lambda x, y: F("f", x, y), lambda x, y: F("g", x, y))]
af = [("rotate", real("v", -90, 90), "x"), ("translate", b)]
rho = {"one": real("rho", 1, 2)}
before = snapshot(mv, cl, cu, af, rho, a, b, o, m1)
c1 = Any(stl_resolution=1, verbosity=0)
c1._multiprocess = %r
v = Vehicle()
v.configure(verbosity=0)
v.add_component(c1, name="one", reflection_axis="y", curvatures=cu, clustering=cl, transformations=mv, modifier_function=m1)
v.add_vehicle_transformations(CART3D)
v.add_vehicle_transformations(af)
v.add_vehicle_transformations(("rotate", 5, "y"))
unchanged("describing a vehicle", before)
unchanged("describing a vehicle: constants and defaults", constants)
v.generate()
one = points(c1)
v.generate()
same("generated again", points(c1), one)
unchanged("generating", before)
unchanged("generating: constants and defaults", constants)
m = c1.mesh
c1.surface()
same("meshed", points(c1), one)
v.to_stl("pre")
same("saved", points(c1), one)
unchanged("meshing and saving", before)
v.analyse(rho)
same("analysed", points(c1), one)
unchanged("analysing", before)
unchanged("analysing: constants and defaults", constants)
v.transform(af)
v.transform(CART3D)
two = points(c1)
same("evaluated again", points(c1), two)
unchanged("transforming", before)
unchanged("transforming: constants and defaults", constants)
v.analyse_after_generating(rho)
v.generate()
same("generated once more", points(c1), one)
unchanged("analysing while generating", before)
unchanged("everything: constants and defaults", constants)
w = Vehicle()
w.configure(verbosity=0)
same("a second vehicle starts empty", [len(w.components), len(w._named_components), len(w.properties)], [0, 0, 0])
c2 = Any(stl_resolution=1, verbosity=0)
w.add_component(c2)
w.generate()
same("a second vehicle has no settings of the first", points(c2), [xyz(Held("P")(r, s)), xyz(Held("Q")(r, s))])
''' % par)
    S(d, "deep copies", SOLID + '''
class Any(Component):
    componenttype = "wing"
    def generate_patches(self):
        self.patches = {"P": Surf("P"), "Q": Surf("Q")}
f = RobertsFunction(True, False, 1.1)
w = real("w", -90, 90)
c1 = Any(stl_resolution=1, verbosity=0)
c1.generate_patches()
c1.add_clustering_options(i_clustering_func=f)
c1.patch_res_r["P"] = 3
plain = points(c1)
c2 = deepcopy(c1)
same("a copy has the same points", points(c2), plain)
before = snapshot(c1)
c2.rotate(w, "x")
c2.translate(o)
turned = points(c2)
c2.reflect("y")
c2.name = "copy"
c2.stl_resolution = 7
c2.add_clustering_options(i_clustering_func=LinearFunction(), j_clustering_func=LinearFunction())
c2.patch_res_r["P"] = 5
c2.patches["R"] = Surf("R")
unchanged("changing the copy", before)
same("points of the original", points(c1), plain)
same("settings of the original", [c1.stl_resolution, c1.name, c1.patch_res_r["P"], len(c1.patches)], [1, None, 3, 2])
c1.rotate(w, "y")
c1.patches.pop("P")
same("changing the original", points(c2)[:2], turned)
unchanged("constants and defaults", constants)
''')
    S(d, "deep copies in one vehicle", SOLID + '''
class Any(Component):
    componenttype = "wing"
    def generate_patches(self):
        self.patches = {"P": Surf("P")}
w = real("w", -90, 90)
for first in (True, False):
    c1 = Any(stl_resolution=1, verbosity=0)
    c2 = deepcopy(c1)
    v = Vehicle()
    v.configure(verbosity=0)
    mv = [("rotate", w, "z")]
    for c in ((c1, c2) if first else (c2, c1)):
        if c is c1:
            v.add_component(c, name="plain")
        else:
            v.add_component(c, name="moved", reflection_axis="y", append_reflection=False, transformations=mv, modifier_function=lambda x, y, z: o)
    v.generate()
    same("the plain one", points(c1), [xyz(Surf("P")(r, s))])
    p = plus(xyz(Surf("P")(r, s)), xyz(o))
    same("the copy", points(c2), [rot(mir(p, "y"), w * DEG, "z")])
    check("names", c1.name == "plain" and c2.name == "moved")
    c3 = deepcopy(c2)
    v2 = Vehicle()
    v2.configure(verbosity=0)
    v2.add_component(c3, name="third")
    v2.generate()
    same("a copy of the copy keeps its settings", points(c3), points(c2))
    v2.transform([("translate", o)])
    same("moving a copy of the copy", points(c2), [rot(mir(p, "y"), w * DEG, "z")])
''')
    S(d, "deep copies with a mesh", SOLID + '''
class Any(Component):
    componenttype = "wing"
    def generate_patches(self):
        self.patches = {"P": Surf("P")}
c1 = Any(stl_resolution=1, verbosity=0)
c1._multiprocess = False
c1.generate_patches()
m1 = c1.mesh.vectors
kept = [[tuple(k) for k in f] for f in m1]
c2 = deepcopy(c1)
same("mesh of the copy", c2.mesh.vectors, m1)
c2.mesh.vectors[0][1][2] = 5.0
same("changing the mesh of the copy", [[tuple(k) for k in f] for f in c1.mesh.vectors], kept)
c2 = deepcopy(c1)
v = Vehicle()
v.configure(verbosity=0)
v.add_component(c2)
v.generate()
v.transform([("translate", o)])
same("mesh of the original", c1.mesh.vectors, m1)
same("original points", points(c1), [xyz(Surf("P")(r, s))])
''')
    S(d, "deep copies of composites", SOLID + '''
m = CompositeComponent(verbosity=0)
m.add_component(Cube(2.0, verbosity=0))
n = deepcopy(m)
m.generate_patches()
one = points(m)
n.add_component(Sphere(1.0, verbosity=0))
n.components[0].stl_resolution = 9
check("children of the original", len(m.components) == 1 and m.components[0].stl_resolution == 2)
n.generate_patches()
n.translate(o)
same("points of the original", points(m), one)
m.generate_patches()
same("generated again", points(m), one)
''')
    for kind, text in (("cube", "Cube(2.0, centre=vec('q'), verbosity=0)"), ("revolved", "RevolvedComponent(Line(vec('a'), vec('b')), verbosity=0)"),
                       ("wing", "Wing(A0, A1, TT, B0, Line_B0TT=L, top_tf=top, bot_tf=bot, LE_wf=width, flap_length=fl, flap_angle=fa, t_B1=tB1, t_B2=tB2, verbosity=0)")):
        S(d, "deep copy of a %s" % kind, SOLID + (WING if kind == "wing" else "") + '''
c1 = %s
c2 = deepcopy(c1)
c1.generate_patches()
one = points(c1)
c2.generate_patches()
same("same shape", points(c2), one)
c3 = deepcopy(c1)
c3.translate(o)
c3.rotate(10, "x")
same("original points", points(c1), one)
same("other copy", points(c2), one)
''' % text)
    S(d, "sensitivity study", STUDY + """
constants = snapshot(world())
Gen.results = True
Gen.props = ("drag",)
params, over = {"p": p, "q": q}, {"o": o}
before = snapshot(params, over)
st = SensitivityStudy(Gen, verbosity=0)
one = st.dvdp(params, over, h, False)
cells = [[list(df.iloc[j]) for j in range(len(df))] for n in ("p", "q") for df in one[n].values()]
two = st.dvdp(params, over, h, True)
same("studied again", [[list(df.iloc[j]) for j in range(len(df))] for n in ("p", "q") for df in two[n].values()], cells)
unchanged("the caller's dictionaries", before)
st.to_csv("out")
unchanged("the caller's dictionaries after saving", before)
other = SensitivityStudy(Gen, verbosity=0)
check("a second study starts empty", other.parameter_sensitivities is None and other.component_sensitivities is None)
got = other.dvdp({"q": q}, perturbation=h, write_nominal_stl=False)
check("a second study has its own parameters", list(got) == ["q"])
unchanged("constants and defaults", constants)
""")
    S(d, "TRI append", TRI + """
constants = snapshot(world())
names = ["p"]
P = [[real("p%d%d" % (i, j)) for j in range(3)] for i in range(2)]
cols, V = table(names, 2, "v")
once(P, V, tol)
provide_csv("a.csv", cols, V)
provide_csv("all_components_sensitivity.csv", cols, V)
piece = geometry(P)
files = ["a.csv", "all_components_sensitivity.csv"]
before = snapshot(files)
append_sensitivities_to_tri(files, match_tolerance=tol, rounding_tolerance=rnd, verbosity=0)
unchanged("the caller's list", before)
unchanged("constants and defaults", constants)
""")
    for key, (cls, params, xr, yr) in HANGAR.items():
        S(d, key, """
from hypervehicle.hangar import %s as Gen
constants = snapshot(world())
g = Gen()
before = snapshot(g)
one = g.create_instance()
unchanged("parameters", before)
two = g.create_instance()
unchanged("parameters after the second", before)
check("independent vehicles", len(one.components) == len(two.components) and not [c for c in one.components if c in two.components])
unchanged("constants and defaults", constants)
""" % cls)
