from .common import S, METHOD

RULE = "every value outside the supported set of an option reaches a raise before any point is returned"
EXPLANATION = METHOD + "Contexts: symbolic option strings assumed to differ from every supported value (any case), objects of unsupported types, calls made out of order; the call or the first evaluation must raise on every path of the joined state, and no file may be written by a refused export."

OUT = '''
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.geometry.path import Line, Polyline, Arc, ArcLengthParameterizedPath
from hypervehicle.geometry.geometry import *
from hypervehicle.components import Wing, SweptComponent
word = string("word")
def other(*known):
    for k in known:
        assume(word != k)
        assume(word.lower() != k.lower())
        assume(word.upper() != k.upper())
    return word
def prepared(c):
    v = Vehicle()
    v.configure(verbosity=0)
    c(v)
    v.generate()
    return at(v.components[0], r, s)
'''


def run(d):
    S(d, "axes", OUT + '''
a = real("a")
w = other("x", "y", "z")
raises("rotation about an unknown axis", lambda: RotatedPatch(Surf("P"), a, w)(r, s))
raises("mirroring along an unknown axis", lambda: MirroredPatch(Surf("P"), w)(r, s))
for q in ("w", "xy", "", "-x", "0"):
    raises("rotation about " + repr(q), lambda: RotatedPatch(Surf("P"), a, q)(r, s))
    raises("mirroring along " + repr(q), lambda: MirroredPatch(Surf("P"), q)(r, s))
''')
    S(d, "axes of components", OUT + '''
a = real("a")
w = other("x", "y", "z")
def turned(q):
    c = Comp(["P"], verbosity=0)
    c.generate_patches()
    c.rotate(a, q)
    return at(c, r, s)
def mirrored(q, append):
    c = Comp(["P"], verbosity=0)
    c.generate_patches()
    c._append_reflection = append
    c.reflect(q)
    return at(c, r, s)
raises("component rotation", lambda: turned(w))
raises("component reflection", lambda: mirrored(w, True))
raises("component reflection without appending", lambda: mirrored(w, False))
for append in (True, False):
    raises("registered reflection", lambda: prepared(lambda v: v.add_component(Comp(["P"], verbosity=0), reflection_axis=w, append_reflection=append)))
raises("registered rotation", lambda: prepared(lambda v: v.add_component(Comp(["P"], verbosity=0), transformations=[("rotate", a, w)])))
def whole(v):
    v.add_component(Comp(["P"], verbosity=0))
    v.add_vehicle_transformations([("rotate", a, w)])
raises("vehicle rotation", lambda: prepared(whole))
''')
    S(d, "transformations", OUT + '''
w = other("rotate", "translate")
for q in ("spin", "Rotate", "translation", ""):
    raises("unknown registered transformation", lambda: prepared(lambda v: v.add_component(Comp(["P"], verbosity=0), transformations=[(q, 1.0)])))
    def whole(v):
        v.add_component(Comp(["P"], verbosity=0))
        v.add_vehicle_transformations([(q, 1.0)])
    raises("unknown vehicle transformation", lambda: prepared(whole))
v = Vehicle()
v.configure(verbosity=0)
v.add_component(Comp(["P"], verbosity=0))
raises("transforming before generating", lambda: v.transform([("rotate", real("a"), "x")]))
raises("translating before generating", lambda: v.transform([("translate", vec("o"))]))
raises("an empty transformation before generating", lambda: v.transform([]))
v.generate()
v.transform([("rotate", real("a"), "x")])
same("allowed once generated", at(v.components[0], r, s), {"P": rot(xyz(Surf("P")(r, s)), real("a") * DEG, "x")})
''')
    S(d, "curvature", OUT + '''
f = lambda x, y: F("f", x, y)
g = lambda x, y: F("g", x, y)
w = other("x", "y")
raises("unknown direction", lambda: CurvedPatch(Surf("P"), w, f, g)(r, s))
raises("no direction", lambda: CurvedPatch(Surf("P"), None, f, g)(r, s))
raises("default direction", lambda: CurvedPatch(Surf("P"), fun=f, fun_dash=g)(r, s))
for q in ("z", "xy", ""):
    raises("direction " + repr(q), lambda: CurvedPatch(Surf("P"), q, f, g)(r, s))
    raises("registered direction " + repr(q), lambda: prepared(lambda v: v.add_component(Comp(["P"], verbosity=0), curvatures=[(q, f, g)])))
for q in ("x", "y"):
    raises("no curvature function", lambda: CurvedPatch(Surf("P"), q, None, g)(r, s))
    raises("no slope function", lambda: CurvedPatch(Surf("P"), q, f)(r, s))
raises("registered unknown direction", lambda: prepared(lambda v: v.add_component(Comp(["P"], verbosity=0), curvatures=[(w, f, g)])))
''')
    S(d, "sides and faces", OUT + '''
o = vec("o")
a, b = real("la", 0.1, 1.0), real("lb", 0.1, 1.0)
w = other("top", "bot")
raises("ellipse", lambda: ElipsePath(o, a, b, w)(t))
L1, L2 = Line(vec("p"), vec("q")), Line(vec("u"), vec("v"))
raises("trailing edge", lambda: TrailingEdgePatch(vec("A"), vec("B"), L1, a, b, side=w)(r, s))
raises("mean trailing edge", lambda: MeanTrailingEdgePatch(L1, L2, a, b, side=w)(r, s))
raises("leading edge", lambda: MeanLeadingEdgePatchFunction(L1, L2, lambda u: b, 0.0, 1.0, side=w)(r, s))
for q in ("left", "bottom", "", None):
    raises("ellipse " + repr(q), lambda: ElipsePath(o, a, b, q)(t))
    raises("leading edge " + repr(q), lambda: MeanLeadingEdgePatchFunction(L1, L2, lambda u: b, 0.0, 1.0, side=q)(r, s))
    raises("trailing edge " + repr(q), lambda: TrailingEdgePatch(vec("A"), vec("B"), L1, a, b, side=q)(r, s))
    raises("mean trailing edge " + repr(q), lambda: MeanTrailingEdgePatch(L1, L2, a, b, side=q)(r, s))
''')
    S(d, "faces", OUT + '''
w = other("east", "west", "south", "north", "bottom", "top")
raises("cube", lambda: CubePatch(real("a"), vec("o"), w)(r, s))
raises("sphere", lambda: SpherePatch(real("a"), vec("o"), w)(r, s))
for q in ("front", "bot", "", None):
    raises("cube face " + repr(q), lambda: CubePatch(real("a"), vec("o"), q)(r, s))
    raises("sphere face " + repr(q), lambda: SpherePatch(real("a"), vec("o"), q)(r, s))
''')
    S(d, "wings", OUT + '''
A0, A1, TT, B0 = Vector3(0.0, 0.0, 0.0), Vector3(0.5, 0.0, 0.0), Vector3(1.0, 0.0, 0.0), Vector3(0.0, 0.4, 0.0)
up = lambda x, y, z=0: Vector3(0.0, 0.0, -0.05)
lo = lambda x, y, z=0: Vector3(0.0, 0.0, 0.05)
def wing(**kw):
    w = Wing(A0, A1, TT, B0, Line_B0TT=Line(B0, TT), t_B1=0.4, t_B2=0.7, top_tf=up, bot_tf=lo, verbosity=0, **kw)
    w.generate_patches()
    return len(w.patches)
check("supported", wing() > 0)
w = other("Bezier", "bezier")
raises("leading edge line", lambda: wing(Line_B0TT_TYPE=w))
for q in ("spline", "", "Polyline"):
    raises("leading edge line " + repr(q), lambda: wing(Line_B0TT_TYPE=q))
''')
    S(d, "wing tails", OUT + '''
A0, A1, TT, B0 = Vector3(0.0, 0.0, 0.0), Vector3(0.5, 0.0, 0.0), Vector3(1.0, 0.0, 0.0), Vector3(0.0, 0.4, 0.0)
up = lambda x, y, z=0: Vector3(0.0, 0.0, -0.05)
lo = lambda x, y, z=0: Vector3(0.0, 0.0, 0.05)
def wing(**kw):
    w = Wing(A0, A1, TT, B0, Line_B0TT=Line(B0, TT), t_B1=0.4, t_B2=0.7, top_tf=up, bot_tf=lo, verbosity=0, **kw)
    w.generate_patches()
    return len(w.patches)
w = other("FLAP")
raises("tail option", lambda: wing(tail_option=w))
for q in ("rudder", "", "FLAPS"):
    raises("tail option " + repr(q), lambda: wing(tail_option=q))
''')
    S(d, "sweeps", OUT + '''
def ring(z, gap=0.0, n=4):
    c = [Vector3(0.0, 0.0, z), Vector3(1.0, 0.0, z), Vector3(1.0, 1.0, z), Vector3(0.0, 1.0, z), Vector3(-1.0, 0.5, z)][:n]
    e = [Line(c[i], c[(i + 1) % n]) for i in range(n)]
    if gap != 0.0:
        e[2] = Line(c[2], Vector3(c[3].x + gap, c[3].y, c[3].z))
    return e
raises("different numbers of edges", lambda: SweptComponent([ring(0.0), ring(1.0, n=3)], verbosity=0))
raises("different numbers of edges, more", lambda: SweptComponent([ring(0.0), ring(1.0, n=5)], verbosity=0))
raises("an open section", lambda: SweptComponent([ring(0.0), ring(1.0, gap=0.1)], verbosity=0))
raises("an open first section", lambda: SweptComponent([ring(0.0, gap=0.1), ring(1.0)], verbosity=0))
raises("ends of a triangle", lambda: SweptComponent([ring(0.0, n=3), ring(1.0, n=3)], close_ends=True, verbosity=0))
raises("ends of a pentagon", lambda: SweptComponent([ring(0.0, n=5), ring(1.0, n=5)], close_ends=True, verbosity=0))
class Section(ParametricSurface):
    def __init__(self, z):
        self.z = z
    def __repr__(self):
        return "Section"
    def __call__(self, r, s):
        return Vector3(r, s, self.z)
for z in (0.0, 0.5, -2.0):
    raises("no axial extent", lambda: SweptPatch([Section(z), Section(z)]))
    raises("no axial extent of three", lambda: SweptPatch([Section(z), Section(z), Section(z)]))
''')
    S(d, "construction", OUT + '''
for what, q in (("text", "1"), ("nothing", None), ("a list", [1.0, 2.0, 3.0]), ("a tuple", (1.0, 2.0, 3.0)), ("a dictionary", {})):
    raises("vector from " + what, lambda: Vector3(q))
p = vec("p")
for what, q in (("a number", 1.0), ("text", "1"), ("nothing", None)):
    raises("vector plus " + what, lambda: p + q)
    raises("vector minus " + what, lambda: p - q)
    raises("comparing with " + what, lambda: p == q)
L = Line(vec("a"), vec("b"))
for what, q in (("a number", 1.0), ("text", "1"), ("nothing", None)):
    raises("line plus " + what, lambda: L + q)
    raises("line minus " + what, lambda: L - q)
c = CoonsPatch(p00=vec("a"), p10=vec("b"), p11=vec("c"), p01=vec("d"))
for what, q in (("a number", 1.0), ("text", "1"), ("nothing", None)):
    raises("patch plus " + what, lambda: c + q)
    raises("patch minus " + what, lambda: c - q)
for what, q in (("a point", vec("p")), ("a list", [L]), ("nothing", None)):
    raises("sub-range of " + what, lambda: SubRangedPath(q, 0.0, 1.0))
    raises("arc length of " + what, lambda: ArcLengthParameterizedPath(q))
raises("no arc length samples", lambda: ArcLengthParameterizedPath(L, 0))
raises("three edges", lambda: CoonsPatch(north=L, south=L, east=L))
raises("nothing", lambda: CoonsPatch())
''')
    S(d, "out of order", OUT + '''
from hypervehicle.utilities import SensitivityStudy
from hypervehicle.generator import Generator
c = Comp(["P"], verbosity=0)
raises("meshing without patches", lambda: c.surface())
raises("meshing without patches at a resolution", lambda: c.surface(3))
raises("mesh without patches", lambda: c.mesh)
raises("writing without patches", lambda: c.to_stl("out.stl"))
check("nothing written", len(events("write", "path")) == 0)
class Gen(Generator):
    def __init__(self, **kw):
        self.a = 1.0
        super().__init__(**kw)
    def create_instance(self):
        return Vehicle()
raises("exporting before a study", lambda: SensitivityStudy(Gen, verbosity=0).to_csv())
raises("exporting before a study, elsewhere", lambda: SensitivityStudy(Gen, verbosity=0).to_csv(outdir="there"))
check("nothing exported", len(events("write", "path")) == 0)
v = Vehicle()
v.configure(verbosity=0)
v.add_component(Comp(["P"], verbosity=0), name="one")
v.add_component(Comp(["Q"], verbosity=0), name="two")
v.generate()
raises("merging a list of names", lambda: v.to_stl(prefix="p", merge=["one", "two"]))
raises("merging a list of one name", lambda: v.to_stl(prefix="p", merge=["one"]))
raises("merging a list of other names", lambda: v.to_stl(merge=["other", "names", "here"]))
check("no merged file", len(events("merge")) == 0)
''')
    S(d, "component types", OUT + '''
from hypervehicle.components.composite import CompositeComponent
class Odd(Component):
    componenttype = "balloon"
    def generate_patches(self):
        self.patches["P"] = Surf("P")
class Bare(Component):
    componenttype = None
    def generate_patches(self):
        self.patches["P"] = Surf("P")
for k in (Odd, Bare):
    def add():
        v = Vehicle()
        v.configure(verbosity=0)
        v.add_component(k(verbosity=0))
    raises("unknown type in a vehicle", add)
    def nest():
        c = CompositeComponent()
        c.add_component(k(verbosity=0))
    raises("unknown type in a composite", nest)
''')
