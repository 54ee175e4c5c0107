from .common import S, METHOD
from .c04 import BEND

RULE = "pipeline-term equality: every patch point after generation equals the composition of all configured stages in order, for every component"
EXPLANATION = METHOD + "Contexts: vehicles of 0-4 uninterpreted components with every stage present or absent, symbolic angle offset, uninterpreted modifiers, profiles and translations (so that no two stages commute), vehicle transformations, analysis on generation, and repeated generation of library and user components."

FLOW = BEND + '''
class Fresh(Component):
    """Any component that builds its patches from scratch."""
    componenttype = "wing"
    def __init__(self, tags, **kw):
        super().__init__(**kw)
        self.tags = tags
    def generate_patches(self):
        self.patches = {t: Surf(t) for t in self.tags}
def m1(x, y, z):
    return Vector3(F("m1x", x, y, z), F("m1y", x, y, z), F("m1z", x, y, z))
def m2(x, y, z):
    return Vector3(F("m2x", x, y, z), F("m2y", x, y, z), F("m2z", x, y, z))
def shift(p, f):
    return plus(p, xyz(f(p[0], p[1], p[2])))
def move(p, op):
    if op[0] == "rotate":
        return rot(p, op[1] * DEG, op[2])
    return shift(p, op[1]) if callable(op[1]) else plus(p, xyz(op[1]))
def expected(tags, offset=0, modifier=None, curvatures=(), axis=None, append=True, moves=(), after=()):
    """Points of the finished component, originals first, then mirror images."""
    out = []
    for k in tags:
        p = xyz(Surf(k)(r, s))
        if modifier:
            p = shift(p, modifier)
        for c in curvatures:
            p = bend(p, c[0], c[1], c[2])
        out.append(rot(p, offset * DEG, "y"))
    if axis:
        back = [mir(p, axis) for p in out]
        out = out + back if append else back
    done = []
    for p in out:
        for op in moves:
            p = move(p, op)
        for op in after:
            p = move(p, op)
        done.append(p)
    return done
def points(c):
    return [xyz(p(r, s)) for p in c.patches.values()]
def vehicle(offset=0):
    v = Vehicle()
    v.configure(verbosity=0)
    v.vehicle_angle_offset = offset
    return v
a0, a1, a2 = real("a0", -90, 90), real("a1", -90, 90), real("a2", -90, 90)
'''


def run(d):
    S(d, "all stages", FLOW + '''
mv = [("rotate", a1, "z"), ("translate", m2)]
af = [("rotate", a2, "x"), ("translate", vec("w"))]
for axis, append in ((None, True), ("y", True), ("x", False)):
    v = vehicle(a0)
    c = Fresh(["P", "Q"], verbosity=0)
    v.add_component(c, reflection_axis=axis, append_reflection=append, curvatures=[("x", f1, d1)], transformations=mv, modifier_function=m1)
    v.add_vehicle_transformations(af)
    v.generate()
    same("all stages in order", points(c), expected(["P", "Q"], a0, m1, [("x", f1, d1)], axis, append, mv, af))
''')
    S(d, "several components", FLOW + '''
for n in (0, 1, 2, 3, 4):
    v = vehicle(a0)
    cs = [Fresh(["A%d" % i], verbosity=0) for i in range(n)]
    for i in range(n):
        if i == 0:
            v.add_component(cs[i], modifier_function=m1)
        elif i == 1:
            v.add_component(cs[i], curvatures=[("y", f1, d1), ("x", f2, d2)], reflection_axis="y")
        elif i == 2:
            v.add_component(cs[i], transformations=[("rotate", a1, "z")], reflection_axis="x", append_reflection=False)
        else:
            v.add_component(cs[i])
    v.add_vehicle_transformations([("translate", m2), ("rotate", a2, "z")])
    v.generate()
    af = [("translate", m2), ("rotate", a2, "z")]
    want = [expected(["A0"], a0, m1, after=af), expected(["A1"], a0, None, [("y", f1, d1), ("x", f2, d2)], "y", after=af),
            expected(["A2"], a0, axis="x", append=False, moves=[("rotate", a1, "z")], after=af), expected(["A3"], a0, after=af)]
    same("%d components" % n, [points(c) for c in cs], want[:n])
''')
    S(d, "one stage at a time", FLOW + '''
for label, kw, ex in [("nothing", {}, {}), ("modifier", {"modifier_function": m1}, {"modifier": m1}),
                      ("curvature", {"curvatures": [("x", f1, d1)]}, {"curvatures": [("x", f1, d1)]}),
                      ("reflection", {"reflection_axis": "z"}, {"axis": "z"}),
                      ("transformations", {"transformations": [("translate", m2), ("rotate", a1, "x")]}, {"moves": [("translate", m2), ("rotate", a1, "x")]})]:
    v = vehicle()
    c = Fresh(["P"], verbosity=0)
    v.add_component(c, **kw)
    v.generate()
    same("only " + label, points(c), expected(["P"], **ex))
    v = vehicle(a0)
    c = Fresh(["P"], verbosity=0)
    v.add_component(c, **kw)
    v.generate()
    same("angle offset and " + label, points(c), expected(["P"], a0, **ex))
v = vehicle()
c = Fresh(["P"], verbosity=0)
v.add_component(c)
v.add_vehicle_transformations(("rotate", a1, "z"))
v.add_vehicle_transformations([("translate", m1)])
v.add_vehicle_transformations([("rotate", a2, "x")])
v.generate()
same("vehicle transformations in the order added", points(c), expected(["P"], after=[("rotate", a1, "z"), ("translate", m1), ("rotate", a2, "x")]))
''')
    S(d, "generated again", FLOW + '''
v = vehicle(a0)
cs = [Fresh(["P", "Q"], verbosity=0), Fresh(["R"], verbosity=0)]
v.add_component(cs[0], reflection_axis="y", curvatures=[("x", f1, d1)], transformations=[("translate", m2)], modifier_function=m1)
v.add_component(cs[1], reflection_axis="x", append_reflection=False)
v.add_vehicle_transformations([("rotate", a1, "z")])
want = [expected(["P", "Q"], a0, m1, [("x", f1, d1)], "y", True, [("translate", m2)], [("rotate", a1, "z")]),
        expected(["R"], a0, axis="x", append=False, after=[("rotate", a1, "z")])]
for label in ("first", "second", "third"):
    v.generate()
    same(label + " generation", [points(c) for c in cs], want)
v.vehicle_angle_offset = a2
v.generate()
same("generation after changing the angle offset", points(cs[1]), expected(["R"], a2, axis="x", append=False, after=[("rotate", a1, "z")]))
''')
    S(d, "meshed, written and analysed between generations", FLOW + '''
for use in ("mesh", "surface", "file", "analysis"):
    v = vehicle(a0)
    cs = [Fresh(["P", "Q"], stl_resolution=1, verbosity=0), Fresh(["R"], stl_resolution=1, verbosity=0)]
    for c in cs:
        c._multiprocess = False
    v.add_component(cs[0], name="one", reflection_axis="y", curvatures=[("x", f1, d1)], transformations=[("translate", m2)], modifier_function=m1)
    v.add_component(cs[1], name="two", reflection_axis="x", append_reflection=False, modifier_function=m2, transformations=[("rotate", a2, "x")], ghost=boolean("g"))
    v.add_vehicle_transformations([("rotate", a1, "z")])
    want = [expected(["P", "Q"], a0, m1, [("x", f1, d1)], "y", True, [("translate", m2)], [("rotate", a1, "z")]),
            expected(["R"], a0, m2, axis="x", append=False, moves=[("rotate", a2, "x")], after=[("rotate", a1, "z")])]
    for label in ("first", "second"):
        v.generate()
        same(label + " generation around " + use, [points(c) for c in cs], want)
        if use == "mesh":
            [c.mesh for c in cs]
        elif use == "surface":
            [c.surface() for c in cs]
        elif use == "file":
            v.to_stl()
        else:
            v.analyse({"one": 1.0, "two": 2.0})
    v.generate()
    same("third generation around " + use, [points(c) for c in cs], want)
''')
    S(d, "components sharing a name", FLOW + '''
for own in (True, False):
    v = vehicle(a0)
    cs = [Fresh(["A%d" % i], verbosity=0, name="x" if own else None) for i in range(3)]
    for c in cs:
        v.add_component(c, name=None if own else "x", modifier_function=m1, reflection_axis="y", transformations=[("rotate", a1, "z")])
    v.add_vehicle_transformations(("translate", m2))
    v.generate()
    same("every component whatever its name", [points(c) for c in cs], [expected(["A%d" % i], a0, m1, axis="y", moves=[("rotate", a1, "z")], after=[("translate", m2)]) for i in range(3)])
''')
    S(d, "vehicle transformations added in any form", FLOW + '''
one, two, three = ("rotate", a1, "z"), ("translate", m1), ("rotate", a2, "x")
for label, calls in [("list then single", ([one, two], three)), ("single then single", (one, two, three)), ("single then list", (one, [two, three])),
                     ("list, single, list", ([one], two, [three])), ("empty list between", ([one], [], [two, three])), ("one list", ([one, two, three],))]:
    v = vehicle()
    c = Fresh(["P"], verbosity=0)
    v.add_component(c)
    for k in calls:
        v.add_vehicle_transformations(k)
    v.generate()
    same(label, points(c), expected(["P"], after=[one, two, three]))
    v.generate()
    same(label + ", again", points(c), expected(["P"], after=[one, two, three]))
v = vehicle()
c = Fresh(["P"], verbosity=0)
v.add_component(c)
v.generate()
v.add_vehicle_transformations(one)
v.add_vehicle_transformations([two])
v.generate()
same("added after a first generation", points(c), expected(["P"], after=[one, two]))
''')
    S(d, "library components generated again", FLOW + '''
from hypervehicle.components.revolved import RevolvedComponent
from hypervehicle.components.swept import SweptComponent
from hypervehicle.components.composite import CompositeComponent
from hypervehicle.components.polygon import Cube, Sphere
def section(k):
    P = [Vector3(float(k), 0.0, 0.0), Vector3(float(k), 1.0, 0.0), Vector3(float(k), 1.0, 2.0), Vector3(float(k), 0.0, 2.0)]
    from hypervehicle.geometry.path import Line
    return [Line(P[i], P[(i + 1) % 4]) for i in range(4)]
comp = CompositeComponent(verbosity=0)
comp.add_component(RevolvedComponent(Curve("M"), verbosity=0), transformations=[("translate", m1)])
comp.add_component(Cube(1.0, verbosity=0), reflection_axis="x")
comp.add_component(Sphere(1.0, verbosity=0))
for label, c in [("revolved", RevolvedComponent(Curve("L"), verbosity=0)), ("swept", SweptComponent([section(0), section(1)], verbosity=0)), ("composite", comp)]:
    for append in (True, False):
        v = vehicle(a0)
        v.add_component(c, reflection_axis="y", append_reflection=append, transformations=[("translate", m2)])
        v.generate()
        first = at(c, r, s)
        n = len(c.patches)
        v.generate()
        check(label + " keeps its number of patches", len(c.patches) == n)
        same(label + " same geometry", at(c, r, s), first)
''')
    S(d, "analysis on generation", FLOW + '''
def build():
    v = vehicle(a0)
    c = Fresh(["P"], stl_resolution=1, verbosity=0)
    e = Fresh(["Q"], stl_resolution=1, verbosity=0)
    c._multiprocess = False
    v.add_component(c, name="one", transformations=[("translate", m1)])
    v.add_component(e, name="two")
    v.add_vehicle_transformations([("translate", m2)])
    return v
D = {"one": real("d1", 0.5, 3), "two": real("d2", 0.5, 3)}
v = build()
v.analyse_after_generating(D)
v.generate()
w = build()
w.generate()
vol, mass, cog, moi = w.analyse(D)
res = v.analysis_results
same("volume", res["volume"], vol)
same("mass", res["mass"], mass)
same("centre of gravity", res["cog"], cog)
same("inertia", res["moi"], moi)
check("no analysis unless asked", w.analysis_results is None)
''')
