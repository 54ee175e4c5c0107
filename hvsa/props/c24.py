from .common import S, METHOD
from .c05 import FLOW

RULE = "union of children: the patch points of a composite, in order, equal the concatenation of the children's own pipelines"
EXPLANATION = METHOD + "Contexts: composites of 0-4 uninterpreted children with every option present or absent, children sharing patch names and names that differ by numeric suffixes, composites in a vehicle with their own options, children that are ghosts of a vehicle, repeated generation, and real library children."

BODY = FLOW + '''
from hypervehicle.components import CompositeComponent, Cube, Sphere, SweptComponent, RevolvedComponent
CV = [("x", f1, d1)]
MV = [("rotate", a1, "z"), ("translate", m2)]
class Keyed(Fresh):
    """Any component; patch i is called keys[i]."""
    def __init__(self, tags, keys, **kw):
        super().__init__(tags, **kw)
        self.keys = keys
    def generate_patches(self):
        self.patches = {k: Surf(t) for k, t in zip(self.keys, self.tags)}
'''


def run(d):
    S(d, "children", BODY + '''
for n in (0, 1, 2, 3, 4):
    k = CompositeComponent(verbosity=0)
    want = []
    for i in range(n):
        c = Fresh(["A%d" % i, "B%d" % i], verbosity=0)
        tags = ["A%d" % i, "B%d" % i]
        if i == 0:
            k.add_component(c)
            want += expected(tags)
        elif i == 1:
            k.add_component(c, reflection_axis="y", curvatures=CV, transformations=MV)
            want += expected(tags, 0, None, CV, "y", True, MV)
        elif i == 2:
            k.add_component(c, reflection_axis="x", append_reflection=False)
            want += expected(tags, axis="x", append=False)
        else:
            k.add_component(c, transformations=MV)
            want += expected(tags, moves=MV)
    for again in range(3):
        k.generate_patches()
        same("patches of all children in order", points(k), want)
''')
    S(d, "one option at a time", BODY + '''
for label, kw, ex in [("nothing", {}, {}), ("curvature", {"curvatures": [("y", f2, d2), ("x", f1, d1)]}, {"curvatures": [("y", f2, d2), ("x", f1, d1)]}),
                      ("reflection", {"reflection_axis": "z"}, {"axis": "z"}),
                      ("replacing reflection", {"reflection_axis": "y", "append_reflection": False}, {"axis": "y", "append": False}),
                      ("transformations", {"transformations": MV}, {"moves": MV})]:
    k = CompositeComponent(verbosity=0)
    k.add_component(Fresh(["P"], verbosity=0), **kw)
    k.add_component(Fresh(["Q"], verbosity=0))
    k.generate_patches()
    same("child with " + label, points(k), expected(["P"], **ex) + expected(["Q"]))
    k.generate_patches()
    same("generated again, child with " + label, points(k), expected(["P"], **ex) + expected(["Q"]))
''')
    S(d, "children used elsewhere", BODY + '''
v = vehicle()
one, two = Fresh(["P"], verbosity=0), Fresh(["Q"], verbosity=0)
v.add_component(one, name="one", ghost=True)
v.add_component(two, name="two", ghost=boolean("g"), transformations=MV)
k = CompositeComponent(verbosity=0)
k.add_component(one)
k.add_component(two)
k.add_component(Fresh(["R"], verbosity=0))
k.generate_patches()
same("every child", points(k), expected(["P"]) + expected(["Q"], moves=MV) + expected(["R"]))
''')
    S(d, "names never collide", BODY + '''
for keys in ([["p"], ["p"], ["p"]], [["p", "p_0", "p_1"], ["p", "p_1", "p_0"]], [["p_1", "p"], ["p_0"], ["p_0_1", "p_1_0", "p"]], [["1"], ["1_1"], ["1_1_1", "1"]]):
    k = CompositeComponent(verbosity=0)
    want = []
    for i, ks in enumerate(keys):
        tags = ["T%d_%d" % (i, j) for j in range(len(ks))]
        k.add_component(Keyed(tags, ks, verbosity=0))
        want += expected(tags)
    k.generate_patches()
    same("every patch kept", points(k), want)
for names in (["n", "n", "n"], [None, "0", "1"], ["1", None, "0"], ["a", "a_1", None], ["", "x", ""], ["p", "p_mirrored", "mirrored"]):
    k = CompositeComponent(verbosity=0)
    want = []
    for i, n in enumerate(names):
        tags = ["A%d" % i, "B%d" % i]
        k.add_component(Keyed(tags, ["p", "q"], verbosity=0, name=n), reflection_axis="y" if i == 1 else None)
        want += expected(tags, axis="y" if i == 1 else None)
    k.generate_patches()
    same("every patch of named children kept", points(k), want)
c = Keyed(["A", "B"], ["p", "q"], verbosity=0)
k = CompositeComponent(verbosity=0)
k.add_component(c)
k.add_component(deepcopy(c))
k.generate_patches()
same("a child and its copy", points(k), expected(["A", "B"]) + expected(["A", "B"]))
k = CompositeComponent(verbosity=0)
c = Keyed(["A", "B"], ["p", "p_mirrored_0"], verbosity=0)
e = Keyed(["C"], ["p"], verbosity=0)
k.add_component(c)
k.add_component(e, reflection_axis="y")
k.generate_patches()
same("mirrored names", points(k), expected(["A", "B"]) + expected(["C"], axis="y"))
k = CompositeComponent(verbosity=0)
for i in range(12):
    k.add_component(Keyed(["U%d" % i, "V%d" % i, "W%d" % i], ["p", "p_1", "p1"], verbosity=0))
k.generate_patches()
same("twelve children", points(k), expected([x + str(i) for i in range(12) for x in ("U", "V", "W")]))
''')
    S(d, "composite in a vehicle", BODY + '''
k = CompositeComponent(verbosity=0)
k.add_component(Fresh(["P"], verbosity=0), transformations=MV)
k.add_component(Fresh(["Q"], verbosity=0), reflection_axis="y")
inner = expected(["P"], moves=MV) + expected(["Q"], axis="y")
v = vehicle(a0)
v.add_component(k, curvatures=[("y", f2, d2)], reflection_axis="x", transformations=[("translate", m1)], modifier_function=m2)
v.generate()
mid = [rot(bend(shift(p, m2), "y", f2, d2), a0 * DEG, "y") for p in inner]
want = [shift(p, m1) for p in mid + [mir(p, "x") for p in mid]]
same("options of the composite act on all children", points(k), want)
v.generate()
same("vehicle generated again", points(k), want)
''')
    S(d, "library children", BODY + '''
b = real("b", 0.5, 2)
def kids():
    return [Cube(b, verbosity=0), Sphere(b, verbosity=0), Cube(2 * b, verbosity=0)]
k = CompositeComponent(verbosity=0)
alone = kids()
for c, q in zip(kids(), alone):
    k.add_component(c, transformations=[("rotate", a1, "z")])
want = []
for q in alone:
    q.generate_patches()
    want += [rot(p, a1 * DEG, "z") for p in points(q)]
k.generate_patches()
same("as processed on their own", points(k), want)
k.generate_patches()
same("generated again", points(k), want)
''')
