from .. import lint
from ..driver import Ob
from ..interp import Broken
from .common import S, METHOD
from .c12 import EDGE
from .c15 import WING
from .c26 import LOUD

RULE = ("every name, local, attribute, import and call argument resolves: a construct is reported only when it fails whenever it is executed, "
        "or when a choice of option parameters alone leaves the local it reads unset")
EXPLANATION = ("Resolution of every module, class and function of the package (hangar included) over the resolved import graph and class hierarchy: "
               "scopes, may-assigned data flow for locals, unset-under-options data flow for option parameters, attributes ever set in a class hierarchy, "
               "and binding of call arguments to the resolved callee; plus " + METHOD + "for printing of every geometry object and component and for whole life cycles of vehicles, composites, studies and exports with every optional argument, setting and verbosity present or absent symbolically.")

WHAT = {"names": "names are defined", "locals": "locals are assigned before use", "options": "no option leaves a local unset",
        "attributes": "attributes exist", "imports": "imports resolve", "calls": "call arguments bind"}
# the package has far more than this; fewer means the scan lost its footing
FLOOR = {"names": 1500, "locals": 500, "options": 300, "attributes": 300, "imports": 30, "calls": 150}


def run(d):
    if not d.only or d.only in WHAT:
        ok, diff = lint.self_test()
        if not ok:
            raise Broken("resolution rules fail their examples: %s" % sorted(diff))
        pk, res = lint.run(d.src)
        total = {}
        for (f, fn, rule), n in res.checked.items():
            total[rule] = total.get(rule, 0) + n
        low = {r: total.get(r, 0) for r, n in FLOOR.items() if total.get(r, 0) < n}
        if low:
            raise Broken("constructs examined fell below the floor: %s" % low)
        bad = {}
        for f, fn, line, rule, name, text in res.problems:
            bad.setdefault((f, fn, rule), {}).setdefault(name, (line, text))
        for (f, fn, rule), n in sorted(res.checked.items()):
            d.functions.setdefault((f, fn), 0)
            d.functions[(f, fn)] += 1
            where = f[f.index("hypervehicle"):] if "hypervehicle" in f else f
            b = bad.pop((f, fn, rule), None)
            if b is None:
                d.obs.append(Ob("%s: %s" % (where, fn), WHAT[rule], rule, "equal", "%d constructs resolved" % n, fns=((f, fn),)))
                continue
            for name, (line, text) in sorted(b.items()):
                label = {"attributes": text, "calls": "%s: %s" % (fn.split(".")[-1], text)}.get(rule, "%s: %s: %s" % (where, fn, name))
                d.obs.append(Ob(label, WHAT[rule], rule, "different", text, (f, fn, line), ((f, fn),)))
        if bad:
            raise Broken("problems in functions never counted: %s" % sorted(bad))
    S(d, "printing geometry", EDGE + '''
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.geometry.path import *
from hypervehicle.geometry.geometry import *
a, b, c, e = real("a"), real("b"), real("c"), real("e")
p, q = vec("p"), vec("q")
f = lambda x, y, z: Vector3(0, 0, F("f", x, y))
w = lambda t: F("w", t)
L, M = Edge("L", p, q), Edge("M", p, q)
P = Surf("P")
made = [
    p, Line(p, q), Bezier([p, q, vec("k")]), Polyline([Line(p, q)]),
    Arc(p, q, vec("k")), LinearFunction(), RobertsFunction(True, False, 1.1),
    SubRangedPath(L, a, b), ReversedPath(L), ElipsePath(p, a, b, "top"), OffsetPathFunction(L, f), GeometricMeanPathFunction(L, M),
    OffsetPatchFunction(P, f), LeadingEdgePatchFunction(L, f, w, 0, 1), MeanLeadingEdgePatchFunction(L, M, w, 0, 1),
    FlatLeadingEdgePatchFunction(L, M, 0, 1), TrailingEdgePath(p, q, f), CurvedPatch(P, "x", w, w), ConePatch(a, b, c, e, 0, 1),
    RevolvedPatch(L), BluntConePatch(a, b, c, e, a, 0, 1), SweptPatchfromEdges([L, M]), RotatedPatch(P, a), MirroredPatch(P),
    CubePatch(a, p, "east"), SpherePatch(a, p, "east"), SurfacePerimeter(P),
    CoonsPatch(p00=p, p10=q, p11=vec("k"), p01=vec("l")),
]
for k in made:
    repr(k)
    str(k)
check("every geometry object prints", len(made) == 28)
''')
    S(d, "printing components", '''
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.components.revolved import RevolvedComponent
from hypervehicle.components.composite import CompositeComponent
named = [Comp(["P"], name="n"), Cube(real("a")), Sphere(real("b")), RevolvedComponent(Curve("L")), CompositeComponent(), Comp([], verbosity=integer("v", 0, 3))]
for k in named:
    repr(k)
    str(k)
v = Vehicle()
repr(v)
str(v)
v.configure(name="x", verbosity=integer("w", 0, 3))
repr(v)
str(v)
check("every component prints", len(named) == 6)
''')
    for how, par, kw in (("plain, serial", False, "{}"), ("plain, parallel", True, "{}"),
                         ("all options", False, "dict(reflection_axis='y', append_reflection=False, curvatures=[('x', lambda x, y: F('c', x, y), lambda x, y: F('cd', x, y))],"
                          " transformations=[('rotate', a1, 'z')], clustering={'i_clustering_func': lambda t: F('ci', t)}, modifier_function=m1, ghost=boolean('ghost'))"),
                         ("reflected", True, "dict(reflection_axis='y', clustering={'j_clustering_func': lambda t: F('cj', t)})")):
        S(d, "vehicle under any settings, %s" % how, LOUD + '''
for pre in (None, "pre", ""):
    v = Vehicle()
    v.configure(verbosity=integer("vv", 0, 4), name="ship" if boolean("titled") else None)
    for i in range(2):
        c = Fresh(["S%%d" %% i], stl_resolution=1, verbosity=integer("cv", 0, 4))
        c._multiprocess = %r
        v.add_component(c, name="c0" if i == 0 else None, **%s)
    D = {"c0": real("rho0", 1, 2), "wing_2": real("rho1", 1, 2)}
    if boolean("moved"):
        v.add_vehicle_transformations([("translate", m1)])
    if boolean("described"):
        v.add_property("q", real("q"))
    if boolean("weighed"):
        v.analyse_after_generating(D)
    v.generate()
    v.transform(("rotate", a1, "x"))
    v.to_stl(pre)
    v.to_stl(pre, merge=boolean("merged"))
    v.analyse(D)
    v.get_non_ghost_components()
    repr(v)
check("a vehicle is generated, moved, written and analysed under any settings", True)
''' % (par, kw))
    S(d, "study under any options", LOUD + '''
class Any(Gen):
    def create_instance(self):
        v = Vehicle()
        v.configure(verbosity=integer("vv", 0, 4))
        p = self.kw["p"]
        class Par(Component):
            componenttype = "wing"
            def generate_patches(self):
                self.patches = {"a": lambda u, w: Vector3(F("gx", u, w, p), F("gy", u, w, p), F("gz", u, w, p))}
        v.add_component(Par(stl_resolution=1), name="part")
        if boolean("described"):
            v.add_property("prop", F("prop", p))
        if self.weighed:
            v.analyse_after_generating({"part": real("rho", 1, 2)})
        return v
for weighed in (False, True):
    Any.weighed = weighed
    for over in (None, {"q": 3}):
        st = SensitivityStudy(Any, verbosity=integer("sv", 0, 4))
        repr(st)
        st.dvdp({"p": real("p", 1, 2)}, over, real("pct", 1, 5), boolean("write"), "nom" if boolean("named") else None)
        st.to_csv("out")
        st.to_csv()
check("a study runs and is exported under any options", True)
''')
    S(d, "append under any options", LOUD + '''
x0 = real("x0", 1, 2)
cols = ["x", "y", "z", "dxdp", "dydp", "dzdp"]
provide_csv("a.csv", cols, [[x0, 1.0, 2.0, real("sx"), real("sy"), real("sz")]])
provide_csv("all_components_sensitivity.csv", cols, [[x0, 1.0, 2.0, real("sx"), real("sy"), real("sz")]])
pts = element("DataArray", {}, "1.0 2.0 3.0\\n4.0 5.0 6.0", [])
provide_xml("c.tri", element("R", {}, None, [element("G", {}, None, [element("P", {}, None, [element("Points", {}, None, [pts])])])]))
sv = integer("sv", 0, 4)
append_sensitivities_to_tri(["a.csv"], "c.tri", verbosity=sv)
append_sensitivities_to_tri(["a.csv"], "c.tri", real("mt", 0, 5), real("rt", 0, 1), outdir="out", verbosity=sv)
append_sensitivities_to_tri(["a.csv", "all_components_sensitivity.csv"], "c.tri", verbosity=sv)
check("sensitivities are appended under any options", True)
''')
    S(d, "loose operations under any options", LOUD + '''
from hypervehicle.utilities import merge_stls
n = integer("n", 0, 4)
merge_stls(["a.stl", "b.stl"], verbosity=n)
merge_stls(["a.stl"], "name", n)
surfce_to_stl(Surf("S"), 2, 1, verbosity=n, mirror_y=boolean("mirror"))
surfce_to_stl(Surf("S"), 1, 2, real("si", 1, 2), real("sj", 1, 2), verbosity=n, i_clustering_func=lambda t: F("ci", t))
k = CompositeComponent(verbosity=n, stl_resolution=1)
k._multiprocess = boolean("parallel")
k.add_component(Fresh(["P"], verbosity=n), reflection_axis="y" if boolean("reflected") else None, transformations=[("rotate", a1, "z")] if boolean("turned") else None)
k.add_component(Cube(1.0, verbosity=n))
k.generate_patches()
k.to_stl("x.stl" if boolean("named") else None)
c = Fresh(["P"], verbosity=n, stl_resolution=1)
c._multiprocess = boolean("parallel")
c.generate_patches()
c.surface(2)
c.to_stl("x.stl")
check("surfaces, components and composites are meshed and written under any options", True)
''')
    S(d, "wing and fin under any verbosity", LOUD + WING + '''
from hypervehicle.components import common
n = integer("n", 0, 4)
for kw in ({"t_B1": tB1, "t_B2": tB2}, {"t_B1": tB1, "t_B2": tB2, "LE_type": "FLAT"}, {"t_B1": tB1, "t_B2": tB2, "close_wing": True}):
    w = Wing(A0, A1, TT, B0, Line_B0TT=L, top_tf=top, bot_tf=bot, flap_length=fl, flap_angle=fa, verbosity=n, **kw)
    w.generate_patches()
for kw in ({}, {"rudder_type": "sharp", "rudder_length": fl, "rudder_angle": fa}):
    g = Fin(p0=Vector3(0.0, 0.0, 0.0), p1=Vector3(0.0, real("h", 1, 2), 0.0), p2=Vector3(1.0, 1.0, 0.0), p3=Vector3(2.0, 0.0, 0.0), fin_thickness=0.1, fin_angle=fa,
            top_thickness_function=common.uniform_thickness_function(0.1, 'top'), bot_thickness_function=common.uniform_thickness_function(0.1, 'bot'), LE_wf=width, offset_func=m1 if boolean("placed") else None, verbosity=n, **kw)
    g.generate_patches()
check("wings and fins are generated under any verbosity", True)
''')
