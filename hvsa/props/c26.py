from .common import S, METHOD
from .c06 import USE

RULE = "effect analysis: no output effect is reachable when verbosity is zero, and every result term is independent of the verbosity"
EXPLANATION = METHOD + "Every print, banner and progress bar is recorded as an effect with its path condition. Contexts: generation, transformation, meshing, writing, merging, analysis, sensitivity studies, CSV export and TRI appending of silent vehicles, for symbolic component verbosities, and the same operations under a symbolic verbosity compared with the silent run."

LOUD = USE + '''
from hypervehicle.components import CompositeComponent, Wing, Fin, SweptComponent, RevolvedComponent, Cube, Sphere
from hypervehicle.utilities import SensitivityStudy, append_sensitivities_to_tri, surfce_to_stl
def fleet(vv, cv, parallel=False, **kw):
    v = Vehicle()
    v.configure(verbosity=vv)
    cs = []
    for i in range(2):
        c = Fresh(["S%d" % i], stl_resolution=1, verbosity=cv)
        c._multiprocess = parallel
        v.add_component(c, name="c%d" % i, **kw)
        cs.append(c)
    return v, cs
D = {"c0": real("rho0", 1, 2), "c1": real("rho1", 1, 2)}
class Gen:
    """Any parametric generator."""
    quiet = False
    def __init__(self, **kw):
        self.kw = kw
    def create_instance(self):
        v = Vehicle()
        if self.quiet:
            v.configure(verbosity=0)
        p = self.kw["p"]
        class Par(Component):
            componenttype = "wing"
            def generate_patches(self):
                self.patches = {"a": lambda u, w: Vector3(F("gx", u, w, p), F("gy", u, w, p), F("gz", u, w, p))}
        c = Par(stl_resolution=1)
        v.add_component(c, name="part")
        v.add_property("prop", F("prop", p))
        return v
'''


def run(d):
    for par in (False, True):
        S(d, "silent vehicle, %s" % ("parallel" if par else "serial"), LOUD + '''
cv = integer("cv", 0, 5)
v, cs = fleet(0, cv, %r, reflection_axis="y", transformations=[("rotate", a1, "z")], modifier_function=m1)
v.add_vehicle_transformations([("translate", m1)])
v.add_property("q", real("q"))
v.analyse_after_generating(D)
silent("adding components")
v.generate()
silent("generating")
v.transform([("rotate", a1, "x")])
silent("transforming")
v.analyse(D)
silent("analysing")
v.to_stl()
v.to_stl("pre")
silent("writing")
for c in cs:
    c.surface()
    c.to_stl("x.stl")
    c.mesh
silent("meshing components")
''' % par)
    S(d, "merging", LOUD + '''
v, cs = fleet(0, integer("cv", 0, 5))
v.generate()
v.to_stl(merge=True)
v.to_stl("pre", merge=True)
silent("merging")
from hypervehicle.utilities import merge_stls
merge_stls(["a.stl", "b.stl"], verbosity=0)
merge_stls(["a.stl", "b.stl"], "name", 0)
silent("merging files")
''')
    S(d, "silent components", LOUD + '''
c = Fresh(["P", "Q"], stl_resolution=1, verbosity=0)
c._multiprocess = False
c.generate_patches()
c.rotate(a1, "z")
c.surface()
c.mesh
c.to_stl("x.stl")
silent("a component on its own")
v = Vehicle()
v.configure(verbosity=0)
k = CompositeComponent(verbosity=0)
k.add_component(Fresh(["P"], verbosity=integer("cv", 0, 5)), reflection_axis="y")
k.add_component(Cube(1.0, verbosity=0))
k.add_component(Sphere(1.0, verbosity=0))
k.stl_resolution = 1
v.add_component(k)
v.generate()
v.to_stl("x")
silent("a composite")
surfce_to_stl(Surf("S"), 2, 1)
surfce_to_stl(Surf("S"), 2, 1, verbosity=0)
silent("meshing a surface")
''')
    S(d, "silent study", LOUD + '''
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp({"p": real("p", 1, 2)}, nominal_stl_prefix="nom")
silent("study")
st.to_csv("out")
st.to_csv()
silent("export")
Gen.quiet = True
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp({"p": real("p", 1, 2)}, {"q": 3}, 1, False)
silent("study of a silent vehicle")
''')
    S(d, "silent append", LOUD + '''
x0 = real("x0", 1, 2)
provide_csv("a.csv", ["x", "y", "z", "dxdp", "dydp", "dzdp"], [[x0, 1.0, 2.0, real("sx"), real("sy"), real("sz")]])
pts = element("DataArray", {}, "1.0 2.0 3.0\\n4.0 5.0 6.0", [])
provide_xml("c.tri", element("R", {}, None, [element("G", {}, None, [element("P", {}, None, [element("Points", {}, None, [pts])])])]))
append_sensitivities_to_tri(["a.csv"], "c.tri", verbosity=0)
silent("appending")
''')
    S(d, "results do not depend on verbosity", LOUD + '''
vv = integer("vv", 0, 4)
cv = integer("cv", 0, 4)
def outcome(v, cs):
    v.add_vehicle_transformations([("translate", m1)])
    v.add_property("q", 3.0)
    v.analyse_after_generating(D)
    v.generate()
    v.transform([("rotate", a1, "x")])
    pts = [[xyz(p(r, s)) for p in c.patches.values()] for c in cs]
    clear_events()
    v.to_stl("pre", merge=True)
    files = [(e[0], e[1]) for e in events("write", "how", "path")]
    facets = [[[[w[i][j][k] for k in range(3)] for j in range(3)] for i in range(len(w))] for w in [e[0] for e in events("write", "vectors", "how") if e[1] == "stl"]]
    return pts, files, facets, v.volume, v.mass, [v.cog[i] for i in range(3)]
kw = {"reflection_axis": "y", "transformations": [("rotate", a1, "z")], "modifier_function": m1}
a = outcome(*fleet(vv, cv, **kw))
b = outcome(*fleet(0, 0, **kw))
same("patches", a[0], b[0])
same("files", a[1], b[1])
same("file contents", a[2], b[2])
same("analysis", a[3:], b[3:])
''')
    S(d, "study does not depend on verbosity", LOUD + '''
def outcome(vv):
    st = SensitivityStudy(Gen, verbosity=vv)
    st.dvdp({"p": real("p", 1, 2)})
    clear_events()
    st.to_csv("out")
    T = st.parameter_sensitivities["p"]["part"]
    return [list(T[k]) for k in ("x", "y", "z", "dxdp", "dydp", "dzdp")], st.property_sensitivities["p"]["prop"], [e[0] for e in events("write", "path")]
same("study", outcome(integer("vv", 0, 4)), outcome(0))
def tri(vv):
    provide_csv("a.csv", ["x", "y", "z", "dxdp", "dydp", "dzdp"], [[real("x0"), 2.0, 3.0, real("sx"), real("sy"), real("sz")]])
    pts = element("DataArray", {}, "1.0 2.0 3.0\\n4.0 5.0 6.0", [])
    provide_xml("c.tri", element("R", {}, None, [element("G", {}, None, [element("P", {}, None, [element("Points", {}, None, [pts])])])]))
    return append_sensitivities_to_tri(["a.csv"], "c.tri", verbosity=vv)
same("matched fraction", tri(integer("vv", 0, 4)), tri(0))
same("mesh", surfce_to_stl(Surf("S"), 2, 1, verbosity=integer("vv", 0, 4)).vectors, surfce_to_stl(Surf("S"), 2, 1).vectors)
''')
    S(d, "inherited verbosity", LOUD + '''
vv, cv = integer("vv", 0, 5), integer("cv", 0, 5)
v, cs = fleet(vv, cv, ghost=boolean("g"), reflection_axis="y" if boolean("h") else None)
same("component of a vehicle", [c.verbosity for c in cs], [0 if vv == 0 else max(cv, vv)] * 2)
k = CompositeComponent(verbosity=vv)
c = Fresh(["P"], verbosity=cv)
k.add_component(c)
same("child of a composite", c.verbosity, 0 if vv == 0 else max(cv, vv))
w = Vehicle()
same("vehicles report by default", w.verbosity, 1)
w.configure(name="n", verbosity=vv)
same("configured verbosity", w.verbosity, vv)
''')
