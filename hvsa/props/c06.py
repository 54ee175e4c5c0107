from .common import S, METHOD
from .c07 import SPEC

RULE = "freshness of derived state: at every use the facets meshed, analysed or saved equal those of the component's current patches"
EXPLANATION = METHOD + "Contexts: sequences of generate, transform, mesh, save and analyse on vehicles of uninterpreted components, serial and parallel, and meshing that fails at any one patch and is tried again."

USE = SPEC + '''
class Fresh(Component):
    componenttype = "wing"
    def __init__(self, tags, **kw):
        super().__init__(**kw)
        self.tags = tags
    def generate_patches(self):
        self.patches = {t: Surf(t) for t in self.tags}
def now(c, n=1):
    """Facets of the current patches of a component."""
    out = []
    for w in c.patches.values():
        out += fan(w, even(n), even(n))
    return out
def vehicle(parallel, tags=(("P", "Q"), ("R",))):
    v = Vehicle()
    v.configure(verbosity=0)
    cs = []
    for i, t in enumerate(tags):
        c = Fresh(t, stl_resolution=1, verbosity=0)
        c._multiprocess = parallel
        v.add_component(c, name="c%d" % i)
        cs.append(c)
    return v, cs
def m1(x, y, z):
    return Vector3(F("m1x", x, y, z), F("m1y", x, y, z), F("m1z", x, y, z))
def fails(f):
    """f() raises; what it did before stays done."""
    try:
        f()
    except ValueError:
        return True
    return False
a1 = real("a1", -90, 90)
'''


def run(d):
    for par in (False, True):
        S(d, "mesh then change, %s" % ("parallel" if par else "serial"), USE + '''
v, cs = vehicle(%r)
v.generate()
for c in cs:
    same_facets("first mesh", c.mesh.vectors, now(c))
v.transform([("translate", m1)])
for c in cs:
    same_facets("mesh after transforming", c.mesh.vectors, now(c))
v.transform(("rotate", a1, "z"))
for c in cs:
    same_facets("mesh after a single transformation", c.mesh.vectors, now(c))
    same_facets("mesh asked for again", c.mesh.vectors, now(c))
v.vehicle_angle_offset = a1
v.generate()
for c in cs:
    same_facets("mesh after generating again", c.mesh.vectors, now(c))
cs[0].tags = ("T", "U", "V")
v.generate()
same_facets("mesh after the component changed", cs[0].mesh.vectors, now(cs[0]))
v.transform([])
for c in cs:
    same_facets("mesh after no transformation", c.mesh.vectors, now(c))
''' % par)
    S(d, "ghost or not", USE + '''
g = boolean("g")
v = Vehicle()
v.configure(verbosity=0)
cs = []
for i, t in enumerate((("P", "Q"), ("R",), ("T",))):
    c = Fresh(t, stl_resolution=1, verbosity=0)
    c._multiprocess = False
    v.add_component(c, name="c%d" % i, ghost=(g if i < 2 else not g))
    cs.append(c)
v.generate()
for c in cs:
    same_facets("first mesh", c.mesh.vectors, now(c))
v.transform([("translate", m1)])
for c in cs:
    same_facets("mesh after transforming", c.mesh.vectors, now(c))
v.vehicle_angle_offset = a1
v.generate()
for c in cs:
    same_facets("mesh after generating again", c.mesh.vectors, now(c))
''')
    S(d, "components sharing a name", USE + '''
v = Vehicle()
v.configure(verbosity=0)
cs = []
for t in (("P", "Q"), ("R",)):
    c = Fresh(t, stl_resolution=1, verbosity=0)
    c._multiprocess = False
    v.add_component(c, name="same")
    cs.append(c)
v.generate()
for c in cs:
    same_facets("first mesh", c.mesh.vectors, now(c))
v.transform([("translate", m1)])
for c in cs:
    same_facets("mesh after transforming", c.mesh.vectors, now(c))
v.vehicle_angle_offset = a1
v.generate()
for c in cs:
    same_facets("mesh after generating again", c.mesh.vectors, now(c))
''')
    S(d, "meshed at another resolution", USE + '''
v, cs = vehicle(False)
v.generate()
for c in cs:
    c.surface(2)
for c in cs:
    same_facets("mesh of the surfaces last computed", c.mesh.vectors, now(c, 2))
v.transform([("translate", m1)])
for c in cs:
    same_facets("mesh after transforming", c.mesh.vectors, now(c))
''')
    S(d, "surfaces then change", USE + '''
v, cs = vehicle(False)
v.generate()
for c in cs:
    c.surface()
v.transform([("translate", m1)])
for c in cs:
    same_facets("mesh after transforming meshed patches", c.mesh.vectors, now(c))
v, cs = vehicle(False)
v.generate()
for c in cs:
    c.surface()
v.vehicle_angle_offset = a1
v.generate()
for c in cs:
    same_facets("mesh after generating again", c.mesh.vectors, now(c))
v, cs = vehicle(False)
v.add_vehicle_transformations([("translate", m1)])
v.generate()
for c in cs:
    same_facets("mesh of the transformed vehicle", c.mesh.vectors, now(c))
''')
    S(d, "files", USE + '''
v, cs = vehicle(False)
v.generate()
v.to_stl()
v.transform([("translate", m1)])
clear_events()
v.to_stl()
ws = [e for e in events("write", "how", "vectors") if e[0] == "stl"]
check("one file per component", len(ws) == 2)
for i in range(2):
    same_facets("file after transforming", ws[i][1], now(cs[i]))
v.vehicle_angle_offset = a1
v.generate()
clear_events()
v.to_stl("pre")
ws = [e for e in events("write", "how", "vectors") if e[0] == "stl"]
for i in range(2):
    same_facets("file after generating again", ws[i][1], now(cs[i]))
clear_events()
cs[0].to_stl("a.stl")
ws = [e for e in events("write", "how", "vectors") if e[0] == "stl"]
same_facets("file of one component", ws[0][1], now(cs[0]))
''')
    S(d, "analysis", USE + '''
D = {"c0": real("d0", 0.5, 3), "c1": real("d1", 0.5, 3)}
class Bare(Component):
    componenttype = "wing"
def plain(cs):
    """The same geometry in a vehicle that was never meshed before."""
    w = Vehicle()
    w.configure(verbosity=0)
    for i, c in enumerate(cs):
        k = Bare(stl_resolution=1, verbosity=0)
        k._multiprocess = False
        k.patches = dict(c.patches)
        w.add_component(k, name="c%d" % i)
    w.generate()
    return w.analyse(D)
v, cs = vehicle(False)
v.generate()
same("first analysis", v.analyse(D), plain(cs))
v.transform([("translate", m1)])
same("analysis after transforming", v.analyse(D), plain(cs))
v.to_stl()
v.vehicle_angle_offset = a1
v.generate()
same("analysis after generating again", v.analyse(D), plain(cs))
v, cs = vehicle(False)
same("analysis generates the vehicle first", v.analyse(D), plain(cs))
v, cs = vehicle(False)
v.analyse_after_generating(D)
v.generate()
v.transform([("translate", m1)])
same("analysis after analysing on generation and transforming", v.analyse(D), plain(cs))
clear_events()
v.to_stl()
ws = [e for e in events("write", "how", "vectors") if e[0] == "stl"]
for i in range(2):
    same_facets("file after analysing", ws[i][1], now(cs[i]))
''')
    S(d, "one mesh per state", USE + '''
v, cs = vehicle(False)
v.generate()
cs[0].mesh.vectors[0][0][0] = 7.5  # as a repair of the mesh would
same("mesh asked for again", cs[0].mesh.vectors[0][0][0], 7.5)
cs[0].to_stl("x.stl")
ws = [e for e in events("write", "how", "vectors") if e[0] == "stl"]
same("the mesh saved is the mesh repaired", ws[-1][1][0][0][0], 7.5)
v.analyse({"c0": 1.0, "c1": 1.0})
same("analysis keeps the mesh", cs[0].mesh.vectors[0][0][0], 7.5)
''')
    for par in (False, True):
        S(d, "meshing fails, %s" % ("parallel" if par else "serial"), USE + '''
class Weak(Surf):
    """A surface that cannot be evaluated while its switch is on."""
    def __init__(self, tag, switch):
        self.tag = tag
        self.switch = switch
    def __call__(self, r, s):
        if self.switch[0]:
            raise ValueError("cannot evaluate")
        return super().__call__(r, s)
for bad in (0, 1, 2):
    for how in ("mesh", "surface", "stl"):
        c = Fresh(("P", "Q", "R"), stl_resolution=1, verbosity=0)
        c._multiprocess = %r
        c.generate_patches()
        switch = [True]
        k = ("P", "Q", "R")[bad]
        c.patches[k] = Weak(k, switch)
        if how == "mesh":
            check("failure is reported", fails(lambda: c.mesh))
        elif how == "surface":
            check("failure is reported", fails(lambda: c.surface()))
        else:
            check("failure is reported", fails(lambda: c.to_stl("f.stl")))
        check("failure is reported again", fails(lambda: c.mesh))
        switch[0] = False
        same_facets("complete mesh after patch %%d failed" %% bad, c.mesh.vectors, now(c))
''' % par)
    S(d, "failure after a finished mesh", USE + '''
class Weak(Surf):
    def __init__(self, tag, switch):
        self.tag = tag
        self.switch = switch
    def __call__(self, r, s):
        if self.switch[0]:
            raise ValueError("cannot evaluate")
        return super().__call__(r, s)
class Risky(Component):
    componenttype = "wing"
    def generate_patches(self):
        self.patches = {"P": Surf("P"), "Q": Weak("Q", switch)}
switch = [False]
v = Vehicle()
v.configure(verbosity=0)
c = Risky(stl_resolution=1, verbosity=0)
c._multiprocess = False
v.add_component(c, name="c0")
v.generate()
c.mesh
v.transform([("translate", m1)])
switch[0] = True
check("failure is reported", fails(lambda: v.to_stl()))
check("analysis does not use an old mesh", fails(lambda: v.analyse({"c0": 1.0})))
switch[0] = False
same_facets("complete mesh afterwards", c.mesh.vectors, now(c))
''')
