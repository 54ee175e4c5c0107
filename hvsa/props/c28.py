from .common import S, METHOD
from .c07 import SPEC

RULE = "parallel/serial equality of the surface table, and typestate of worker pools: none is open after any normal or exceptional exit"
EXPLANATION = METHOD + "Worker calls return only their result (effects on shared objects are dropped) and unordered results are taken in reverse submission order, so schedule-dependent code is seen. Contexts: 1-4 uninterpreted patches, clustering, per-patch resolutions, failure at any patch, meshing through component, vehicle, files and analysis."

POOL = SPEC + '''
def comp(tags, parallel, res=1, **kw):
    c = Comp(tags, stl_resolution=res, verbosity=0)
    c._multiprocess = parallel
    c.add_clustering_options(**kw)
    c.generate_patches()
    return c
def fails(f):
    try:
        f()
    except ValueError:
        return True
    return False
class Weak(Surf):
    def __init__(self, tag, switch):
        self.tag = tag
        self.switch = switch
    def __call__(self, r, s):
        if self.switch[0]:
            raise ValueError("cannot evaluate")
        return super().__call__(r, s)
'''


def run(d):
    S(d, "parallel equals serial", POOL + '''
fi = lambda u: F("fi", u)
names = ["P", "Q", "R", "T"]
for n in (1, 2, 3, 4):
    for kw in ({}, {"i_clustering_func": fi}):
        a, b = comp(names[:n], True, 2, **kw), comp(names[:n], False, 2, **kw)
        a.surface()
        b.surface()
        same("keys in patch order", list(a.surfaces), names[:n])
        same("serial keys in patch order", list(b.surfaces), names[:n])
        for k in names[:n]:
            same("surface of patch", [x for x in a.surfaces[k].vectors], [x for x in b.surfaces[k].vectors])
        same("whole mesh", [x for x in a.mesh.vectors], [x for x in b.mesh.vectors])
        check("pool released", open_pools() == 0)
''')
    S(d, "parallel covers every patch", POOL + '''
for par in (True, False):
    c = comp(["P", "Q", "R"], par, 2)
    c.surface()
    for k in ("P", "Q", "R"):
        same_facets("surface belongs to its key", c.surfaces[k].vectors, fan(Surf(k), even(2), even(2)))
    c.surface(1)
    for k in ("P", "Q", "R"):
        same_facets("surface at another resolution", c.surfaces[k].vectors, fan(Surf(k), even(1), even(1)))
    check("pool released", open_pools() == 0)
''')
    S(d, "per-patch resolution", POOL + '''
for par in (True, False):
    c = comp(["P", "Q"], par, {})
    c.patch_res_r.update({"P": 1, "Q": 2})
    c.patch_res_s.update({"P": 2, "Q": 1})
    c.surface()
    same_facets("first patch", c.surfaces["P"].vectors, fan(Surf("P"), even(1), even(2)))
    same_facets("second patch", c.surfaces["Q"].vectors, fan(Surf("Q"), even(2), even(1)))
    check("pool released", open_pools() == 0)
''')
    S(d, "release after failure", POOL + '''
for bad in (0, 1, 2):
    for how in ("mesh", "surface", "stl"):
        c = comp(["P", "Q", "R"], True)
        switch = [True]
        k = ("P", "Q", "R")[bad]
        c.patches[k] = Weak(k, switch)
        if how == "mesh":
            done = fails(lambda: c.mesh)
        elif how == "surface":
            done = fails(lambda: c.surface())
        else:
            done = fails(lambda: c.to_stl("f.stl"))
        check("failure is reported", done)
        check("pool released after patch %d failed" % bad, open_pools() == 0)
        switch[0] = False
        c.mesh
        check("pool released after success", open_pools() == 0)
''')
    S(d, "release through the vehicle", POOL + '''
v = Vehicle()
v.configure(verbosity=0)
for i in range(3):
    v.add_component(comp(["P%d" % i], True), name="c%d" % i)
v.generate()
v.to_stl()
check("released after writing", open_pools() == 0)
v.transform([("rotate", 10, "x")])
v.analyse({"c0": 1.0, "c1": 1.0, "c2": 1.0})
check("released after analysing", open_pools() == 0)
c = comp([], True)
try:
    c.surface()
except Exception:
    pass
check("released when there is nothing to mesh", open_pools() == 0)
''')
    S(d, "release in a sensitivity study", POOL + '''
from hypervehicle.generator import Generator
from hypervehicle.utilities import SensitivityStudy
class Gen(Generator):
    def __init__(self, **kw):
        self.width = 1.0
        super().__init__(**kw)
    def create_instance(self):
        v = Vehicle()
        v.configure(verbosity=0)
        w = self.width
        class Scaled(Component):
            componenttype = "wing"
            def generate_patches(self):
                self.patches = {"P": Surf("P")}
        v.add_component(Scaled(stl_resolution=1, verbosity=0), name="c", transformations=[("translate", Vector3(w, 0.0, 0.0))])
        v.generate()
        return v
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp({"width": 2.0})
check("released after the study", open_pools() == 0)
''')
