from .common import S, METHOD, KINDS
from .c07 import SPEC

RULE = "node-term equality: the r and s node lists of the mesh equal those prescribed by that direction's own resolution, exponent and clustering function"
EXPLANATION = METHOD + "Contexts: uninterpreted surface and clustering functions, distinct cell counts in the two directions, symbolic spacing exponents; components with clustering options, per-edge resolution tables, per-patch tables and reflection."


def run(d):
    S(d, "spacing exponents", SPEC + '''
si, sj = real("si", 0.4, 3), real("sj", 0.4, 3)
def pw(n, e):
    return [(i / n) ** e for i in range(n + 1)]
for ni, nj in ((2, 3), (3, 2), (1, 4)):
    same_facets("both exponents", surfce_to_stl(Surf("w"), ni, nj, si, sj).vectors, fan(Surf("w"), pw(ni, si), pw(nj, sj)))
    same_facets("r exponent only", surfce_to_stl(Surf("w"), ni, nj, si=si).vectors, fan(Surf("w"), pw(ni, si), even(nj)))
    same_facets("s exponent only", surfce_to_stl(Surf("w"), ni, nj, sj=sj).vectors, fan(Surf("w"), even(ni), pw(nj, sj)))
''')
    S(d, "clustering functions", SPEC + '''
fi = lambda u: F("fi", u)
fj = lambda u: F("fj", u)
def cl(f, n):
    return [f(i / n) for i in range(n + 1)]
for ni, nj in ((2, 3), (3, 2), (1, 4), (4, 1), (2, 2)):
    same_facets("r clustering only", surfce_to_stl(Surf("w"), ni, nj, i_clustering_func=fi).vectors, fan(Surf("w"), cl(fi, ni), even(nj)))
    same_facets("s clustering only", surfce_to_stl(Surf("w"), ni, nj, j_clustering_func=fj).vectors, fan(Surf("w"), even(ni), cl(fj, nj)))
    same_facets("both", surfce_to_stl(Surf("w"), ni, nj, i_clustering_func=fi, j_clustering_func=fj).vectors, fan(Surf("w"), cl(fi, ni), cl(fj, nj)))
''')
    S(d, "clustering in one direction, exponent in the other", SPEC + '''
fi = lambda u: F("fi", u)
fj = lambda u: F("fj", u)
si, sj = real("si", 0.4, 3), real("sj", 0.4, 3)
def cl(f, n):
    return [f(i / n) for i in range(n + 1)]
def pw(n, e):
    return [(i / n) ** e for i in range(n + 1)]
for ni, nj in ((2, 3), (3, 2)):
    same_facets("r clustered, s exponent", surfce_to_stl(Surf("w"), ni, nj, si=si, sj=sj, i_clustering_func=fi).vectors, fan(Surf("w"), cl(fi, ni), pw(nj, sj)))
    same_facets("s clustered, r exponent", surfce_to_stl(Surf("w"), ni, nj, si=si, sj=sj, j_clustering_func=fj).vectors, fan(Surf("w"), pw(ni, si), cl(fj, nj)))
    same_facets("clustering wins over exponents", surfce_to_stl(Surf("w"), ni, nj, si=si, sj=sj, i_clustering_func=fi, j_clustering_func=fj).vectors, fan(Surf("w"), cl(fi, ni), cl(fj, nj)))
    same_facets("mirrored", surfce_to_stl(Surf("w"), ni, nj, sj=sj, mirror_y=True, i_clustering_func=fi).vectors, fan(Surf("w"), cl(fi, ni), pw(nj, sj), -1))
''')
    S(d, "component options", SPEC + '''
fi = lambda u: F("fi", u)
fj = lambda u: F("fj", u)
def cl(f, n):
    return [f(i / n) for i in range(n + 1)]
def nodes(f, n):
    return even(n) if f is None else cl(f, n)
for parallel in (False, True):
    for a, b in ((None, None), (fi, None), (None, fj), (fi, fj)):
        c = Comp(["a", "b"], stl_resolution=2, verbosity=0)
        c._multiprocess = parallel
        c._ghost = boolean("g")
        c.add_clustering_options(i_clustering_func=a, j_clustering_func=b)
        c.generate_patches()
        c.surface()
        for k in ("a", "b"):
            same_facets("clustering options reach the mesher", c.surfaces[k].vectors, fan(Surf(k), nodes(a, 2), nodes(b, 2)))
c = Comp(["a"], stl_resolution=2, verbosity=0)
c.add_clustering_options(i_clustering_func=fi)
c.add_clustering_options(j_clustering_func=fj)
c.generate_patches()
c.surface(3)
same_facets("options added one after the other", c.surfaces["a"].vectors, fan(Surf("a"), cl(fi, 3), cl(fj, 3)))
v = Vehicle()
v.configure(verbosity=0)
c = Comp(["a"], stl_resolution=2)
v.add_component(c, clustering={"j_clustering_func": fj})
v.generate()
same_facets("options given when adding the component", c.mesh.vectors, fan(Surf("a"), even(2), cl(fj, 2)))
''')
    S(d, "component resolution", SPEC + '''
for parallel in (False, True):
    c = Comp(["a", "b"], stl_resolution=3, verbosity=0)
    c._multiprocess = parallel
    c.generate_patches()
    c.surface()
    for k in ("a", "b"):
        same_facets("resolution of the component", c.surfaces[k].vectors, fan(Surf(k), even(3), even(3)))
    c.surface(2)
    for k in ("a", "b"):
        same_facets("resolution passed to the call", c.surfaces[k].vectors, fan(Surf(k), even(2), even(2)))
    c = Comp(["a", "b"], stl_resolution={}, verbosity=0)
    c._multiprocess = parallel
    c.generate_patches()
    c.patch_res_r.update({"a": 1, "b": 3})
    c.patch_res_s.update({"a": 4, "b": 2})
    c.surface()
    same_facets("own r and s resolution, first patch", c.surfaces["a"].vectors, fan(Surf("a"), even(1), even(4)))
    same_facets("own r and s resolution, second patch", c.surfaces["b"].vectors, fan(Surf("b"), even(3), even(2)))
    for ra, sa, rb, sb in ((2, 1, 2, 3), (1, 2, 3, 2), (2, 2, 3, 3), (1, 3, 1, 3), (2, 3, 3, 2)):
        c = Comp(["a", "b"], stl_resolution={"x": 2}, verbosity=0)
        c._multiprocess = parallel
        c._ghost = boolean("g")
        c.generate_patches()
        c.patch_res_r.update({"a": ra, "b": rb})
        c.patch_res_s.update({"a": sa, "b": sb})
        c.surface()
        same_facets("resolutions that partly agree, first patch", c.surfaces["a"].vectors, fan(Surf("a"), even(ra), even(sa)))
        same_facets("resolutions that partly agree, second patch", c.surfaces["b"].vectors, fan(Surf("b"), even(rb), even(sb)))
''')
    S(d, "per-edge resolution", SPEC + '''
from hypervehicle.components.swept import SweptComponent
from hypervehicle.geometry.path import Line
class Edge(Path):
    def __init__(self, tag, a, b):
        self.tag, self.a, self.b = tag, a, b
    def __repr__(self):
        return "Edge"
    def __call__(self, t):
        bump = t * (1 - t)
        return Vector3(self.a.x * (1 - t) + self.b.x * t + bump * F(self.tag + ".x", t), self.a.y * (1 - t) + self.b.y * t + bump * F(self.tag + ".y", t), self.a.z * (1 - t) + self.b.z * t + bump * F(self.tag + ".z", t))
def section(k):
    P = [vec("P%d%d" % (k, i)) for i in range(4)]
    return [Edge("E%d%d" % (k, i), P[i], P[(i + 1) % 4]) for i in range(4)]
def cells(w, ni, nj):
    return fan(w, even(ni), even(nj))
for axis, append, n0, n1, nw in ((None, True, 1, 2, 3), ("y", True, 1, 2, 3), ("x", False, 1, 2, 3), (None, True, 2, 1, 1), ("z", True, 2, 2, 1)):
    v = Vehicle()
    v.configure(verbosity=0)
    c = SweptComponent([section(0), section(1)], stl_resolution={"e0": n0, "e1": n1, "e2": n0, "e3": n1, "sweep": nw}, verbosity=0)
    c._multiprocess = False
    v.add_component(c, reflection_axis=axis, append_reflection=append)
    v.generate()
    c.surface()
    for k in c.patches:
        w = c.patches[k]
        base = k[:-9] if k.endswith("_mirrored") else k
        want = {"swept_patch_0": (nw, n0), "swept_patch_1": (nw, n1), "swept_patch_2": (nw, n0), "swept_patch_3": (nw, n1), "swept_patch_end_0": (n0, n1), "swept_patch_end_1": (n0, n1)}[base]
        same_facets("resolution of the edges", c.surfaces[k].vectors, cells(w, want[0], want[1]))
    check("all patches meshed", len(c.surfaces) == len(c.patches))
''')
    S(d, "clustering of any kind of surface", SPEC + KINDS + '''
fi = lambda u: u * (1 - real("p", 0.1, 0.9) * (1 - u))
fj = lambda u: 0.25 + 0.5 * u
for k, w in kinds().items():
    same_facets(k + " clustered", surfce_to_stl(w, 2, 1, i_clustering_func=fi, j_clustering_func=fj).vectors, fan(w, [fi(i / 2) for i in range(3)], [fj(0.0), fj(1.0)]))
    same_facets(k + " even", surfce_to_stl(w, 1, 2).vectors, fan(w, even(1), even(2)))
''')
    S(d, "reflected twice with own resolutions", SPEC + '''
for app in (True, False):
    c = Comp(["a", "b"], stl_resolution={}, verbosity=0)
    c._multiprocess = False
    c._append_reflection = app
    c.generate_patches()
    c.patch_res_r.update({"a": 1, "b": 3})
    c.patch_res_s.update({"a": 4, "b": 2})
    c.reflect("y")
    c.reflect("z")
    c.surface()
    k = 4 if app else 1
    same("facets of every patch", sorted([len([x for x in m.vectors]) for m in c.surfaces.values()]), [4 * 4] * k + [4 * 6] * k)
''')
