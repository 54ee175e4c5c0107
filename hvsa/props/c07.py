from .common import S, METHOD

RULE = "facet-term equality: the triangles of a mesh equal the centre fan of every cell of the node grid, up to order and starting vertex"
EXPLANATION = METHOD + "Contexts: an uninterpreted surface, every listed pair of cell counts, default, exponent and uninterpreted clustered spacing, mirrored or not, and concrete patches with collapsed edges. Facets are matched as a multiset of oriented triangles."
GRIDS = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 5), (5, 1), (4, 3), (3, 5), (6, 4), (7, 7)]
MORE = [(1, 12), (12, 1), (8, 5), (5, 9), (10, 10), (13, 7)]

SPEC = '''
from hypervehicle.utilities import surfce_to_stl, default_vertex_func
def fan(w, R, T, sign=1):
    """Four counter-clockwise triangles per cell about the mean of its corners."""
    out = []
    for i in range(len(R) - 1):
        for j in range(len(T) - 1):
            a, b, c, d = [xyz(w(u, v)) for u, v in ((R[i], T[j]), (R[i + 1], T[j]), (R[i + 1], T[j + 1]), (R[i], T[j + 1]))]
            m = tuple((a[k] + b[k] + c[k] + d[k]) / 4 for k in range(3))
            for p, q in ((a, b), (b, c), (c, d), (d, a)):
                out.append([(v[0], sign * v[1], v[2]) for v in (p, q, m)])
    return out
def even(n):
    return [i / n for i in range(n + 1)]
'''


def run(d):
    for ni, nj in GRIDS + (MORE if getattr(d, "tier", "quick") == "thorough" else []):
        S(d, "grid %dx%d" % (ni, nj), SPEC + '''
m = surfce_to_stl(Surf("w"), %d, %d)
same_facets("fan over every cell", m.vectors, fan(Surf("w"), even(%d), even(%d)))
check("four triangles per cell", len(m.vectors) == 4 * %d * %d)
''' % (ni, nj, ni, nj, ni, nj))
    S(d, "mirror option", SPEC + '''
for ni, nj in ((1, 1), (2, 3), (3, 1)):
    m = surfce_to_stl(Surf("w"), ni, nj, mirror_y=True)
    same_facets("y negated in every vertex", m.vectors, fan(Surf("w"), even(ni), even(nj), -1))
    m = surfce_to_stl(Surf("w"), ni, nj, mirror_y=False)
    same_facets("not mirrored", m.vectors, fan(Surf("w"), even(ni), even(nj)))
''')
    S(d, "mirror flag unknown", SPEC + '''
b = boolean("b")
m = surfce_to_stl(Surf("w"), 2, 1, mirror_y=b)
k = -1 if b else 1
same_facets("y negated exactly when asked", m.vectors, fan(Surf("w"), even(2), even(1), k))
''')
    S(d, "nodes", SPEC + '''
for n in (2, 3, 5, 8):
    p = real("p", 0.3, 3)
    u = default_vertex_func(0.0, 1.0, n, p)
    check("node count", len(u) == n)
    same("first node", u[0], 0.0)
    same("last node", u[n - 1], 1.0)
    lo, hi = real("lo"), real("hi")
    u = default_vertex_func(lo, hi, n)
    same("evenly spaced by default", [x for x in u], [lo + (hi - lo) * i / (n - 1) for i in range(n)])
''')
    S(d, "concrete surfaces", SPEC + '''
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.geometry.path import Line
A, B, C, D = vec("A"), vec("B"), vec("C"), vec("D")
w = CoonsPatch(p00=A, p10=B, p11=C, p01=D)
m = surfce_to_stl(w, 2, 2)
same_facets("fan over a Coons patch", m.vectors, fan(w, even(2), even(2)))
''')
    S(d, "collapsed edges", SPEC + '''
from hypervehicle.geometry.surface import CoonsPatch
O, X, Y, Q = Vector3(0.0, 0.0, 0.0), Vector3(2.0, 0.0, 1.0), Vector3(0.0, 3.0, 0.5), Vector3(2.0, 3.0, 4.0)
for what, (a, b, c, e) in (("south", (O, O, Q, Y)), ("north", (O, X, Y, Y)), ("west", (O, X, Q, O)), ("east", (O, X, X, Y)), ("all", (X, X, X, X)), ("both", (O, X, X, O)), ("folded", (O, X, O, X))):
    w = CoonsPatch(p00=a, p10=b, p11=c, p01=e)
    for ni, nj in ((1, 1), (2, 3)):
        m = surfce_to_stl(w, ni, nj)
        check("four triangles per cell, collapsed " + what, len(m.vectors) == 4 * ni * nj)
        same_facets("every triangle of a patch collapsed at " + what, m.vectors, fan(w, even(ni), even(nj)))
''')
