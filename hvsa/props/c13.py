from .common import S, METHOD
from .c12 import EDGE

RULE = "swept-term equality: section edge at its station, linear in between, caps share section edges; malformed sections raise"
EXPLANATION = METHOD + "Contexts: 2-5 sections of 3-5 uninterpreted edges with symbolic corners, symbolic parameters inside every interval and at every station; older sweep of parallel sections along each axis."

SWEPT = EDGE + '''
from hypervehicle.geometry.geometry import SweptPatchfromEdges, SweptPatch
from hypervehicle.components.swept import SweptComponent
u = real("u", 0.02, 0.98)
def lerp(p, q, k):
    return plus(scale(p, 1 - k), scale(q, k))
def section(j, n):
    """Closed loop of n edges with symbolic corners."""
    c = [vec("s" + str(j) + "c" + str(i)) for i in range(n)]
    return [Edge("s" + str(j) + "e" + str(i), c[i], c[(i + 1) % n]) for i in range(n)]
'''


def run(d):
    S(d, "swept patch", SWEPT + '''
for n in (2, 3, 4, 5):
    es = [Curve("e" + str(i)) for i in range(n)]
    w = SweptPatchfromEdges(es)
    E = [xyz(Curve("e" + str(i))(s)) for i in range(n)]
    for i in range(n):
        same("at a station", xyz(w(i / (n - 1), s)), E[i])
    for i in range(n - 1):
        same("between stations", xyz(w((i + u) / (n - 1), s)), lerp(E[i], E[i + 1], u))
    check("list handed in keeps its edges", len(es) == n)
''')
    S(d, "swept patch of the library's own edges", SWEPT + '''
from hypervehicle.geometry.path import Bezier
def edge(i, k):
    a, b = vec("a" + str(i)), vec("b" + str(i))
    return {"line": Line(a, b), "curve": Bezier([a, vec("m" + str(i)), b]), "any": Curve("e" + str(i))}[k]
for ks in (("line", "line"), ("line", "line", "line"), ("curve", "line", "curve"), ("line", "any", "line"), ("curve", "curve", "curve")):
    n = len(ks)
    w = SweptPatchfromEdges([edge(i, k) for i, k in enumerate(ks)])
    E = [xyz(edge(i, k)(s)) for i, k in enumerate(ks)]
    for i in range(n):
        same("at a station " + "/".join(ks), xyz(w(i / (n - 1), s)), E[i])
    for i in range(n - 1):
        same("between stations " + "/".join(ks), xyz(w((i + u) / (n - 1), s)), lerp(E[i], E[i + 1], u))
same("one edge repeated", xyz(SweptPatchfromEdges([edge(0, "any"), edge(0, "any"), edge(1, "any")])(0.25, s)), xyz(edge(0, "any")(s)))
for q in (1e-7, 1e-4, 0.004, 0.01):
    for i in (0, 1, 2):
        for d_ in (q, -q):
            x = 0.5 * i + d_
            if 0 <= x <= 1:
                lo = 0 if x < 0.5 else 1
                al = 2 * x - lo
                w = SweptPatchfromEdges([edge(j, "any") for j in range(3)])
                same("close to a station", xyz(w(x, s)), lerp(xyz(edge(lo, "any")(s)), xyz(edge(lo + 1, "any")(s)), al))
''')
    S(d, "swept component", SWEPT + '''
def equal3(p, q):
    return abs(p[0] - q[0]) < 1e-7 and abs(p[1] - q[1]) < 1e-7 and abs(p[2] - q[2]) < 1e-7
def loops(cap, sec):
    """Does the cap's boundary run along the section, from some corner in some direction?"""
    sides = [lambda q: cap(q, 0.0), lambda q: cap(1.0, q), lambda q: cap(1.0 - q, 1.0), lambda q: cap(0.0, 1.0 - q)]
    ok = False
    for k in range(4):
        f, b = True, True
        for m in range(4):
            want = xyz(sec[m](s))
            f = f and equal3(xyz(sides[(k + m) % 4](s)), want)
            b = b and equal3(xyz(sides[(k - m) % 4](1.0 - s)), want)
        ok = ok or f or b
    return ok
for n in (2, 3):
    for ne in (3, 4, 5):
        for close in (True, False):
            if close and ne != 4:
                continue
            c = SweptComponent([section(j, ne) for j in range(n)], close_ends=close, verbosity=0)
            c.generate_patches()
            check("one patch per edge and two caps", len(c.patches) == ne + (2 if close else 0))
            ps = [p for p in c.patches.values()]
            for e in range(ne):
                for j in range(n):
                    same("patch passes through section", xyz(ps[e](j / (n - 1), s)), xyz(section(j, ne)[e](s)))
                for j in range(n - 1):
                    same("patch between sections", xyz(ps[e]((j + u) / (n - 1), s)), lerp(xyz(section(j, ne)[e](s)), xyz(section(j + 1, ne)[e](s)), u))
            if close:
                check("front cap shares its boundary with the first section", loops(ps[4], section(0, 4)))
                check("rear cap shares its boundary with the last section", loops(ps[5], section(n - 1, 4)))
''')
    S(d, "malformed sections", SWEPT + '''
def bad(n, j, e, k):
    """Sections with a gap at the start of edge e of section j."""
    cs = []
    for q in range(n):
        c = [Vector3(0.0, 0.0, float(q)), Vector3(1.0, 0.0, float(q)), Vector3(1.0, 1.0, float(q)), Vector3(0.0, 1.0, float(q))]
        sec = []
        for i in range(4):
            a, b = c[i], c[(i + 1) % 4]
            if q == j and i == e:
                g = [a.x, a.y, a.z]
                g[k] += real("gap", 0.01, 1)
                a = Vector3(g[0], g[1], g[2])
            sec.append(Line(a, b))
        cs.append(sec)
    return cs
for j in (0, 1, 2):
    for e in (0, 1, 2, 3):
        for k in (0, 1, 2):
            raises("open section", lambda: SweptComponent(bad(3, j, e, k), verbosity=0))
for j in (0, 1, 2, 3, 4):
    for e in (0, 3):
        raises("open section of five", lambda: SweptComponent(bad(5, j, e, 1), verbosity=0))
        raises("open section of five, open ends", lambda: SweptComponent(bad(5, j, e, 2), close_ends=False, verbosity=0))
for j in (1, 2, 3):
    raises("one section of four with other edges", lambda: SweptComponent([section(q, 4 if q != j else 3) for q in range(4)], close_ends=False, verbosity=0))
raises("more edges in a later section", lambda: SweptComponent([section(0, 3), section(1, 4)], close_ends=False, verbosity=0))
raises("fewer edges in a later section", lambda: SweptComponent([section(0, 4), section(1, 4), section(2, 3)], close_ends=False, verbosity=0))
for ne in (3, 5):
    raises("caps without four edges", lambda: SweptComponent([section(0, ne), section(1, ne)], verbosity=0))
    c = SweptComponent([section(0, ne), section(1, ne)], close_ends=False, verbosity=0)
''')
    S(d, "sweep of parallel sections", SWEPT + '''
def quad(j, ax, pos):
    """Bilinear section normal to an axis."""
    def P(i):
        a, b = real("q" + str(j) + str(i) + "a", -1, 1), real("q" + str(j) + str(i) + "b", -1, 1)
        return {"x": Vector3(pos, a, b), "y": Vector3(a, pos, b), "z": Vector3(a, b, pos)}[ax]
    return CoonsPatch(p00=P(0), p10=P(1), p11=P(2), p01=P(3))
def around(w, q):
    """Perimeter of a patch: south, east, north, west."""
    k, f = q
    return [w(f, 0.0), w(1.0, f), w(1.0 - f, 1.0), w(0.0, 1.0 - f)][k]
stations = [0.5, 2.0, 3.0]
for ax in ("x", "y", "z"):
    for n in (2, 3):
        cs = [quad(j, ax, stations[j]) for j in range(n)]
        w = SweptPatch(cs, ax)
        span = stations[n - 1] - stations[0]
        for k in range(4):
            for j in range(n):
                same("section perimeter at its station", xyz(w((stations[j] - stations[0]) / span, (k + 0.375) / 4)), xyz(around(cs[j], (k, 0.375))))
            for j in range(n - 1):
                pos = stations[j] + u * (stations[j + 1] - stations[j])
                same("between sections", xyz(w((pos - stations[0]) / span, (k + 0.375) / 4)), lerp(xyz(around(cs[j], (k, 0.375))), xyz(around(cs[j + 1], (k, 0.375))), u))
raises("sections without distance", lambda: SweptPatch([quad(0, "z", 1.0), quad(1, "z", 1.0)]))
''')
