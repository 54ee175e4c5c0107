from .common import S, METHOD

RULE = "body-term equality: revolved, cone, cube, sphere and ogive points equal their defining formulas and neighbouring faces share edges"
EXPLANATION = METHOD + "Contexts: an uninterpreted revolve line, symbolic angle ranges, sizes, centres and parameters; the four patches of a revolved component, six faces of cube and sphere, and the segments of an ogive profile with symbolic dimensions."


def run(d):
    S(d, "revolved patch", '''
from hypervehicle.geometry.geometry import RevolvedPatch, ConePatch
from hypervehicle.components.revolved import RevolvedComponent
a0, a1 = real("a0", -7, 7), real("a1", -7, 7)
w = RevolvedPatch(Curve("L"), a0, a1)
p = xyz(Curve("L")(r))
def turned(p, a):
    x, y, z = p
    return (x, y * math.cos(a) + z * math.sin(a), z * math.cos(a) - y * math.sin(a))
q = xyz(w(r, s))
same("point turned about the axis", q, turned(p, a0 * (1 - s) + a1 * s))
same("distance kept", q[1] * q[1] + q[2] * q[2], p[1] * p[1] + p[2] * p[2])
same("default is the full turn", xyz(RevolvedPatch(Curve("L"))(r, s)), turned(p, 2 * math.pi * s))
def whole(c):
    c.generate_patches()
    ps = [q for q in c.patches.values()]
    n = len(ps)
    check("has patches", n >= 1)
    same("first patch starts on the line", xyz(ps[0](r, 0.0)), p)
    same("last patch ends on the line", xyz(ps[n - 1](r, 1.0)), p)
    for i in range(n):
        same("patch is the line turned over its share of the circle", xyz(ps[i](r, s)), turned(p, 2 * math.pi * (i + s) / n))
        same("neighbouring patches meet", xyz(ps[i](r, 1.0)), xyz(ps[(i + 1) % n](r, 0.0)))
whole(RevolvedComponent(Curve("L"), verbosity=0))
for res in (1, 2, 3, 50):
    whole(RevolvedComponent(Curve("L"), stl_resolution=res, verbosity=0, name="body"))
''')
    S(d, "cone patch", '''
from hypervehicle.geometry.geometry import ConePatch
x0, x1, r0, r1 = real("x0"), real("x1"), real("r0", 0, 2), real("r1", 0, 2)
a0, a1 = real("a0", -7, 7), real("a1", -7, 7)
w = ConePatch(x0, x1, r0, r1, a0, a1)
a = a0 * (1 - s) + a1 * s
rad = r0 * (1 - r) + r1 * r
same("ruled between rings", xyz(w(r, s)), (x0 * (1 - r) + x1 * r, rad * math.cos(a), rad * math.sin(a)))
same("by keyword", xyz(ConePatch(x0=x0, x1=x1, r0=r0, r1=r1, angle0=a0, angle1=a1)(r, s)), xyz(w(r, s)))
''')
    S(d, "cube and sphere", '''
from hypervehicle.geometry.geometry import CubePatch, SpherePatch
from hypervehicle.components.polygon import Cube, Sphere
a = real("a", 0.2, 3)
def cube(face):
    u, v = 2 * r - 1, 2 * s - 1
    return {"east": (1.0, u, v), "west": (-1.0, u, v), "south": (u, -1.0, v), "north": (u, 1.0, v), "bottom": (u, v, -1.0), "top": (u, v, 1.0)}[face]
faces = ("east", "west", "south", "north", "bottom", "top")
def ball(p):
    x, y, z = p
    return (x * math.sqrt(1 - z * z / 2 - y * y / 2 + y * y * z * z / 3), y * math.sqrt(1 - z * z / 2 - x * x / 2 + x * x * z * z / 3), z * math.sqrt(1 - y * y / 2 - x * x / 2 + x * x * y * y / 3))
for f in faces:
    o = vec("o")
    same("cube face", xyz(CubePatch(a, o, f)(r, s)), plus(xyz(vec("o")), scale(cube(f), a)))
    q = xyz(SpherePatch(a, o, f)(r, s))
    same("sphere face", q, plus(xyz(vec("o")), scale(ball(cube(f)), a)))
    dq = minus(q, xyz(vec("o")))
    same("sphere radius", dq[0] * dq[0] + dq[1] * dq[1] + dq[2] * dq[2], a * a)
    same("centre kept", xyz(o), xyz(vec("o")))
for cls, form in ((Cube, lambda p: p), (Sphere, ball)):
    for centre in (None, vec("o")):
        c = cls(a, verbosity=0) if centre is None else cls(a, centre=centre, verbosity=0)
        c.generate_patches()
        O = (0.0, 0.0, 0.0) if centre is None else xyz(vec("o"))
        same("all six faces", at(c, r, s), {f: plus(O, scale(form(cube(f)), a)) for f in faces})
for size in (1e-6, 1e-3, 1e3, 1e6):
    for cls, form in ((Cube, lambda p: p), (Sphere, ball)):
        for res in (1, 7):
            c = cls(size * a, centre=Vector3(size, -2.0 * size, 3.0 * size), stl_resolution=res, name="b", verbosity=0)
            c.generate_patches()
            got = at(c, r, s)
            same("bodies of any size", {f: scale(got[f], 1.0 / size) for f in faces}, {f: plus((1.0, -2.0, 3.0), scale(form(cube(f)), a)) for f in faces})
raises("unknown cube face", lambda: CubePatch(1.0, vec("o"), "front")(0.5, 0.5), ValueError)
raises("unknown sphere face", lambda: SpherePatch(1.0, vec("o"), "front")(0.5, 0.5), ValueError)
''')
    S(d, "faces share edges", '''
from hypervehicle.components.polygon import Cube, Sphere
a = real("a", 0.2, 3)
# pairs of (face, edge) that must coincide: edge as a function of one running coordinate
joins = [("east", lambda w: w(1.0, s), "north", lambda w: w(1.0, s)), ("east", lambda w: w(0.0, s), "south", lambda w: w(1.0, s)),
         ("west", lambda w: w(1.0, s), "north", lambda w: w(0.0, s)), ("west", lambda w: w(0.0, s), "south", lambda w: w(0.0, s)),
         ("east", lambda w: w(s, 1.0), "top", lambda w: w(1.0, s)), ("east", lambda w: w(s, 0.0), "bottom", lambda w: w(1.0, s)),
         ("west", lambda w: w(s, 1.0), "top", lambda w: w(0.0, s)), ("west", lambda w: w(s, 0.0), "bottom", lambda w: w(0.0, s)),
         ("north", lambda w: w(s, 1.0), "top", lambda w: w(s, 1.0)), ("north", lambda w: w(s, 0.0), "bottom", lambda w: w(s, 1.0)),
         ("south", lambda w: w(s, 1.0), "top", lambda w: w(s, 0.0)), ("south", lambda w: w(s, 0.0), "bottom", lambda w: w(s, 0.0))]
for cls in (Cube, Sphere):
    c = cls(a, centre=vec("o"), verbosity=0)
    c.generate_patches()
    for f, e, g, h in joins:
        same("shared edge", xyz(e(c.patches[f])), xyz(h(c.patches[g])))
''')
    S(d, "ogive nose", '''
from hypervehicle.components.common import OgiveNose
h, rn, L = real("h", 0.8, 1.2), real("rn", 0.1, 0.4), real("L", 0.5, 3)
ro = real("ro", 3, 5)
u = real("u", 0.05, 0.95)
c = OgiveNose(h=h, r_n=rn, r_o=ro, L_o=L, verbosity=0)
xo = math.sqrt((ro - rn) * (ro - rn) - (ro - h) * (ro - h))
yt = rn * (ro - h) / (ro - rn)
xt = xo + math.sqrt(rn * rn - yt * yt)
# angles swept by the nose circle and by the ogive circle
an = math.atan2(yt, xt - xo)
ao = math.atan2(ro - h + yt, xt)
Ls = [rn * an, ro * (math.pi / 2 - ao), L, h]
total = Ls[0] + Ls[1] + Ls[2] + Ls[3]
line = c.revolve_line
same("starts at the tip", xyz(line(0.0)), (xo + rn, 0.0, 0.0))
same("ends on the axis at the base", xyz(line(1.0)), (-L, 0.0, 0.0))
def on(k):
    return xyz(line((sum(Ls[:k]) + u * Ls[k]) / total))
same("nose arc", on(0), (xo + rn * math.cos(u * an), rn * math.sin(u * an), 0.0))
b = ao + u * (math.pi / 2 - ao)
same("ogive arc", on(1), (ro * math.cos(b), h - ro + ro * math.sin(b), 0.0))
same("body line", on(2), (-u * L, h, 0.0))
same("base line", on(3), (-L, h * (1 - u), 0.0))
''')
    S(d, "circle patch", '''
from hypervehicle.components.common import circle_patch
R = real("R", 0.3, 3)
cx, cy = real("cx"), real("cy")
w = circle_patch(Vector3(cx, cy, 0.0), R)
def dist2(p):
    return (p[0] - cx) ** 2 + (p[1] - cy) ** 2
for side, p in [("south", w(r, 0.0)), ("north", w(r, 1.0)), ("east", w(1.0, s)), ("west", w(0.0, s))]:
    same(side + " side on the circle", dist2(xyz(p)), R * R)
    same(side + " side in the plane", xyz(p)[2], 0.0)
same("centre", xyz(w(0.5, 0.5)), (cx, cy, 0.0))
''')
