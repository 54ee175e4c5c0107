from .common import S, METHOD, KINDS

RULE = "rotation-term equality: every coordinate of a rotated point equals the right-handed rotation of the unrotated point about the pivot"
EXPLANATION = METHOD + "Contexts: the rotated-surface class per axis name and case with symbolic angle, pivot and surface; component rotation, component transformations, vehicle transformations and vehicle angle offset with two or three uninterpreted patches."


def run(d):
    S(d, "rotated surface", '''
from hypervehicle.geometry.geometry import RotatedPatch
a = real("angle")
P = vec("pivot")
for ax in ("x", "y", "z", "X", "Y", "Z"):
    u = Surf("S")
    w = RotatedPatch(u, a, axis=ax, point=P)
    q = w(r, s)
    same("rotation about " + ax, xyz(q), plus(rot(minus(xyz(u(r, s)), xyz(P)), a, ax.lower()), xyz(P)))
    same("second evaluation about " + ax, xyz(w(r, s)), xyz(q))
    same("default pivot " + ax, xyz(RotatedPatch(u, a, ax)(r, s)), rot(xyz(u(r, s)), a, ax.lower()))
same("default axis", xyz(RotatedPatch(Surf("S"), a)(r, s)), rot(xyz(Surf("S")(r, s)), a, "x"))
same("pivot unchanged", xyz(P), (real("pivotx"), real("pivoty"), real("pivotz")))
same("nested rotations", xyz(RotatedPatch(RotatedPatch(Surf("S"), a, "x"), real("b"), "z")(r, s)), rot(rot(xyz(Surf("S")(r, s)), a, "x"), real("b"), "z"))
''')
    S(d, "surface returning a stored point", '''
from hypervehicle.geometry.geometry import RotatedPatch
class Fixed(ParametricSurface):
    def __init__(self):
        self.p = vec("p")
    def __call__(self, r, s):
        return self.p
a = real("angle")
for ax in ("x", "y", "z"):
    P = vec("pivot")
    u = Fixed()
    w = RotatedPatch(u, a, ax, P)
    q1 = xyz(w(r, s))
    q2 = xyz(w(r, s))
    same("same point again " + ax, q2, q1)
    same("underlying point unchanged " + ax, xyz(u(r, s)), xyz(vec("p")))
    same("pivot unchanged " + ax, xyz(P), xyz(vec("pivot")))
''')
    S(d, "component rotation", '''
a = real("deg", -400, 400)
b = real("deg2", -400, 400)
for ax in ("x", "y", "z", "X", "Y", "Z"):
    c = Comp(["P", "Q", "R"])
    c.generate_patches()
    c.rotate(a, ax)
    same("component rotation about " + ax, at(c, r, s), {k: rot(xyz(Surf(k)(r, s)), a * DEG, ax.lower()) for k in ("P", "Q", "R")})
c = Comp(["P", "Q"])
c.generate_patches()
c.rotate(angle=a)
same("default axis is y", at(c, r, s), {k: rot(xyz(Surf(k)(r, s)), a * DEG, "y") for k in ("P", "Q")})
c = Comp(["P", "Q"])
c.generate_patches()
c.rotate()
same("default angle is zero", at(c, r, s), {k: xyz(Surf(k)(r, s)) for k in ("P", "Q")})
c = Comp(["P", "Q"])
c.generate_patches()
c.rotate(a, axis="z")
c.rotate(b, axis="x")
same("rotations accumulate in order", at(c, r, s), {k: rot(rot(xyz(Surf(k)(r, s)), a * DEG, "z"), b * DEG, "x") for k in ("P", "Q")})
''')
    S(d, "rotation through the vehicle", '''
a = real("deg", -400, 400)
b = real("deg2", -400, 400)
def make(**kw):
    v = Vehicle()
    v.configure(verbosity=0)
    cs = [Comp(["P", "Q"], verbosity=0), Comp(["R"], verbosity=0)]
    for c in cs:
        v.add_component(c, **kw)
    return v, cs
for ax in ("x", "y", "z", "Z"):
    v, cs = make(transformations=[("rotate", a, ax)])
    v.generate()
    same("component transformation about " + ax, [at(c, r, s) for c in cs], [{k: rot(xyz(Surf(k)(r, s)), a * DEG, ax.lower()) for k in ks} for ks in (("P", "Q"), ("R",))])
    v, cs = make()
    v.generate()
    v.transform([("rotate", a, ax)])
    same("vehicle transformation about " + ax, [at(c, r, s) for c in cs], [{k: rot(xyz(Surf(k)(r, s)), a * DEG, ax.lower()) for k in ks} for ks in (("P", "Q"), ("R",))])
    v, cs = make()
    v.add_vehicle_transformations([("rotate", a, ax)])
    v.generate()
    same("added vehicle transformation about " + ax, [at(c, r, s) for c in cs], [{k: rot(xyz(Surf(k)(r, s)), a * DEG, ax.lower()) for k in ks} for ks in (("P", "Q"), ("R",))])
v, cs = make()
v.generate()
v.transform(("rotate", a))
same("single transformation, default axis", [at(c, r, s) for c in cs], [{k: rot(xyz(Surf(k)(r, s)), a * DEG, "y") for k in ks} for ks in (("P", "Q"), ("R",))])
v, cs = make()
v.vehicle_angle_offset = b
v.generate()
same("angle offset is a y rotation in degrees", [at(c, r, s) for c in cs], [{k: rot(xyz(Surf(k)(r, s)), b * DEG, "y") for k in ks} for ks in (("P", "Q"), ("R",))])
''')
    S(d, "any kind of surface", KINDS + '''
a, b = real("deg", -400, 400), real("deg2", -400, 400)
for ax in ("x", "y", "z"):
    for c, e in zip(parts(), parts()):
        e = at(made(e), r, s)
        made(c).rotate(a, ax)
        same("rotated about " + ax, at(c, r, s), {k: rot(p, a * DEG, ax) for k, p in e.items()})
        c.rotate(b, ax)
        same("rotated again about " + ax, at(c, r, s), {k: rot(p, (a + b) * DEG, ax) for k, p in e.items()})
    for k, u in kinds().items():
        p = xyz(u(r, s))
        same(k + " rotated about " + ax, xyz(RotatedPatch(u, a, ax, vec("o"))(r, s)), plus(rot(minus(p, xyz(vec("o"))), a, ax), xyz(vec("o"))))
''')
