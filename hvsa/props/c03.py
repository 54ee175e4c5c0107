from .common import S, METHOD, KINDS

RULE = "offset-term equality: a displaced point equals the underlying point plus the offset function at that same point"
EXPLANATION = METHOD + "Contexts: offset surface, offset path and mean path with uninterpreted offset functions; component translation by vector and function, modifier function, component and vehicle translation, with 1-3 uninterpreted patches."


def run(d):
    S(d, "offset surface and path", '''
from hypervehicle.geometry.geometry import OffsetPatchFunction, OffsetPathFunction, GeometricMeanPathFunction
def f(x, y, z):
    return Vector3(F("fx", x, y, z), F("fy", x, y, z), F("fz", x, y, z))
def g(x, y):
    return Vector3(F("gx", x, y), F("gy", x, y), F("gz", x, y))
u = Surf("S")
p = xyz(u(r, s))
w = OffsetPatchFunction(u, f)
same("offset surface", xyz(w(r, s)), plus(p, xyz(f(p[0], p[1], p[2]))))
same("offset surface evaluated again", xyz(w(r, s)), plus(p, xyz(f(p[0], p[1], p[2]))))
c = Curve("C")
q = xyz(c(t))
w = OffsetPathFunction(c, g)
same("offset path", xyz(w(t)), plus(q, xyz(g(q[0], q[1]))))
same("offset path evaluated again", xyz(w(t)), plus(q, xyz(g(q[0], q[1]))))
q2 = xyz(Curve("D")(t))
same("mean path", xyz(GeometricMeanPathFunction(c, Curve("D"))(t)), scale(plus(q, q2), 0.5))
''')
    S(d, "offset of shared point objects", '''
from hypervehicle.geometry.geometry import OffsetPatchFunction, OffsetPathFunction
class Fixed(ParametricSurface):
    def __init__(self):
        self.p = vec("p")
    def __call__(self, r, s):
        return self.p
class FixedLine(Path):
    def __init__(self):
        self.p = vec("p")
    def __call__(self, t):
        return self.p
o = vec("o")
w = OffsetPatchFunction(Fixed(), lambda x, y, z: o)
w(r, s)
same("surface with stored point", xyz(w(r, s)), plus(xyz(vec("p")), xyz(vec("o"))))
w = OffsetPathFunction(FixedLine(), lambda x, y: o)
w(t)
same("path with stored point", xyz(w(t)), plus(xyz(vec("p")), xyz(vec("o"))))
same("stored offset unchanged", xyz(o), xyz(vec("o")))
''')
    S(d, "component translation", '''
def f(x, y, z):
    return Vector3(F("fx", x, y, z), F("fy", x, y, z), F("fz", x, y, z))
tags = ("P", "Q", "R")
def moved(k, fun):
    p = xyz(Surf(k)(r, s))
    return plus(p, xyz(fun(p[0], p[1], p[2])))
o = vec("o")
c = Comp(tags)
c.generate_patches()
c.translate(o)
same("translation by a vector", at(c, r, s), {k: plus(xyz(Surf(k)(r, s)), xyz(vec("o"))) for k in tags})
c = Comp(tags)
c.generate_patches()
c.translate(offset=f)
same("translation by a function", at(c, r, s), {k: moved(k, f) for k in tags})
c = Comp(tags)
c.generate_patches()
c.translate(vec("o"))
c.translate(vec("w"))
same("translations add up", at(c, r, s), {k: plus(plus(xyz(Surf(k)(r, s)), xyz(vec("o"))), xyz(vec("w"))) for k in tags})
c = Comp(tags)
c.generate_patches()
c.apply_modifier()
same("no modifier", at(c, r, s), {k: xyz(Surf(k)(r, s)) for k in tags})
v = Vehicle()
v.configure(verbosity=0)
cs = [Comp(tags, verbosity=0), Comp(["T"], verbosity=0), Comp(["U", "V"], verbosity=0)]
v.add_component(cs[0], modifier_function=f)
v.add_component(cs[1], transformations=[("translate", o)])
v.add_component(cs[2], transformations=[("translate", f)])
v.generate()
same("generated with modifier and translations", [at(c, r, s) for c in cs],
     [{k: moved(k, f) for k in tags}, {"T": plus(xyz(Surf("T")(r, s)), xyz(o))}, {k: moved(k, f) for k in ("U", "V")}])
v = Vehicle()
v.configure(verbosity=0)
cs = [Comp(tags, verbosity=0), Comp(["T"], verbosity=0)]
for c in cs:
    v.add_component(c)
v.add_vehicle_transformations([("translate", o), ("translate", f)])
v.generate()
def both(k):
    p = plus(xyz(Surf(k)(r, s)), xyz(o))
    return plus(p, xyz(f(p[0], p[1], p[2])))
same("vehicle translated twice", [at(c, r, s) for c in cs], [{k: both(k) for k in tags}, {"T": both("T")}])
v.transform([("translate", o)])
same("vehicle translated again", [at(c, r, s) for c in cs], [{k: plus(both(k), xyz(o)) for k in tags}, {"T": plus(both("T"), xyz(o))}])
''')
    S(d, "any kind of surface", KINDS + '''
def f(x, y, z):
    return Vector3(F("fx", x, y, z), F("fy", x, y, z), F("fz", x, y, z))
def moved(p):
    return plus(p, xyz(f(p[0], p[1], p[2])))
for c, e in zip(parts(), parts()):
    e = at(made(e), r, s)
    made(c).translate(vec("o"))
    same("translated", at(c, r, s), {k: plus(p, xyz(vec("o"))) for k, p in e.items()})
    c.translate(f)
    same("translated, then displaced", at(c, r, s), {k: moved(plus(p, xyz(vec("o")))) for k, p in e.items()})
for c, e in zip(parts(), parts()):
    e = at(made(e), r, s)
    made(c)._modifier_function = f
    c.apply_modifier()
    same("modified", at(c, r, s), {k: moved(p) for k, p in e.items()})
    c.translate(f)
    same("modified, then displaced", at(c, r, s), {k: moved(moved(p)) for k, p in e.items()})
for k, u in kinds().items():
    same(k + " displaced", xyz(OffsetPatchFunction(u, f)(r, s)), moved(xyz(u(r, s))))
''')
