from .common import S, METHOD, KINDS

RULE = "curvature-term equality: a curved point equals the bent uncurved point, curvatures composed in listed order"
EXPLANATION = METHOD + "Contexts: curved surface in x and y with uninterpreted profile and slope; component with 0-3 curvatures and 1-3 uninterpreted patches, directly and through the vehicle."


def run(d):
    S(d, "curved surface", BEND + '''
from hypervehicle.geometry.geometry import CurvedPatch
for dr in ("x", "y"):
    u = Surf("S")
    w = CurvedPatch(u, dr, f1, d1)
    same("curved in " + dr, xyz(w(r, s)), bend(xyz(u(r, s)), dr, f1, d1))
    same("evaluated again in " + dr, xyz(w(r, s)), bend(xyz(u(r, s)), dr, f1, d1))
    w = CurvedPatch(underlying_surf=u, direction=dr, fun=f1, fun_dash=d1)
    same("by keyword in " + dr, xyz(w(r, s)), bend(xyz(u(r, s)), dr, f1, d1))
    raises("profile missing " + dr, lambda: CurvedPatch(u, dr, None, d1)(r, s))
    raises("slope missing " + dr, lambda: CurvedPatch(u, dr, f1, None)(r, s))
''')
    S(d, "component curvature", BEND + '''
tags = ("P", "Q", "R")
lists = [[], [("x", f1, d1)], [("y", f1, d1)], [("x", f1, d1), ("y", f2, d2)], [("y", f2, d2), ("x", f1, d1), ("x", f2, d2)]]
for i, cs in enumerate(lists):
    v = Vehicle()
    v.configure(verbosity=0)
    c = Comp(tags, verbosity=0)
    v.add_component(c, curvatures=cs)
    c.generate_patches()
    c.curve()
    exp = {}
    for k in tags:
        p = xyz(Surf(k)(r, s))
        for q in cs:
            p = bend(p, q[0], q[1], q[2])
        exp[k] = p
    same("%d curvatures (list %d)" % (len(cs), i), at(c, r, s), exp)
    v = Vehicle()
    v.configure(verbosity=0)
    c = Comp(tags, verbosity=0)
    e = Comp(["T"], verbosity=0)
    v.add_component(c, curvatures=cs)
    v.add_component(e)
    v.generate()
    same("generated with list %d" % i, [at(c, r, s), at(e, r, s)], [exp, {"T": xyz(Surf("T")(r, s))}])
c = Comp(tags)
c.generate_patches()
c.curve()
same("no curvature", at(c, r, s), {k: xyz(Surf(k)(r, s)) for k in tags})
''')
    S(d, "any kind of surface", BEND + KINDS + '''
for dr in ("x", "y"):
    for c, e in zip(parts(), parts()):
        e = at(made(e), r, s)
        made(c)._curvatures = [(dr, f1, d1), ("x", f2, d2)]
        c.curve()
        same("curved in " + dr, at(c, r, s), {k: bend(bend(p, dr, f1, d1), "x", f2, d2) for k, p in e.items()})
    for k, u in kinds().items():
        same(k + " curved in " + dr, xyz(CurvedPatch(u, dr, f1, d1)(r, s)), bend(xyz(u(r, s)), dr, f1, d1))
''')


BEND = '''
def f1(x, y):
    return F("f1", x, y)
def d1(x, y):
    return F("d1", x, y)
def f2(x, y):
    return F("f2", x, y)
def d2(x, y):
    return F("d2", x, y)
def bend(p, dr, f, fd):
    x, y, z = p
    a = math.atan(fd(x, y))
    if dr == "x":
        return (x - z * math.sin(a), y, z * math.cos(a) + f(x, y))
    return (x, y - z * math.sin(a), z * math.cos(a) + f(x, y))
'''
