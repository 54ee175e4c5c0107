from .common import S, METHOD, KINDS

RULE = "mirror-term equality and exact patch sets after reflection"
EXPLANATION = METHOD + "Contexts: mirrored surface per axis and case; component reflection appended and replacing with 1-3 uninterpreted patches, with stored and passed axes, through the component and through the vehicle."


def run(d):
    S(d, "mirrored surface", '''
from hypervehicle.geometry.geometry import MirroredPatch
for ax in ("x", "y", "z", "X", "Y", "Z"):
    u = Surf("S")
    w = MirroredPatch(u, axis=ax)
    q = w(r, s)
    same("mirror in " + ax, xyz(q), mir(xyz(u(r, s)), ax.lower()))
    same("evaluated again in " + ax, xyz(w(r, s)), mir(xyz(u(r, s)), ax.lower()))
    same("twice is the identity in " + ax, xyz(MirroredPatch(w, ax)(r, s)), xyz(u(r, s)))
same("default axis", xyz(MirroredPatch(Surf("S"))(r, s)), mir(xyz(Surf("S")(r, s)), "x"))
''')
    S(d, "mirrored surface returning a stored point", '''
from hypervehicle.geometry.geometry import MirroredPatch
class Fixed(ParametricSurface):
    def __init__(self):
        self.p = Vector3(real("px"), real("py"), real("pz"))
    def __call__(self, r, s):
        return self.p
for ax in ("x", "y", "z"):
    u = Fixed()
    w = MirroredPatch(u, ax)
    w(r, s)
    same("stored point mirrored in " + ax, xyz(w(r, s)), mir((real("px"), real("py"), real("pz")), ax))
''')
    S(d, "component reflection", '''
tags = ("P", "Q", "R")
def img(c, orig, ax):
    """Values of the patches that are not among the originals, in order."""
    return [xyz(p(r, s)) for k, p in c.patches.items() if k not in orig]
for ax in ("x", "y", "z", "Y"):
    c = Comp(tags)
    c.generate_patches()
    c.reflect(ax)
    same("appended, originals kept " + ax, [xyz(c.patches[k](r, s)) for k in tags], [xyz(Surf(k)(r, s)) for k in tags])
    same("appended, one image each " + ax, img(c, tags, ax), [mir(xyz(Surf(k)(r, s)), ax.lower()) for k in tags])
    c = Comp(tags)
    c.generate_patches()
    c._append_reflection = False
    c.reflect(ax)
    same("replacing, only images " + ax, [xyz(p(r, s)) for p in c.patches.values()], [mir(xyz(Surf(k)(r, s)), ax.lower()) for k in tags])
c = Comp(tags)
c.generate_patches()
c.reflect()
same("no axis, no reflection", at(c, r, s), {k: xyz(Surf(k)(r, s)) for k in tags})
''')
    S(d, "reflection through the vehicle", '''
for ax in ("x", "y", "z"):
    for other in (None, "x", "z"):
        v = Vehicle()
        v.configure(verbosity=0)
        c = Comp(["P", "Q"], verbosity=0)
        v.add_component(c, reflection_axis=ax)
        c.generate_patches()
        c.reflect(other)
        same("stored axis wins " + ax, [xyz(p(r, s)) for p in c.patches.values()],
             [xyz(Surf(k)(r, s)) for k in ("P", "Q")] + [mir(xyz(Surf(k)(r, s)), ax) for k in ("P", "Q")])
    v = Vehicle()
    v.configure(verbosity=0)
    cs = [Comp(["P", "Q"], verbosity=0), Comp(["R"], verbosity=0), Comp(["T"], verbosity=0)]
    v.add_component(cs[0], reflection_axis=ax)
    v.add_component(cs[1], reflection_axis=ax, append_reflection=False)
    v.add_component(cs[2], append_reflection=False)
    v.generate()
    same("generated with reflection " + ax, [[xyz(p(r, s)) for p in c.patches.values()] for c in cs],
         [[xyz(Surf(k)(r, s)) for k in ("P", "Q")] + [mir(xyz(Surf(k)(r, s)), ax) for k in ("P", "Q")], [mir(xyz(Surf("R")(r, s)), ax)], [xyz(Surf("T")(r, s))]])
''')
    S(d, "any kind of surface", KINDS + '''
for ax in ("x", "y", "z"):
    for app in (True, False):
        for c, e in zip(parts(), parts()):
            e = at(made(e), r, s)
            made(c)._append_reflection = app
            c.reflect(ax)
            same("reflected in " + ax, [xyz(p(r, s)) for p in c.patches.values()], ([p for p in e.values()] if app else []) + [mir(p, ax) for p in e.values()])
    for k, u in kinds().items():
        same(k + " mirrored in " + ax, xyz(MirroredPatch(u, ax)(r, s)), mir(xyz(u(r, s)), ax))
''')
    S(d, "reflected twice", '''
tags = ("P", "Q")
for a in ("x", "y", "z"):
    for b in ("x", "y", "z"):
        c = Comp(tags)
        c.generate_patches()
        c._append_reflection = False
        c.reflect(a)
        c.reflect(b)
        same("replaced in " + a + " then " + b, [xyz(p(r, s)) for p in c.patches.values()], [mir(mir(xyz(Surf(k)(r, s)), a), b) for k in tags])
        c = Comp(tags)
        c.generate_patches()
        c.reflect(a)
        c._append_reflection = False
        c.reflect(b)
        same("appended in " + a + " then replaced in " + b, [xyz(p(r, s)) for p in c.patches.values()], [mir(xyz(Surf(k)(r, s)), b) for k in tags] + [mir(mir(xyz(Surf(k)(r, s)), a), b) for k in tags])
        if a != b:
            c = Comp(tags)
            c.generate_patches()
            c.reflect(a)
            c.reflect(b)
            same("appended in " + a + " and " + b, [xyz(p(r, s)) for p in c.patches.values()],
                 [xyz(Surf(k)(r, s)) for k in tags] + [mir(xyz(Surf(k)(r, s)), a) for k in tags] + [mir(xyz(Surf(k)(r, s)), b) for k in tags] + [mir(mir(xyz(Surf(k)(r, s)), a), b) for k in tags])
''')
