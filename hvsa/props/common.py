"""Driver texts shared by the properties."""

PRE = '''
import math
import numpy as np
from copy import deepcopy
from hypervehicle import Vehicle
from hypervehicle.components.component import Component
from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.surface import ParametricSurface
from hypervehicle.geometry.path import Path

class Surf(ParametricSurface):
    """Any surface: uninterpreted coordinates, fresh point per evaluation."""
    def __init__(self, tag):
        self.tag = tag
    def __repr__(self):
        return "Surf"
    def __call__(self, r, s):
        return Vector3(F(self.tag + ".x", r, s), F(self.tag + ".y", r, s), F(self.tag + ".z", r, s))

class Curve(Path):
    """Any path."""
    def __init__(self, tag):
        self.tag = tag
    def __repr__(self):
        return "Curve"
    def __call__(self, t):
        return Vector3(F(self.tag + ".x", t), F(self.tag + ".y", t), F(self.tag + ".z", t))

class Comp(Component):
    """Any component: one uninterpreted surface per tag."""
    componenttype = "wing"
    def __init__(self, tags, **kw):
        super().__init__(**kw)
        self.tags = tags
    def generate_patches(self):
        for t in self.tags:
            self.patches[t] = Surf(t)

def xyz(p):
    return (p.x, p.y, p.z)

def rot(p, a, ax):
    """Right-handed rotation of a coordinate triple about a coordinate axis."""
    c, s = math.cos(a), math.sin(a)
    x, y, z = p
    if ax == "x":
        return (x, c * y - s * z, s * y + c * z)
    if ax == "y":
        return (c * x + s * z, y, c * z - s * x)
    return (c * x - s * y, s * x + c * y, z)

def plus(p, q):
    return (p[0] + q[0], p[1] + q[1], p[2] + q[2])

def minus(p, q):
    return (p[0] - q[0], p[1] - q[1], p[2] - q[2])

def scale(p, k):
    return (p[0] * k, p[1] * k, p[2] * k)

def mir(p, ax):
    x, y, z = p
    if ax == "x":
        return (-x, y, z)
    if ax == "y":
        return (x, -y, z)
    return (x, y, -z)

def vec(n):
    return Vector3(real(n + "x"), real(n + "y"), real(n + "z"))

def at(c, r, s):
    """Points of all patches of a component, by key."""
    return {k: xyz(p(r, s)) for k, p in c.patches.items()}

def flat(p):
    return tuple(k for q in p for k in q)

r = real("r", 0, 1)
s = real("s", 0, 1)
t = real("t", 0, 1)
DEG = math.pi / 180
'''

# every surface class of the library, and components made of them
KINDS = '''
from hypervehicle.geometry.geometry import (RotatedPatch, MirroredPatch, OffsetPatchFunction, CurvedPatch, ConePatch, RevolvedPatch, SweptPatchfromEdges,
    CubePatch, SpherePatch, FlatLeadingEdgePatchFunction, SubRangedPath, ReversedPath)
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.geometry.path import Line
from hypervehicle.components import Cube, Sphere, RevolvedComponent, SweptComponent
def kinds():
    def off(x, y, z):
        return Vector3(F("kx", x, y, z), F("ky", x, y, z), F("kz", x, y, z))
    def prof(x, y):
        return F("kf", x, y)
    def slope(x, y):
        return F("kd", x, y)
    q = [vec("k" + str(i)) for i in range(4)]
    k = {}
    for ax in ("x", "y", "z"):
        k["rotated " + ax] = RotatedPatch(Surf("P"), real("ka"), axis=ax, point=vec("kp"))
        k["rotated about the origin " + ax] = RotatedPatch(Surf("P"), real("ka"), axis=ax)
        k["mirrored " + ax] = MirroredPatch(Surf("P"), axis=ax)
    k["offset"] = OffsetPatchFunction(Surf("P"), off)
    k["curved x"] = CurvedPatch(Surf("P"), "x", prof, slope)
    k["curved y"] = CurvedPatch(Surf("P"), "y", prof, slope)
    k["quadrilateral"] = CoonsPatch(p00=q[0], p10=q[1], p11=q[2], p01=q[3])
    k["edges"] = CoonsPatch(north=Line(q[3], q[2]), south=Line(q[0], q[1]), east=Line(q[1], q[2]), west=Line(q[0], q[3]))
    k["cone"] = ConePatch(real("kx0"), real("kx1"), real("kr0", 0.1, 2), real("kr1", 0.1, 2), 0.25, 1.5)
    k["revolved"] = RevolvedPatch(Curve("K"), 0.5, 2.0)
    k["revolved line"] = RevolvedPatch(Line(q[0], q[1]), 0.5, 2.0)
    k["swept"] = SweptPatchfromEdges([Curve("K"), Curve("M")])
    k["cube face"] = CubePatch(real("kh", 0.1, 2), vec("kc"), "top")
    k["sphere face"] = SpherePatch(real("kh", 0.1, 2), vec("kc"), "east")
    k["flat edge"] = FlatLeadingEdgePatchFunction(Curve("K"), Curve("M"), 0.25, 0.75)
    return k
class Kinds(Component):
    """A component with a patch of every kind."""
    componenttype = "wing"
    def generate_patches(self):
        self.patches = kinds()
def parts():
    """Components of the library's own classes."""
    return [Kinds(verbosity=0), Cube(real("kh", 0.1, 2), vec("kc"), verbosity=0), Sphere(real("kh", 0.1, 2), vec("kc"), verbosity=0),
            RevolvedComponent(Line(vec("k0"), vec("k1")), verbosity=0),
            SweptComponent([[Line(Vector3(0.0, 0.0, z), Vector3(1.0, 0.0, z)), Line(Vector3(1.0, 0.0, z), Vector3(0.0, 1.0, z)), Line(Vector3(0.0, 1.0, z), Vector3(0.0, 0.0, z))] for z in (0.0, 2.0)], close_ends=False, verbosity=0)]
def made(c):
    c.generate_patches()
    return c
'''

METHOD = ("Interprocedural abstract interpretation of the current source in a gated value-numbering domain "
          "(each statement interpreted once per calling context on a joined state, no path enumeration): the value the library "
          "computes for fully symbolic inputs is reduced to a term and compared with the term the property demands. ")


def S(d, name, text, **kw):
    return d.scenario(name, PRE + text, **kw)
