import ast
import os

from .common import S, METHOD
from . import vehicles

RULE = "generator congruence: every parameter reaches the attribute it names and every component of the created vehicle has the inputs its reference description gives for the same parameter values"
EXPLANATION = METHOD + "Contexts: the base generator and every hangar generator, each parameter overridden alone, all of them together, in reverse order and none, by symbolic values. A component is abstracted to an uninterpreted surface of the constructor arguments its class reads (points, paths and functions by their value at generic arguments, angles by sine and cosine), so two vehicles agree exactly when every component gets the same inputs and the same treatment."
ASSUMPTIONS = ["a component's shape is a function of the constructor arguments its class reads",
               "two functions or paths that agree at generic symbolic arguments are the same"]

WATCH = vehicles.HEAD + '''
fx, fy, fz, ft = real("fx", %s), real("fy", %s), real("fz", -1, 1), real("ft", 0.02, 0.98)
UNREAD = %r
def finger(name, v):
    """Numbers that stand for one constructor argument."""
    if v is None:
        return ["none"]
    if isinstance(v, bool) or isinstance(v, str):
        return [str(v).lower()]
    if isinstance(v, (int, float)):
        return [math.cos(v), math.sin(v)] if name.endswith("angle") else [v]
    if isinstance(v, Vector3):
        return list(xyz(v))
    if isinstance(v, Path):
        return list(xyz(v(ft)))
    if isinstance(v, (list, tuple)):
        out = [len(v)]
        for x in v:
            out += finger(name, x)
        return out
    n = arity(v)
    if n == 1:
        w = v(ft)
    elif n == 2:
        w = v(fx, fy)
    else:
        w = v(fx, fy, fz)
    return list(xyz(w)) if isinstance(w, Vector3) else [w]
class Shape(ParametricSurface):
    def __init__(self, kind, marks):
        self.kind = kind
        self.marks = marks
    def __call__(self, r, s):
        return Vector3(F(self.kind + ".x", r, s, *self.marks), F(self.kind + ".y", r, s, *self.marks), F(self.kind + ".z", r, s, *self.marks))
def watch(cls, kind):
    first = cls.__init__
    def init(self, *args, **kwargs):
        first(self, *args, **kwargs)
        self.given = bound(first, (self,) + args, kwargs)
    def shape(self):
        marks = []
        for k in self.given:
            if k not in UNREAD[kind]:
                marks += finger(k, self.given[k])
        self.patches = {"P": Shape(kind, marks)}
    cls.__init__ = init
    cls.generate_patches = shape
watch(Wing, "Wing")
watch(Fin, "Fin")
watch(RevolvedComponent, "RevolvedComponent")
watch(SweptComponent, "SweptComponent")
def points(c):
    return [xyz(p(r, s)) for p in c.patches.values()]
def agree(label, a, b):
    """Two vehicles are made of the same components."""
    names = list(b._named_components)
    same(label + ": components", list(a._named_components), names)
    check(label + ": all components", len(a.components) == len(b.components))
    a.configure(verbosity=0)
    b.configure(verbosity=0)
    a.generate()
    b.generate()
    for i in range(len(b.components)):
        x, y = a.components[i], b.components[i]
        same(label + ": resolution of " + names[i], x.stl_resolution, y.stl_resolution)
        same(label + ": shape of " + names[i], points(x), points(y))
'''

# generator, class, parameters with ranges the vehicle makes sense for, x and y ranges of its functions
HANGAR = {
    "wedge": ("ParametricWedge", dict(wingspan=(.5, 2), chord=(.5, 2), thickness=(.05, .3)), (0, 1), (0, 1)),
    "falcon9": ("ParametricFalcon9", dict(D=(3, 4), L_b=(40, 70), h=(2, 3), r_n=(.5, 1), r_o=(6, 8), f_L=(5, 7)), (0, 1), (0, 1)),
    "finner": ("ParametricFinner", dict(diameter=(.5, 2), total_length=(8, 12), nose_length=(2, 3), fin_height=(.5, 2), fin_length=(.5, 2), max_fin_thickness=(.05, .1)), (0, 1), (0, 1)),
    "hifire4": ("ParametricHIFiRE4", dict(x_curve_mult=(.1, .5), y_curve_mult=(.1, .9), R=(.15, .3), L_n=(1.5, 2.5), L_b=(3, 5)), (-6, 0), (0, 1)),
    "hifire8": ("ParametricHIFiRE8", dict(L=(1, 1.5), R_base=(.15, .2), R_nose=(.08, .12), nozzle_length=(.05, .2)), (1, 1.5), (0, .08)),
    "htv": ("ParametricHTV", dict(L=(.8, 1.2), body_width=(.4, .6), h=(.05, .15), t_LE=(.005, .02), flap_angle=(-20, 20), L_nom=(.8, 1.2), body_width_nom=(.7, .9), h_nom=(.1, .3), t_LE_nom=(.01, .04)), (.01, .75), (0, .3)),
    "d21": ("ParametricD21", dict(R_b=(.8, 1.2), L_b=(18, 22), L_w=(14, 17), W_w=(4, 6), flap_angle=(-20, 20), wing_stl_res=2, te_fin_stl_res=2), (-13, -.5), (0, 1)),
    "refex": ("ParametricReFEX", dict(h=(.2, .25), r_n=(.05, .1), r_o=(1.2, 1.8), L_o=(.02, .1), L_b=(2, 3), fin_thickness=(.01, .03), wing_length=(.7, 1.1), wing_span=(.3, .4), tail_height=(.3, .4), tail_thickness=(.01, .03), canard_angle=(-10, 10), cannard_shift="vec", generate_fuselage=bool, generate_wings=bool, generate_canards=bool, generate_tail=bool), (0, 1), (0, 1)),
    "waverider": ("ParametricWaverider", dict(length=(.8, 1.2), width=(.3, .4), le_width=(.001, .005), LE_thickness=(.001, .005), aoa=(-5, 5), fuse_stl_res=2, wing_stl_res=3, fin_stl_res=3, f1x=(.2, .3), f1y=(.05, .1), f2y=(.05, .1), p2x=(.3, .4), p2y=(.1, .15), p3x=(.8, .9), p3y=(.06, .1), u1y=(.08, .12), u2x=(.05, .07), u3x=(.1, .13), u3y=(.008, .012), flap_angle=(-.3, .3), flap_height=(.05, .2), a0_t=(.05, .1), tt_t=(.3, .4), w1x=(.05, .2), w1y=(.9, 1.1), w2x=(.05, .2), w2y=(.9, 1.1), x_curve_mult=(4.9, 5.1), y_curve_mult=(4.9, 5.1)), (.1, .7), (0, .1)),
    "x43": ("ParametricX43", dict(body_length=(3, 5), body_width=(.8, 1.5), body_angle=(-5, 5), wing_span=(.3, .5), wing_length=(.8, 1.2), wing_TE_back=(.2, .3), flap_length=(.2, .4), engine_h=(.05, .2), fin_height=(.2, .4), fin_length=(.8, 1.2), rudder_length=(.1, .3), flap_angle=(-20, 20), rudder_angle=(-20, 20)), (0, 3), (0, .5)),
}
SHAPES = {"Wing": "components/wing.py", "Fin": "components/fin.py", "RevolvedComponent": "components/revolved.py", "SweptComponent": "components/swept.py"}
BASE = {"stl_resolution", "verbosity", "name"}


def unread(src):
    """Constructor parameters of each component that nothing reads: they cannot shape it."""
    trees = []
    for root, _, files in os.walk(src):
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(root, f)) as h:
                    trees.append(ast.parse(h.read()))
    loads = {n.attr for t in trees for n in ast.walk(t) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    out = {}
    for cls in SHAPES:
        found = [n for t in trees for n in ast.walk(t) if isinstance(n, ast.ClassDef) and n.name == cls]
        if len(found) != 1:
            raise LookupError("component class %s: %d definitions" % (cls, len(found)))
        init = [m for m in found[0].body if isinstance(m, ast.FunctionDef) and m.name == "__init__"]
        names, used = set(), set()
        for m in init:
            names |= {a.arg for a in m.args.args + m.args.kwonlyargs}
            for s in m.body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                        used.add(n.id)
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and all(isinstance(t, ast.Attribute) and t.attr not in loads for t in s.targets):
                    used.discard(s.value.id)
        out[cls] = sorted((names - used) | BASE)
    return out


def value(k, spec):
    if spec is bool:
        return 'boolean("%s")' % k
    if spec == "vec":
        return 'vec("%s")' % k
    if isinstance(spec, int):
        return repr(spec)
    return 'real("%s", %s, %s)' % (k, spec[0], spec[1])


def run(d):
    S(d, "base generator", '''
from hypervehicle.generator import Generator
class Mine(Generator):
    fixed = 7
    def __init__(self, **kwargs):
        self.length = 3
        self.angle = 4.5
        self.parts = None
        super().__init__(**kwargs)
a, b, part = real("a"), real("b"), [1, 2]
g = Mine()
same("defaults", [g.length, g.angle, g.parts, g.fixed], [3, 4.5, None, 7])
g = Mine(angle=a)
same("one override", [g.length, g.angle, g.parts, g.fixed], [3, a, None, 7])
g = Mine(parts=part, length=b, angle=a, fixed=b, extra="more")
same("every override", [g.length, g.angle, g.parts, g.fixed, g.extra], [b, a, part, b, "more"])
check("the object given", g.parts is part)
h = Mine()
same("defaults again", [h.length, h.angle, h.parts, h.fixed], [3, 4.5, None, 7])
for v in (0, None, False, "", 0.0, []):
    g = Mine(length=v, angle=v, parts=v)
    check("empty values count", g.length is v and g.angle is v and g.parts is v)
def law(x): return F("law", x)
for v in (law, Mine, Vector3(a, b, a), Vector3, (1, 2), {"k": a}, "words", True, 3):
    g = Mine(length=v, more=v)
    check("any kind of value", g.length is v and g.more is v)
given = {"length": a, "angle": b}
snap = snapshot(given)
g = Mine(**given)
unchanged("the caller's dictionary", snap)
raises("no positional arguments", lambda: Mine(a), TypeError)
g = Generator(length=a, name="x")
same("plain generator", [g.length, g.name], [a, "x"])
''')
    skip = unread(d.src)
    for key, (cls, params, xr, yr) in HANGAR.items():
        head = "from hypervehicle.hangar import %s as Gen\n" % cls
        values = "dict(" + ", ".join("%s=%s" % (k, value(k, s)) for k, s in params.items()) + ")"
        S(d, "%s overrides" % key, head + '''
values = %s
base = dict(vars(Gen()))
for k in values:
    check("every parameter has a default", k in base)
    g = Gen(**{k: values[k]})
    now = dict(vars(g))
    for n in base:
        if n == k:
            same(k + " takes the given value", now[n], values[k])
        elif isinstance(base[n], (int, float, str, tuple)) or base[n] is None:
            same(k + " leaves the others", now[n], base[n])
g = Gen(**values)
for k in values:
    same(k + " together with the rest", getattr(g, k), values[k])
back = {}
for k in list(values)[::-1]:
    back[k] = values[k]
g = Gen(**back)
for k in values:
    same(k + " in any order", getattr(g, k), values[k])
''' % values)
        text = head + WATCH % ("%s, %s" % xr, "%s, %s" % yr, skip) + getattr(vehicles, key.upper())
        toggles = [k for k in params if params[k] is bool]
        for off in [None] + ([[k] for k in toggles] + [toggles] if toggles else []):
            fix = "".join("values[%r] = %r\n" % (k, k not in (off or [])) for k in toggles)
            S(d, "%s vehicle" % key + (" without " + ", ".join(off) if off else ""), text + '''
values = %s
%s
g = Gen(**values)
kept = dict(vars(g))
a = g.create_instance()
for k in values:
    same("creating keeps " + k, getattr(g, k), kept[k])
agree("overridden", a, Ref(**kept).vehicle())
agree("created again", g.create_instance(), Ref(**kept).vehicle())
''' % (values, fix))
        if key == "waverider":
            S(d, "waverider clustering", text + '''
values = dict(fuse_stl_res=3, f1x=real("f1x", .2, .3))
g = Gen(**values)
kept = dict(vars(g))
a, b = g.create_instance(), Ref(**kept).vehicle()
for v in (a, b):
    v.configure(verbosity=0)
    v.generate()
same("facets of the fuselage", a._named_components["fuselage"].mesh.vectors, b._named_components["fuselage"].mesh.vectors)
''')
        S(d, "%s nominal" % key, text + '''
kept = dict(vars(Gen()))
agree("nominal", Gen().create_instance(), Ref(**kept).vehicle())
''')
