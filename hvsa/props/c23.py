from .common import S, METHOD
from .c05 import FLOW

RULE = "option transfer: after adding, every stored option equals the supplied value when supplied and the component's own value otherwise, and the registry equals the addition history"
EXPLANATION = METHOD + "Contexts: all subsets of the options at once (presence of each is symbolic) on fresh and on already configured components, symbolic verbosities, additions of up to six components of every supported type, with given, own and generated names, refused types for vehicles and composites before, between and after additions. Options are judged by what the generated vehicle does with them as well as by the stored settings."

BODY = '''
from hypervehicle.components import Wing, Fin, RevolvedComponent, SweptComponent, CompositeComponent, Cube, Sphere
from hypervehicle.components import constants as K
def kind(t):
    class Any(Component):
        componenttype = t
        def generate_patches(self):
            self.patches = {}
    return Any
TYPES = ("fin", "wing", "swept", "revolved", "composite")
def fails(f):
    try:
        f()
    except Exception:
        return True
    return False
def f1(x): return F("f1", x)
def f2(x): return F("f2", x)
def g1(u): return F("g1", u)
def g2(u): return F("g2", u)
def m1(x, y, z): return Vector3(F("m1x", x, y, z), F("m1y", x, y, z), F("m1z", x, y, z))
def m2(x, y, z): return Vector3(F("m2x", x, y, z), F("m2y", x, y, z), F("m2z", x, y, z))
def settings(c):
    return {"axis": c._reflection_axis, "append": c._append_reflection, "curvatures": c._curvatures, "clustering": dict(c._clustering),
            "transformations": c._transformations, "modifier": c._modifier_function, "ghost": c._ghost, "name": c.name}
def base(c):
    c._reflection_axis = "x"
    c._append_reflection = False
    c._curvatures = [("y", f1, f2)]
    c._clustering = {"i_clustering_func": g1}
    c._transformations = [("rotate", 3.0, "z")]
    c._modifier_function = m1
'''


def run(d):
    for conf in (False, True):
        S(d, "options of a %s component" % ("configured" if conf else "fresh"), BODY + '''
W = kind("wing")
CU = [("x", f2, f1)]
CL = {"j_clustering_func": g2}
TR = [("translate", m2), ("rotate", 5.0, "x")]
has = {k: boolean("has " + k) for k in ("axis", "curvatures", "clustering", "transformations", "modifier", "name")}
append = boolean("append")
ghost = boolean("ghost")
def given(k, v):
    return v if has[k] else None
c = W(verbosity=0, name="own")
if %r:
    base(c)
was = settings(c)
v = Vehicle()
v.configure(verbosity=0)
v.add_component(c, name=given("name", "given"), reflection_axis=given("axis", "y"), append_reflection=append,
                curvatures=given("curvatures", CU), clustering=given("clustering", CL),
                transformations=given("transformations", TR), modifier_function=given("modifier", m2), ghost=ghost)
got = settings(c)
def want(k, v, w):
    return v if has[k] else w
same("reflection axis", got["axis"], want("axis", "y", was["axis"]))
same("appending", got["append"], want("axis", append, was["append"]))
same("curvatures", got["curvatures"], want("curvatures", CU, was["curvatures"]))
merged = dict(was["clustering"])
if has["clustering"]:
    merged.update(CL)
same("clustering", got["clustering"], merged)
same("transformations", got["transformations"], want("transformations", TR, was["transformations"]))
m = got["modifier"]
w = want("modifier", m2, was["modifier"])
same("modifier", xyz(m(r, s, t)) if m is not None else None, xyz(w(r, s, t)) if w is not None else None)
same("ghost", got["ghost"], ghost)
same("name", got["name"], want("name", "given", "own"))
check("registered under its name", list(v._named_components) == [want("name", "given", "own")])
c = W(verbosity=0, name="own")
if %r:
    base(c)
was = settings(c)
v.add_component(c)
same("nothing supplied", settings(c), was)
v.add_component(c, reflection_axis="z")
same("reflection appended unless told otherwise", [c._reflection_axis, c._append_reflection], ["z", True])
v.add_component(c, clustering={"i_clustering_func": g2, "j_clustering_func": g1})
v.add_component(c, curvatures=[], transformations=[])
same("nothing left of the curvatures and transformations", [len(c._curvatures), len(c._transformations)], [0, 0])
u = real("u", 0, 1)
same("both clusterings", [c._clustering["i_clustering_func"](u), c._clustering["j_clustering_func"](u), len(c._clustering)], [F("g2", u), F("g1", u), 2])
''' % (conf, conf))
    S(d, "options act", FLOW + '''
CV = [("x", f1, d1)]
MV = [("rotate", a1, "z"), ("translate", m2)]
for axis, append in ((None, True), ("y", True), ("y", False)):
    for cv in (None, CV):
        for mv in (None, MV):
            for mo in (None, m1):
                for set1 in (False, True):
                    v = vehicle()
                    c = Fresh(["P"], verbosity=0)
                    if set1:
                        w = vehicle()
                        w.add_component(c, name="own", reflection_axis="x", append_reflection=False, curvatures=[("y", f2, d2)], transformations=[("rotate", a2, "x")], modifier_function=m2)
                    v.add_component(c, reflection_axis=axis, append_reflection=append, curvatures=cv, transformations=mv, modifier_function=mo)
                    v.generate()
                    if set1:
                        want = expected(["P"], 0, mo if mo else m2, cv if cv else [("y", f2, d2)], axis if axis else "x", append if axis else False, mv if mv else [("rotate", a2, "x")])
                    else:
                        want = expected(["P"], 0, mo, cv if cv else [], axis, append, mv if mv else [])
                    same("generated with the options", points(c), want)
''')
    S(d, "ghosts act", FLOW + '''
g = boolean("g")
v = vehicle()
c = Fresh(["P"], stl_resolution=1, verbosity=0)
e = Fresh(["Q"], stl_resolution=1, verbosity=0)
v.add_component(c, name="c", ghost=g)
v.add_component(e, name="e")
n = v.get_non_ghost_components()
same("ghost left out", "c" in n, not g)
same("number of non-ghost components", len(n), 1 if g else 2)
check("non-ghost component objects", v.get_non_ghost_components()["e"] is e)
w = vehicle()
w.add_component(c, name="c")
check("not a ghost unless asked", "c" in w.get_non_ghost_components())
''')
    S(d, "verbosity", BODY + '''
W = kind("swept")
cv = integer("cv", 0, 5)
vv = integer("vv", 0, 5)
c = W(verbosity=cv)
v = Vehicle()
v.verbosity = vv
v.add_component(c)
same("verbosity", c.verbosity, 0 if vv == 0 else max(cv, vv))
c = W(verbosity=cv)
k = CompositeComponent(verbosity=vv)
k.add_component(c)
same("verbosity in a composite", c.verbosity, 0 if vv == 0 else max(cv, vv))
''')
    S(d, "history", BODY + '''
v = Vehicle()
v.configure(verbosity=0)
seq = [("wing", None, None), ("wing", "a", None), ("fin", None, "own"), ("wing", None, None), ("revolved", "b", "own2"),
       ("swept", None, None), ("composite", None, None), ("fin", None, None), ("wing", None, "x"), ("swept", "c", None)]
cs = []
count = {}
names = []
for i, (t, given, own) in enumerate(seq):
    c = kind(t)(verbosity=0, name=own)
    cs.append(c)
    check("unsupported type refused", fails(lambda: v.add_component(kind("blob")(verbosity=0), name="bad", ghost=True)))
    check("refused addition leaves the vehicle alone", len(v.components) == i and len(v._named_components) == i and "bad" not in v._named_components)
    v.add_component(c, name=given)
    count[t] = count.get(t, 0) + 1
    names.append(given if given else own if own else t + "_" + str(count[t]))
    check("insertion order", len(v.components) == i + 1 and all(v.components[k] is cs[k] for k in range(i + 1)))
    check("registered names", list(v._named_components) == names)
    check("registered components", all(v._named_components[names[k]] is cs[k] for k in range(i + 1)))
    same("counts", v._component_counts, count)
    check("enumerated", v._enumerated_components[t + "_" + str(count[t])] is c and len(v._enumerated_components) == i + 1)
    check("generated names are not stored", c.name == (given if given else own))
bad = kind("blob")(verbosity=0)
was = settings(bad)
check("refused", fails(lambda: v.add_component(bad, name="n", reflection_axis="y", ghost=True, transformations=[("rotate", 1.0, "x")])))
same("refused component keeps its settings", settings(bad), was)
same("counts after refusal", v._component_counts, count)
''')
    S(d, "supported types", BODY + '''
for t in ("fin", "wing", "swept", "revolved", "composite", "sphere", "cube", "blob", None):
    v = Vehicle()
    v.configure(verbosity=0)
    c = kind(t)(verbosity=0)
    ok = not fails(lambda: v.add_component(c))
    check("vehicle takes " + str(t), ok == (t in TYPES))
    check("stored only when taken " + str(t), len(v.components) == (1 if ok else 0))
    same("counted only when taken " + str(t), v._component_counts, {t: 1} if ok else {})
    k = CompositeComponent(verbosity=0)
    c = kind(t)(verbosity=0)
    ok = not fails(lambda: k.add_component(c))
    check("composite takes " + str(t), ok == (t in ("fin", "wing", "swept", "revolved", "sphere", "cube")))
    check("child only when taken " + str(t), len(k.components) == (1 if ok else 0))
''')
    S(d, "composite", BODY + '''
CU = [("x", f2, f1)]
TR = [("translate", m2), ("rotate", 5.0, "x")]
has = {k: boolean("has " + k) for k in ("axis", "curvatures", "transformations")}
append = boolean("append")
def given(k, v, w=None):
    return v if has[k] else w
k = CompositeComponent(verbosity=0)
for n, conf in enumerate((False, True)):
    c = kind("swept")(verbosity=0)
    if conf:
        base(c)
    was = settings(c)
    k.add_component(c, reflection_axis=given("axis", "y"), append_reflection=append, curvatures=given("curvatures", CU), transformations=given("transformations", TR))
    got = settings(c)
    same("reflection axis", got["axis"], given("axis", "y", was["axis"]))
    same("appending", got["append"], given("axis", append, was["append"]))
    same("curvatures", got["curvatures"], given("curvatures", CU, was["curvatures"]))
    same("transformations", got["transformations"], given("transformations", TR, was["transformations"]))
    check("children in order", len(k.components) == n + 1 and k.components[n] is c)
''')
