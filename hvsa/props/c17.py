from .common import S, METHOD
from .c06 import USE

RULE = "output discipline: the sequence of write effects equals one save of the current facets per non-ghost component under its documented name"
EXPLANATION = METHOD + "Every file effect of the library is recorded as an event with its path and content. Contexts: all mixes of named, unnamed and ghost components of two types (2-5 components), prefix given, empty or absent, symbolic prefix, vehicle and component names, analysis results and user properties present or absent, merging on or off."

OUT = USE + '''
class Body(Fresh):
    componenttype = "revolved"
def fleet(spec, vname=None):
    """spec: (class, name, ghost) per component."""
    v = Vehicle()
    v.configure(name=vname, verbosity=0)
    cs = []
    for i, (k, nm, gh) in enumerate(spec):
        c = k(["S%d" % i], stl_resolution=1, verbosity=0)
        c._multiprocess = False
        v.add_component(c, name=nm, ghost=gh)
        cs.append(c)
    return v, cs
def title(spec, i, prefix, vname):
    """Documented file name of component i."""
    k, nm, gh = spec[i]
    no = len([1 for q in spec[:i] if q[0] is k])
    kind = "wing" if k is Fresh else "revolved"
    if nm:
        return prefix + "-" + nm + ".stl" if prefix else nm + ".stl"
    return (prefix if prefix else vname) + "-" + kind + "-" + str(no) + ".stl"
def saves():
    return events("write", "path", "vectors", "how")
def stls():
    return [e for e in saves() if e[2] == "stl"]
def others():
    return [e for e in saves() if e[2] != "stl" and e[2] != "mkdir"]
def verify(spec, prefix=None, vname="vehicle", **kw):
    v, cs = fleet(spec, None if vname == "vehicle" else vname)
    v.generate()
    clear_events()
    if prefix is None:
        v.to_stl(**kw)
    else:
        v.to_stl(prefix, **kw)
    ws = stls()
    want = [i for i in range(len(spec)) if not spec[i][2]]
    check("one file per non-ghost component", len(ws) == len(want))
    for e, i in zip(ws, want):
        same("file name", e[0], title(spec, i, prefix, vname))
        same_facets("file content", e[1], now(cs[i]))
    return v, [title(spec, i, prefix, vname) for i in want]
'''


def run(d):
    for pre in ("None", '"pre"', '""', 'string("pre")'):
        S(d, "mixes, prefix %s" % pre, OUT + '''
for spec in ([(Fresh, "a", False), (Fresh, None, False), (Body, "b", False), (Fresh, None, False), (Body, None, False)],
             [(Fresh, None, False), (Fresh, None, True), (Fresh, None, False)],
             [(Fresh, None, True), (Body, None, False), (Fresh, "n", True), (Fresh, None, False)],
             [(Body, "n", False), (Body, "m", True), (Body, None, False), (Body, "k", False)],
             [(Fresh, None, True)],
             [(Fresh, "w", False)]):
    verify(spec, %s)
    check("nothing else written", len(others()) == 0)
''' % pre)
    S(d, "names", OUT + '''
n0, n1, vn = string("n0"), string("n1"), string("vn")
assume(n0 != "")
assume(n1 != "")
verify([(Fresh, n0, False), (Body, n1, False), (Fresh, None, False)], None, vn)
verify([(Fresh, n0, False), (Body, None, False), (Fresh, None, False)], "pre", vn)
verify([(Fresh, None, False), (Fresh, None, False), (Body, None, False), (Fresh, None, False)], None, "ship")
c = Fresh(["S"], stl_resolution=1, verbosity=0, name="own")
c._multiprocess = False
for pre, want in ((None, "own.stl"), ("p", "p-own.stl")):
    v = Vehicle()
    v.configure(verbosity=0)
    v.add_component(c)
    v.generate()
    clear_events()
    v.to_stl(pre)
    ws = stls()
    check("own name", len(ws) == 1 and ws[0][0] == want)
''')
    S(d, "twice", OUT + '''
spec = [(Fresh, None, False), (Fresh, "b", False), (Body, None, True), (Fresh, None, False)]
v, cs = fleet(spec)
v.generate()
for pre in (None, "second", None):
    clear_events()
    v.to_stl(pre)
    ws = stls()
    check("every write saves every component", len(ws) == 3)
    for e, i in zip(ws, (0, 1, 3)):
        same("file name on writing again", e[0], title(spec, i, pre, "vehicle"))
        same_facets("file content on writing again", e[1], now(cs[i]))
clear_events()
cs[0].to_stl("one.stl")
ws = stls()
check("a component writes itself", len(ws) == 1 and ws[0][0] == "one.stl")
same_facets("content of a component", ws[0][1], now(cs[0]))
clear_events()
cs[2].to_stl("two.stl")
cs[0].to_stl()
check("ghost or nameless component writes nothing", len(saves()) == 0)
''')
    for pre in (None, "pre"):
        S(d, "results, prefix %r" % pre, OUT + '''
import os
spec = [(Fresh, "a", False), (Body, None, True), (Fresh, None, False)]
pre = %r
base = pre if pre else "ship"
v, cs = fleet(spec, "ship")
v.analyse_after_generating({"a": real("rho0", 1, 2), "revolved_1": real("rho1", 1, 2), "wing_2": real("rho2", 1, 2)})
v.generate()
clear_events()
v.to_stl(pre)
check("components still written", [e[0] for e in stls()] == [title(spec, i, pre, "ship") for i in (0, 2)])
fs = {e[0]: e for e in events("write", "path", "value", "how") if e[2] != "stl" and e[2] != "mkdir"}
D = base + "_properties"
check("analysis files", sorted(fs) == sorted([os.path.join(D, base + x) for x in ("_volmass.csv", "_cog.txt", "_moi.txt")]))
same("centre of gravity file", [fs[os.path.join(D, base + "_cog.txt")][1][k] for k in range(3)], [v.cog[k] for k in range(3)])
moi = fs[os.path.join(D, base + "_moi.txt")][1]
same("inertia file", [[moi[k][l] for l in range(3)] for k in range(3)], [[v.moi[k][l] for l in range(3)] for k in range(3)])
vm = fs[os.path.join(D, base + "_volmass.csv")][1]
for k in ("a", "revolved_1", "wing_2", "vehicle"):
    same("mass and volume file", [vm.loc[k, x] for x in ("mass", "volume", "area")], [v._volmass.loc[k, x] for x in ("mass", "volume", "area")])
v, cs = fleet(spec, "ship")
q1, q2 = real("q1"), real("q2")
v.add_property("first", q1)
v.add_property("second", q2)
v.generate()
clear_events()
v.to_stl(pre)
fs = [e for e in events("write", "path", "value", "how") if e[2] != "stl" and e[2] != "mkdir"]
check("properties file only", [e[0] for e in fs] == [os.path.join(D, base + "_properties.csv")])
same("properties", [fs[0][1].loc["first"], fs[0][1].loc["second"]], [q1, q2])
check("one entry per property", len(fs[0][1]) == 2)
exists(D)
clear_events()
v.to_stl(pre)
check("existing folder is not made again", len([e for e in saves() if e[2] == "mkdir"]) == 0)
check("written into the existing folder", len(others()) == 1)
''' % pre)
    S(d, "merge", OUT + '''
for pre in (None, "pre"):
    for spec in ([(Fresh, "a", False), (Fresh, None, False), (Body, None, True), (Fresh, None, False)],
                 [(Body, None, True), (Body, None, False), (Fresh, "b", True), (Body, None, False)]):
        v, names = verify(spec, pre, "ship", merge=True)
        check("merges the files written", [e[0] for e in events("read", "path")] == names)
        ms = [e for e in saves() if e[2] == "merged"]
        check("one merged file", [e[0] for e in ms] == [(pre if pre else "ship") + ".stl"])
        kinds = [e[2] for e in saves()]
        check("merged after writing", kinds == ["stl"] * len(names) + ["merged"])
        verify(spec, pre, "ship", merge=False)
        check("no merging unless asked", len(others()) == 0)
''')
