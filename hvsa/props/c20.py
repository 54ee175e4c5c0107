from .common import S, METHOD
from .c19 import STUDY

RULE = "every row of the combined tables and of every exported file pairs one vertex with that vertex's own derivatives; the set of files is the documented one"
EXPLANATION = METHOD + ("Contexts: studies of one to three parameters over any generator, with distinct vertices, shared vertices and vertices that coincide in the nominal shape only; the combined tables and the tables, paths and index options "
                        "of every recorded file write are compared with the differences of independently built vehicles.")

FILES = STUDY + '''
import os
def rows(df, label, params, over, h, c):
    """Each vertex has a row; each row holds one vertex and its derivatives for every parameter."""
    todo = list(study(params, over, h))
    a = todo[0][2]._named_components[c].mesh.vectors
    spots = corners(a)
    same(label + ": one row per vertex", len(df), len(spots))
    same(label + ": columns", sorted(df.columns), sorted(["x", "y", "z"] + [x + n for n in params for x in ("dxd", "dyd", "dzd")]))
    same(label + ": coordinates first", list(df.columns)[:3], ["x", "y", "z"])
    for i, k in spots:
        row = line(df, a[i][k][Part.axis])
        same(label + ": vertex", (row["x"], row["y"], row["z"]), tuple(a[i][k]))
        for n, dp, nom, per in todo:
            b = per._named_components[c].mesh.vectors
            same(label + ": derivative", (row["dxd" + n], row["dyd" + n], row["dzd" + n]), tuple((b[i][k][m] - a[i][k][m]) / dp for m in range(3)))
def written():
    return {e[1]: e for e in events("write", "how", "path", "value", "index") if e[0] != "mkdir" and e[0] != "stl"}
'''
SPLIT = '''
class Bow(Component):
    componenttype = "wing"
    def __init__(self, p, q):
        super().__init__(stl_resolution=1, verbosity=0)
        self._multiprocess = False
        self.p, self.q = p, q
    def generate_patches(self):
        p, q = self.p, self.q
        self.patches = {"a": lambda u, w: Vector3(10 * u * p, w * (q - 2.0), z) if Make.along else Vector3(10 * w * p, u * (q - 2.0), z)}
class Make:
    along = True
    def __init__(self, p, q):
        self.p, self.q = p, q
    def create_instance(self):
        v = Vehicle()
        v.add_component(Bow(self.p, self.q), name="bow")
        return v
z = real("z")
'''


def run(d):
    for label, setup in [("one parameter", "params, over = {'p': p}, {}"), ("two parameters", "params, over = {'p': p, 'q': q}, {'o': o}"),
                         ("three parameters", "params, over = {'w': w, 'p': p, 'q': q}, {}"),
                         ("vertices along y", "Part.axis = 1\nparams, over = {'p': p, 'q': q}, {}"), ("vertices along z", "Part.axis = 2\nparams, over = {'p': p, 'q': q}, {}")]:
        S(d, "combined tables, " + label, FILES + setup + '''
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp(params, over, h, False)
same("components", sorted(st.component_sensitivities), ["body", "tail"])
for c in ("body", "tail"):
    rows(st.component_sensitivities[c], c, params, over, h, c)
''')
    S(d, "coincident vertices that part", FILES + SPLIT + '''
for params, along in (({"p": 1.0, "q": 2.0}, True), ({"q": 2.0, "p": 1.0}, True), ({"p": 1.0, "q": 2.0}, False), ({"q": 2.0, "p": 1.0}, False)):
    Make.along = along
    st = SensitivityStudy(Make, verbosity=0)
    st.dvdp(params, None, 50, False)
    df = st.component_sensitivities["bow"]
    for j in range(len(df)):
        row = df.iloc[j]
        ok = [(u, w) for u, w in ((0, 0), (1, 0), (0, 1), (1, 1), (0.5, 0.5)) if row["x"] == 10 * u and row["dydq"] == w]
        check("each row belongs to a vertex", len(ok) == 1)
        for u, w in ok:
            same("and holds its data", [row[n] for n in ("x", "y", "z", "dxdp", "dydp", "dzdp", "dxdq", "dydq", "dzdq")], [10 * u, 0, z, 10 * u, 0, 0, 0, w, 0])
    for x in (0, 5, 10):
        check("each place has a row", x in [df.iloc[j]["x"] for j in range(len(df))])
for along in (True, False):
    Make.along = along
    st = SensitivityStudy(Make, verbosity=0)
    st.dvdp({"q": 2.0}, {"p": 1.0}, 50, False)
    df = st.component_sensitivities["bow"]
    found = [(df.iloc[j]["x"], df.iloc[j]["dydq"]) for j in range(len(df))]
    for u, w in ((0, 0), (1, 0), (0, 1), (1, 1), (0.5, 0.5)):
        check("each vertex that parts has a row", (10 * u, w) in found)
''')
    for where in ("None", "'out'", "'a/b'"):
        S(d, "export to %s" % where, FILES + '''
params, over = {"p": p, "q": q}, {"o": o}
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp(params, over, h, False)
clear_events()
where = %s
got = st.to_csv(where)
base = os.getcwd() if where is None else where
fs = written()
name = lambda n: os.path.join(base, n)
same("number of files", len(fs), 3)
for n in ("body_sensitivity.csv", "tail_sensitivity.csv", "all_components_sensitivity.csv"):
    check("file " + n, name(n) in fs)
same("returned path", got, name("all_components_sensitivity.csv"))
for c in ("body", "tail"):
    rows(fs[name(c + "_sensitivity.csv")][2], "file of " + c, params, over, h, c)
whole = fs[name("all_components_sensitivity.csv")][2]
parts = [fs[name(c + "_sensitivity.csv")][2] for c in ("body", "tail")]
same("combined columns", list(whole.columns), list(parts[0].columns))
same("combined rows", [[whole.iloc[j][n] for n in whole.columns] for j in range(len(whole))], [[t.iloc[j][n] for n in whole.columns] for t in parts for j in range(len(t))])
for f in fs.values():
    same("no row numbers", f[3], False)
''' % where)
    S(d, "export of components sharing vertices", FILES + '''
class Twin:
    def __init__(self, **kw):
        self.kw = kw
    def create_instance(self):
        v = Vehicle()
        for n in ("left", "right"):
            v.add_component(Part("s", 0.0, [self.kw["p"]]), name=n)
        return v
st = SensitivityStudy(Twin, verbosity=0)
st.dvdp({"p": p}, None, h, False)
clear_events()
st.to_csv("out")
fs = written()
parts = [fs[os.path.join("out", c + "_sensitivity.csv")][2] for c in ("left", "right")]
whole = fs[os.path.join("out", "all_components_sensitivity.csv")][2]
same("rows of each file", [len(t) for t in parts], [5, 5])
same("combined rows", [[whole.iloc[j][n] for n in whole.columns] for j in range(len(whole))], [[t.iloc[j][n] for n in whole.columns] for t in parts for j in range(len(t))])
''')
    S(d, "export of scalars", FILES + '''
Gen.results = True
Gen.props = ("drag", "lift")
params, over = {"p": p, "q": q}, {"o": o}
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp(params, over, h, False)
clear_events()
st.to_csv("out")
fs = written()
name = lambda n: os.path.join("out", "scalar_sensitivities", n)
extra = [n for n in fs if n not in [os.path.join("out", k) for k in ("body_sensitivity.csv", "tail_sensitivity.csv", "all_components_sensitivity.csv")]]
same("scalar files", sorted(extra), sorted(name(n) for n in ("volmass_sensitivity.csv", "p_cog_sensitivity.txt", "p_moi_sensitivity.txt", "q_cog_sensitivity.txt", "q_moi_sensitivity.txt", "property_sensitivity.csv")))
vm = fs[name("volmass_sensitivity.csv")][2]
pr = fs[name("property_sensitivity.csv")][2]
for n, dp, nom, per in study(params, over, h):
    same("centre of gravity for " + n, fs[name(n + "_cog_sensitivity.txt")][2], (per.analysis_results["cog"] - nom.analysis_results["cog"]) / dp)
    same("inertia for " + n, fs[name(n + "_moi_sensitivity.txt")][2], (per.analysis_results["moi"] - nom.analysis_results["moi"]) / dp)
    one, two = nom.component_properties, per.component_properties
    for c in ("body", "tail"):
        for k in ("mass", "volume", "area"):
            same("%s of %s for %s" % (k, c, n), vm.loc[c + "_" + k][n], (two[k][c] - one[k][c]) / dp)
    for k in ("drag", "lift"):
        same("%s for %s" % (k, n), pr.loc[k][n], (per.properties[k] - nom.properties[k]) / dp)
same("volume and mass columns", sorted(vm.columns), ["p", "q"])
same("property columns", sorted(pr.columns), ["p", "q"])
''')
    S(d, "export of properties alone", FILES + '''
Gen.props = ("drag",)
params = {"p": p, "q": q}
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp(params, None, h, False)
clear_events()
st.to_csv("out")
fs = written()
n = os.path.join("out", "scalar_sensitivities", "property_sensitivity.csv")
same("files", len(fs), 4)
pr = fs[n][2]
for k, dp, nom, per in study(params, {}, h):
    same("drag for " + k, pr.loc["drag"][k], (per.properties["drag"] - nom.properties["drag"]) / dp)
''')
    S(d, "export twice", FILES + '''
params = {"p": p}
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp(params, None, h, False)
st.to_csv("one")
clear_events()
st.to_csv("two")
fs = written()
for c in ("body", "tail"):
    rows(fs[os.path.join("two", c + "_sensitivity.csv")][2], "second file of " + c, params, {}, h, c)
same("rows of the second combined file", len(fs[os.path.join("two", "all_components_sensitivity.csv")][2]), len(st.component_sensitivities["body"]) + len(st.component_sensitivities["tail"]))
''')
