from .common import S, METHOD

RULE = "every table entry of the study equals the difference of two independently built vehicles divided by the increment of its own parameter"
EXPLANATION = METHOD + ("The generator is any function of its keyword arguments (uninterpreted coordinates and properties). The client builds the nominal and each singly perturbed vehicle itself and compares every row of every table, "
                        "analysis result and property with the finite difference; parameter values, overrides and the percentage are symbolic.")

STUDY = '''
from hypervehicle.utilities import SensitivityStudy
class Gen:
    """Any parametric generator."""
    results = False
    props = ()
    parts = (("body", 0.0), ("tail", 50.0))
    def __init__(self, **kw):
        self.kw = kw
    def create_instance(self):
        v = Vehicle()
        k = [self.kw[n] for n in sorted(self.kw)]
        for name, off in self.parts:
            v.add_component(Part(name, off, k), name=name)
        for n in self.props:
            v.add_property(n, F(n, *k))
        if self.results:
            v.analyse_after_generating({"body": real("rho0", 1, 2), "tail": real("rho1", 1, 2)})
        return v
class Part(Component):
    """Any surface, its corners told apart by one coordinate only."""
    axis = 0
    componenttype = "wing"
    def __init__(self, tag, off, k):
        super().__init__(stl_resolution=1, verbosity=0)
        self._multiprocess = False
        self.tag, self.off, self.k = tag, off, k
    def generate_patches(self):
        t, o, k = self.tag, self.off, self.k
        def point(u, w):
            c = [F(t + n, *k) for n in "xyz"]
            c[self.axis] = 10 * u + 100 * w + o + math.sin(F(t + "a", u, w, *k))
            return Vector3(c[0], c[1], c[2])
        self.patches = {"a": point}
def build(kw):
    v = Gen(**kw).create_instance()
    v.configure(verbosity=0)
    v.generate()
    return v
def line(df, x):
    """Row of a table holding the vertex with this coordinate."""
    hit = [j for j in range(len(df)) if df.iloc[j]["xyz"[Part.axis]] == x]
    check("one row per vertex", len(hit) == 1)
    return df.iloc[hit[0]]
def corners(vectors):
    """(facet, corner) of every distinct vertex."""
    seen, out = [], []
    for i in range(len(vectors)):
        for k in range(3):
            x = tuple(vectors[i][k])
            if x not in seen:
                seen.append(x)
                out.append((i, k))
    return out
def study(params, over, h):
    """Expected (parameter, increment, nominal vehicle, perturbed vehicle)."""
    nom = build({**params, **over})
    for n in params:
        new = dict(params)
        new[n] = params[n] * (1 + h / 100)
        yield n, params[n] * h / 100, nom, build({**new, **over})
def tables(st, out, params, over, h):
    for n, dp, nom, per in study(params, over, h):
        for c, off in Gen.parts:
            a, b = nom._named_components[c].mesh.vectors, per._named_components[c].mesh.vectors
            df = out[n][c]
            spots = corners(a)
            same("%s of %s: one row per vertex" % (n, c), len(df), len(spots))
            for i, k in spots:
                row = line(df, a[i][k][Part.axis])
                same("%s of %s: vertex" % (n, c), (row["x"], row["y"], row["z"]), tuple(a[i][k]))
                same("%s of %s: derivative" % (n, c), (row["dxd" + n], row["dyd" + n], row["dzd" + n]), tuple((b[i][k][m] - a[i][k][m]) / dp for m in range(3)))
        same("%s: components" % n, sorted(out[n]), sorted(x for x, off in Gen.parts))
    same("parameters", sorted(out), sorted(params))
p, q, w, o, h = real("p", 1, 2), real("q", 3, 4), real("w", -3, -2), real("o"), real("h", 1, 50)
'''


def run(d):
    for label, setup in [("one parameter", "params, over = {'p': p}, {}"), ("two parameters", "params, over = {'p': p, 'q': q}, {}"),
                         ("three parameters with overrides", "params, over = {'p': p, 'q': q, 'w': w}, {'o': o, 'k': 2}"),
                         ("whole numbers", "params, over = {'n': 3, 'p': p, 'm': -7}, {'k': 2}"), ("large whole number", "params, over = {'n': 1000}, {}"),
                         ("negative percentage", "params, over, h = {'q': q, 'p': p}, {'o': o}, -h"),
                         ("vertices along y", "Part.axis = 1\nparams, over = {'p': p, 'q': q}, {}"), ("vertices along z", "Part.axis = 2\nparams, over = {'p': p, 'q': q}, {}")]:
        S(d, label, STUDY + setup + '''
st = SensitivityStudy(Gen, verbosity=0)
before = snapshot(params, over)
out = st.dvdp(params, over, h, boolean("stl"), "nominal")
unchanged("the caller's dictionaries", before)
tables(st, out, params, over, h)
tables(st, st.parameter_sensitivities, params, over, h)
''')
    S(d, "no overrides given", STUDY + '''
params = {"p": p, "q": q}
st = SensitivityStudy(Gen, verbosity=0)
out = st.dvdp(params, perturbation=h, write_nominal_stl=False)
tables(st, out, params, {}, h)
out = st.dvdp(parameter_dict=params, overrides=None, perturbation=h, write_nominal_stl=False)
tables(st, out, params, {}, h)
''')
    S(d, "properties and analysis results", STUDY + '''
Gen.results = True
Gen.props = ("drag", "lift")
params, over = {"p": p, "q": q}, {"o": o}
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp(params, over, h, False)
for n, dp, nom, per in study(params, over, h):
    for k in ("drag", "lift"):
        same("%s: property %s" % (n, k), st.property_sensitivities[n][k], (per.properties[k] - nom.properties[k]) / dp)
    for k in ("volume", "mass", "area", "cog", "moi"):
        if k in nom.analysis_results:
            same("%s: result %s" % (n, k), st.scalar_sensitivities[n][k], (per.analysis_results[k] - nom.analysis_results[k]) / dp)
    same("%s: results" % n, sorted(st.scalar_sensitivities[n]), sorted(nom.analysis_results))
    same("%s: properties" % n, sorted(st.property_sensitivities[n]), ["drag", "lift"])
    got = st.component_scalar_sensitivities[n]
    one, two = nom.component_properties, per.component_properties
    for c in ("body", "tail"):
        for k in ("mass", "volume", "area"):
            same("%s: %s of %s" % (n, k, c), got.loc[c][k], (two[k][c] - one[k][c]) / dp)
same("parameters of properties", sorted(st.property_sensitivities), ["p", "q"])
same("parameters of results", sorted(st.scalar_sensitivities), ["p", "q"])
''')
    S(d, "studies do not affect each other", STUDY + '''
st = SensitivityStudy(Gen, verbosity=0)
first = {"p": p, "q": q}
one = st.dvdp(first, {"o": o}, h, False)
second = {"q": w}
two = st.dvdp(second, {"p": p, "o": 1}, 2 * h, False)
tables(st, one, first, {"o": o}, h)
tables(st, two, second, {"p": p, "o": 1}, 2 * h)
three = SensitivityStudy(Gen, verbosity=0).dvdp(first, {"o": o}, h, False)
tables(st, three, first, {"o": o}, h)
same("the last study is kept", sorted(st.parameter_sensitivities), ["q"])
''')
    S(d, "coincident vertices that part", STUDY + '''
p, h, z = 2.0, 50, real("z")
class Bow(Component):
    componenttype = "wing"
    def __init__(self, k):
        super().__init__(stl_resolution=1, verbosity=0)
        self._multiprocess = False
        self.k = k
    def generate_patches(self):
        k = self.k
        self.patches = {"a": lambda u, w: Vector3(10 * u, w * (k - p), z)}
class Make:
    def __init__(self, p):
        self.p = p
    def create_instance(self):
        v = Vehicle()
        v.add_component(Bow(self.p), name="bow")
        return v
df = SensitivityStudy(Make, verbosity=0).dvdp({"p": p}, None, h, False)["p"]["bow"]
for u, w in ((0, 0), (1, 0), (0, 1), (1, 1), (0.5, 0.5)):
    hit = [j for j in range(len(df)) if df.iloc[j]["x"] == 10 * u and df.iloc[j]["dydp"] == w]
    check("a row for the vertex", len(hit) > 0)
    for j in hit:
        row = df.iloc[j]
        same("its place and motion", (row["y"], row["z"], row["dxdp"], row["dzdp"]), (0, z, 0, 0))
''')
    S(d, "nominal vehicle", STUDY + '''
params, over = {"p": p, "q": q}, {"o": o}
st = SensitivityStudy(Gen, verbosity=0)
st.dvdp(params, over, h, True, "nom")
wrote = events("write", "path", "vectors")
nom = build({**params, **over})
same("one nominal file per component", len(wrote), 2)
for c, off in Gen.parts:
    same("nominal mesh of " + c, st.nominal_vehicle_instance._named_components[c].mesh.vectors, nom._named_components[c].mesh.vectors)
''')
