from .common import S, METHOD

RULE = "rigid-body composition: stored, returned and tabulated mass properties equal the rigid-body sums of the component properties as terms"
EXPLANATION = METHOD + "Component meshes enter as uninterpreted volume, centroid, inertia and facet areas of their facets. Contexts: 1-4 distinctly named components, symbolic densities in any dictionary order, ghost and reflected components, analysis before and after generation, on generation, and repeated with other densities or geometry."

BODY = '''
class Fresh(Component):
    componenttype = "wing"
    def __init__(self, tags, **kw):
        super().__init__(**kw)
        self.tags = tags
    def generate_patches(self):
        self.patches = {t: Surf(t) for t in self.tags}
def build(n, names=None, **kw):
    v = Vehicle()
    v.configure(verbosity=0)
    cs = []
    for i in range(n):
        c = Fresh(["S%d" % i], stl_resolution=1, verbosity=0)
        c._multiprocess = False
        v.add_component(c, name=(names[i] if names else "c%d" % i), **kw)
        cs.append(c)
    return v, cs
def rho(n):
    return [real("rho%d" % i, 0.5, 3) for i in range(n)]
def facts(c, d):
    vol, mass, cog, I = c.mesh.get_mass_properties_with_density(d)
    return (vol, vol * d, [cog[k] for k in range(3)], [[I[k][l] for l in range(3)] for k in range(3)], sum(a[0] for a in c.mesh.areas))
def total(fs):
    """Rigid-body composition of (volume, mass, cog, inertia, area) facts."""
    V = sum(f[0] for f in fs)
    M = sum(f[1] for f in fs)
    A = sum(f[4] for f in fs)
    g = [sum(f[1] * f[2][k] for f in fs) / M for k in range(3)]
    I = [[0.0] * 3 for k in range(3)]
    for f in fs:
        r = [f[2][k] - g[k] for k in range(3)]
        q = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
        for k in range(3):
            for l in range(3):
                I[k][l] = I[k][l] + f[3][k][l] + f[1] * ((q if k == l else 0.0) - r[k] * r[l])
    return V, M, g, I, A
def rows(x):
    return [[x[k][l] for l in range(3)] for k in range(3)]
'''


def run(d):
    for n in (1, 2, 3, 4):
        S(d, "%d components" % n, BODY + '''
n = %d
v, cs = build(n)
R = rho(n)
D = {"c%%d" %% i: R[i] for i in range(n)}
v.generate()
res = v.analyse(D)
fs = [facts(cs[i], R[i]) for i in range(n)]
V, M, g, I, A = total(fs)
same("returned volume", res[0], V)
same("returned mass", res[1], M)
same("returned centre of gravity", [res[2][k] for k in range(3)], g)
same("returned inertia", rows(res[3]), I)
same("stored volume", v.volume, V)
same("stored mass", v.mass, M)
same("stored area", v.area, A)
same("stored centre of gravity", [v.cog[k] for k in range(3)], g)
same("stored inertia", rows(v.moi), I)
cp = v.component_properties
for i in range(n):
    k = "c%%d" %% i
    same("component volume", cp["volume"][k], fs[i][0])
    same("component mass", cp["mass"][k], fs[i][1])
    same("component area", cp["area"][k], fs[i][4])
    same("component centre of gravity", [cp["cog"][k][j] for j in range(3)], fs[i][2])
    same("component inertia", rows(cp["moi"][k]), fs[i][3])
''' % n)
    S(d, "table", BODY + '''
n = 3
v, cs = build(n, ["nose", "body", "tail"])
R = rho(n)
v.generate()
v.analyse({"tail": R[2], "nose": R[0], "body": R[1], "unused": 9.0})
fs = [facts(cs[i], R[i]) for i in range(n)]
V, M, g, I, A = total(fs)
same("vehicle totals with densities in another order", [v.volume, v.mass, v.area], [V, M, A])
v.analysis_results = {"cog": v.cog, "moi": v.moi}
clear_events()
v.to_stl("out")
ws = [e for e in events("write", "how", "path", "value") if e[1].endswith("volmass.csv")]
check("table written once", len(ws) == 1)
T = v._volmass
for i, k in enumerate(("nose", "body", "tail")):
    same("table row " + k, [T.loc[k, "mass"], T.loc[k, "volume"], T.loc[k, "area"]], [fs[i][1], fs[i][0], fs[i][4]])
same("table totals", [T.loc["vehicle", "mass"], T.loc["vehicle", "volume"], T.loc["vehicle", "area"]], [M, V, A])
check("one row per component and one for the vehicle", len(T) == 4)
''')
    S(d, "analysed again", BODY + '''
n = 2
v, cs = build(n, ["nose", "tail"])
R, Q = rho(n), [real("q0", 0.5, 3), real("q1", 0.5, 3)]
def agrees(label, R, res):
    fs = [facts(cs[i], R[i]) for i in range(n)]
    V, M, g, I, A = total(fs)
    same(label + ": returned", [res[0], res[1], [res[2][k] for k in range(3)], rows(res[3])], [V, M, g, I])
    same(label + ": stored", [v.volume, v.mass, [v.cog[k] for k in range(3)], rows(v.moi), v.area], [V, M, g, I, A])
    T = v._volmass
    for i, k in enumerate(("nose", "tail")):
        same(label + ": table row " + k, [T.loc[k, "mass"], T.loc[k, "volume"], T.loc[k, "area"]], [fs[i][1], fs[i][0], fs[i][4]])
        same(label + ": component " + k, [v.component_properties[q][k] for q in ("mass", "volume", "area")], [fs[i][1], fs[i][0], fs[i][4]])
    same(label + ": table totals", [T.loc["vehicle", q] for q in ("mass", "volume", "area")], [M, V, A])
    check(label + ": one row per component and one for the vehicle", len(T) == n + 1)
def grow(x, y, z):
    return Vector3(F("gx", x, y, z), F("gy", x, y, z), F("gz", x, y, z))
v.generate()
agrees("first", R, v.analyse({"nose": R[0], "tail": R[1]}))
agrees("other densities", Q, v.analyse({"nose": Q[0], "tail": Q[1]}))
v.transform([("translate", grow)])
agrees("transformed", Q, v.analyse({"nose": Q[0], "tail": Q[1]}))
def current(R):
    a = v.analysis_results
    return (a["volume"], a["mass"], a["cog"], a["moi"])
v.analyse_after_generating({"nose": R[0], "tail": R[1]})
v.generate()
agrees("on generation", R, current(R))
v.vehicle_angle_offset = real("a", -90, 90)
cs[0].tags = ["T0", "T1"]
v.generate()
agrees("on generation again", R, current(R))
v.analyse_after_generating({"nose": Q[0], "tail": Q[1]})
v.generate()
agrees("on generation with other densities", Q, current(Q))
''')
    S(d, "options", BODY + '''
R = rho(2)
D = {"c0": R[0], "c1": R[1]}
for kw in ({"ghost": True}, {"reflection_axis": "y"}, {"reflection_axis": "y", "append_reflection": False}):
    v, cs = build(2, **kw)
    v.generate()
    res = v.analyse(D)
    V, M, g, I, A = total([facts(cs[i], R[i]) for i in range(2)])
    same("with options", [res[0], res[1], [res[2][k] for k in range(3)], rows(res[3]), v.area], [V, M, g, I, A])
v, cs = build(2)
res = v.analyse(D)
V, M, g, I, A = total([facts(cs[i], R[i]) for i in range(2)])
same("not generated before", [res[0], res[1], [res[2][k] for k in range(3)], rows(res[3]), v.area], [V, M, g, I, A])
v, cs = build(2)
v.analyse_after_generating(D)
v.generate()
V, M, g, I, A = total([facts(cs[i], R[i]) for i in range(2)])
a = v.analysis_results
same("on generation", [a["volume"], a["mass"], [a["cog"][k] for k in range(3)], rows(a["moi"])], [V, M, g, I])
Q = [real("q0", 0.5, 3), real("q1", 0.5, 3)]
res = v.analyse({"c0": Q[0], "c1": Q[1]})
V, M, g, I, A = total([facts(cs[i], Q[i]) for i in range(2)])
same("again with other densities", [res[0], res[1], [res[2][k] for k in range(3)], rows(res[3]), v.area, v.mass], [V, M, g, I, A, M])
e = Fresh(["T"], stl_resolution=1, verbosity=0)
w = Vehicle()
w.configure(verbosity=0)
w.add_component(e)
w.generate()
res = w.analyse({list(w._named_components)[0]: R[0]})
V, M, g, I, A = total([facts(e, R[0])])
same("unnamed component", [res[0], res[1], rows(res[3])], [V, M, I])
''')
