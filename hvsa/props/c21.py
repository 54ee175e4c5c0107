from .common import S, METHOD

RULE = "token by token, the text appended for each parameter equals the derivatives of the vertex within tolerance of each point, or zeros, in file order"
EXPLANATION = METHOD + ("Point coordinates, sensitivity tables and both tolerances are symbolic; the geometry file is a symbolic XML tree whose text is a concatenation of formatted numbers. The appended text is split into tokens and read back as numbers, "
                        "and the combined file, the returned fraction, the files read and the caller's list are compared with a direct restatement.")

TRI = '''
import os
from hypervehicle.utilities import append_sensitivities_to_tri
def table(names, n, tag):
    cols = ["x", "y", "z"] + [k + m for m in names for k in ("dxd", "dyd", "dzd")]
    return cols, [[real("%s%d_%d" % (tag, i, j)) for j in range(len(cols))] for i in range(n)]
def geometry(P, name="Components.i.tri"):
    text = "\\n".join("%s %s %s" % (a[0], a[1], a[2]) for a in P)
    piece = element("Piece", {}, None, [element("Points", {}, None, [element("DataArray", {}, text, [])])])
    provide_xml(name, element("VTKFile", {}, None, [element("UnstructuredGrid", {}, None, [piece])]))
    return piece
def near(p, v, tol):
    return abs(p[0] - v[0]) < tol and abs(p[1] - v[1]) < tol and abs(p[2] - v[2]) < tol
def once(P, V, tol):
    """No point has two vertices within tolerance."""
    for p in P:
        for i in range(len(V)):
            for j in range(i):
                assume(not (near(p, V[i], tol) and near(p, V[j], tol)))
def expected(p, V, tol, rnd):
    """(derivatives, matched)"""
    out, hit = [0.0] * (len(V[0]) - 3), False
    for v in V:
        if near(p, v, tol):
            out, hit = [0.0 if abs(x) < rnd else x for x in v[3:]], True
    return out, hit
def appended(piece):
    """Arrays appended to the piece, by name."""
    out = {}
    for k in list(piece)[1:]:
        out[k[0].attrib["Name"]] = [float(t) for t in k[0].text.split()]
    return out
def verify(label, piece, P, V, names, tol, rnd, got, where):
    want = [expected(p, V, tol, rnd) for p in P]
    arrays = appended(piece)
    same(label + ": one array per parameter", list(arrays), [n + "_sens" for n in names])
    for k, n in enumerate(names):
        same(label + ": sensitivities to " + n, arrays[n + "_sens"], [w[0][3 * k + j] for w in want for j in range(3)])
    same(label + ": fraction", got, sum((1 if w[1] else 0) for w in want) / len(P))
    fs = [e for e in events("write", "how", "path", "value", "index") if e[0] == "csv"]
    same(label + ": one combined file", [f[1] for f in fs], [where])
    df = fs[0][2]
    same(label + ": no row numbers", fs[0][3], False)
    same(label + ": columns", list(df.columns), ["x", "y", "z"] + [k + n for n in names for k in ("dxd", "dyd", "dzd")])
    same(label + ": combined rows", [[df.iloc[i][c] for c in df.columns] for i in range(len(P))], [list(p) + w[0] for p, w in zip(P, want)])
    same(label + ": number of rows", len(df), len(P))
tol, rnd = real("tol", 0.001, 1), real("rnd", 0.0001, 1)
home = os.path.join(os.getcwd(), "all_components_sensitivity.csv")
'''


def run(d):
    for np_, nv, names in ((1, 1, ["p"]), (2, 2, ["p", "q"]), (3, 1, ["p"]), (1, 3, ["a", "b", "c"]), (3, 2, ["p"])):
        S(d, "%d points, %d vertices, %d parameters" % (np_, nv, len(names)), TRI + '''
names = %r
P = [[real("p%%d%%d" %% (i, j)) for j in range(3)] for i in range(%d)]
cols, V = table(names, %d, "v")
once(P, V, tol)
provide_csv("a.csv", cols, V)
piece = geometry(P)
files = ["a.csv"]
before = snapshot(files)
got = append_sensitivities_to_tri(files, "Components.i.tri", tol, rnd, verbosity=0)
unchanged("the caller's list", before)
verify("points", piece, P, V, names, tol, rnd, got, home)
same("the geometry file is written", [e[1] for e in events("write", "how", "path") if e[0] == "xml"], ["Components.i.tri"])
''' % (names, np_, nv))
    S(d, "several files", TRI + '''
names = ["p", "q"]
P = [[real("p%d%d" % (i, j)) for j in range(3)] for i in range(2)]
cols, V = table(names, 2, "v")
cols, W = table(names, 1, "w")
once(P, V + W, tol)
provide_csv("dir/a.csv", cols, V)
provide_csv("dir/b.csv", cols, W)
piece = geometry(P, "other.tri")
files = ["dir/a.csv", "dir/b.csv"]
got = append_sensitivities_to_tri(dp_filenames=files, components_filepath="other.tri", match_tolerance=tol, rounding_tolerance=rnd, combined_sens_fn="all.csv", outdir="res", verbosity=0)
verify("files", piece, P, V + W, names, tol, rnd, got, os.path.join("res", "all.csv"))
same("the geometry file is written", [e[1] for e in events("write", "how", "path") if e[0] == "xml"], ["other.tri"])
''')
    for where in range(3):
        S(d, "old combined file at position %d" % where, TRI + '''
names = ["p"]
P = [[real("p%%d%%d" %% (i, j)) for j in range(3)] for i in range(2)]
cols, V = table(names, 1, "v")
cols, W = table(names, 1, "w")
cols, X = table(names, 1, "x")
once(P, V + W, tol)
provide_csv("a.csv", cols, V)
provide_csv("b.csv", cols, W)
provide_csv("all_components_sensitivity.csv", cols, X)
piece = geometry(P)
files = ["a.csv", "b.csv"]
files.insert(%d, "all_components_sensitivity.csv")
before = snapshot(files)
got = append_sensitivities_to_tri(files, match_tolerance=tol, rounding_tolerance=rnd, verbosity=0)
unchanged("the caller's list", before)
same("files read", [e[0] for e in events("read", "path") if e[0].endswith(".csv")], ["a.csv", "b.csv"])
verify("points", piece, P, V + W, names, tol, rnd, got, home)
''' % where)
    S(d, "default tolerances", TRI + '''
P = [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]
names = ["p"]
big, small = real("big", 1, 2), real("small", -1e-10, 1e-10)
V = [[4.0 + real("e", -1e-6, 1e-6), 5.0, 6.0, big, small, -big], [1.0 + real("f", 1e-3, 1), 2.0, 3.0, 7.0, 7.0, 7.0]]
provide_csv("a.csv", ["x", "y", "z", "dxdp", "dydp", "dzdp"], V)
piece = geometry(P)
got = append_sensitivities_to_tri(["a.csv"], verbosity=0)
same("sensitivities", appended(piece), {"p_sens": [0, 0, 0, big, 0, -big]})
same("fraction", got, 0.5)
''')
    S(d, "points given twice", TRI + '''
P = [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [1.0, 2.0, 3.0], [1.0, 2.0, 7.0]]
names = ["p"]
V = [[1.0, 2.0, 3.0, real("a", 1, 2), real("b", 1, 2), real("c", 1, 2)], [1.0, 2.0, 7.0, real("d", 1, 2), real("e", 1, 2), real("f", 1, 2)]]
provide_csv("a.csv", ["x", "y", "z", "dxdp", "dydp", "dzdp"], V)
piece = geometry(P)
got = append_sensitivities_to_tri(["a.csv"], match_tolerance=0.1, verbosity=0)
verify("twice", piece, P, V, names, 0.1, 1e-8, got, home)
''')
    S(d, "long names and nothing matched", TRI + '''
names = ["wing_span", "depth", "x_axis", "index"]
P = [[real("p%d%d" % (i, j), 0, 1) for j in range(3)] for i in range(2)]
cols, V = table(names, 1, "v")
V[0][0] = 50.0
provide_csv("a.csv", cols, V)
piece = geometry(P)
got = append_sensitivities_to_tri(["a.csv"], match_tolerance=tol, verbosity=0)
verify("none", piece, P, V, names, tol, 1e-8, got, home)
same("fraction", got, 0)
''')
