from .common import S, METHOD

RULE = "edge-term equality: every patch edge of a wing or fin equals an edge of its neighbour for every edge parameter; placement of a fin equals pivot, cant, then offset of the unplaced fin"
EXPLANATION = METHOD + "Contexts: a wing with an uninterpreted leading edge path, uninterpreted thickness and leading edge width functions, symbolic break points (given, defaulted, or one of them given), flap length and angle, elliptical and flat leading edges, open and closed; a fin with symbolic corners, thickness and leading edge width function, flat and sharp rudders, symbolic rudder and pivot settings, symbolic cant angle and an uninterpreted offset function."
ASSUMPTIONS = ["The thickness functions of a fin are half of its thickness on either side.", "Break points found by bisection are rounded to six digits, so edges at those break points are compared to 1e-4."]

WING = '''
from hypervehicle.components import Wing
class Lead(Path):
    """Any leading edge from a to b in the planform plane."""
    def __init__(self, a, b):
        self.a = a
        self.b = b
    def __repr__(self):
        return "Lead"
    def __call__(self, t):
        q = 0.02 * t * (1 - t)
        return Vector3(self.a.x * (1 - t) + self.b.x * t + q * math.sin(F("L.x", t)), self.a.y * (1 - t) + self.b.y * t + q * math.sin(F("L.y", t)), 0.0)
A0 = Vector3(real("A0x", -0.2, 0.0), 0.0, 0.0)
A1 = Vector3(real("A1x", 0.4, 0.6), 0.0, 0.0)
TT = Vector3(real("TTx", 0.9, 1.2), 0.0, 0.0)
B0 = Vector3(real("B0x", -0.2, 0.0), real("B0y", 0.3, 0.6), 0.0)
L = Lead(B0, TT)
def top(x, y, z=0):
    return Vector3(0.0, 0.0, -0.05 - 0.02 * abs(math.sin(F("top", x, y))))
def bot(x, y, z=0):
    return Vector3(0.0, 0.0, 0.05 + 0.02 * abs(math.sin(F("bot", x, y))))
def width(t):
    return 0.02 + 0.02 * abs(math.sin(F("width", t)))
tB1, tB2 = real("tB1", 0.3, 0.5), real("tB2", 0.6, 0.9)
fl, fa = real("flap_length", 0.05, 0.2), real("flap_angle", -0.3, 0.3)
def wing(**kw):
    kw.setdefault("LE_wf", width)
    w = Wing(A0, A1, TT, B0, Line_B0TT=L, top_tf=top, bot_tf=bot, flap_length=fl, flap_angle=fa, verbosity=0, **kw)
    w.generate_patches()
    return w.patches
'''

JOIN = '''
def edge(p, e, t):
    return xyz(p(0.0, t) if e == "W" else p(1.0, t) if e == "E" else p(t, 0.0) if e == "S" else p(t, 1.0))
def sides(P, a, b, flip):
    ka, ea = a.split(":")
    kb, eb = b.split(":")
    if ka not in P or kb not in P:
        return None
    return edge(P[ka], ea, t), edge(P[kb], eb, 1 - t if flip else t)
def join(P, pairs, close=False):
    for a, b, flip in pairs:
        e = sides(P, a, b, flip)
        if e is None:
            continue
        if close:
            check(a + " meets " + b, all([abs(e[0][i] - e[1][i]) < 1e-4 for i in range(3)]))
        else:
            same(a + " meets " + b, e[0], e[1])
'''

PLAN = '''
top_patch_0:W top_patch_1:E
top_patch_0:E TE_top_patch:N
bot_patch_0:W TE_bot_patch:S
bot_patch_0:E bot_patch_1:W
TE_top_patch:S TE_bot_patch:N
'''
ELLIP = '''
top_patch_0:N LE_top_patch_0:S
top_patch_1:W LE_top_patch_2:S
top_patch_1:N LE_top_patch_1:S
bot_patch_0:N LE_bot_patch_0:N rev
bot_patch_1:E LE_bot_patch_2:N
bot_patch_1:N LE_bot_patch_1:N rev
'''
LEADS = '''
LE_top_patch_0:W LE_top_patch_1:E
LE_top_patch_1:W LE_top_patch_2:E
LE_top_patch_0:N LE_bot_patch_0:S
LE_top_patch_1:N LE_bot_patch_1:S
LE_top_patch_2:N LE_bot_patch_2:S
LE_bot_patch_0:W LE_bot_patch_1:E
LE_bot_patch_1:W LE_bot_patch_2:E
'''
TIP = '''
LE_top_patch_0:E TELE_patch:W
LE_bot_patch_0:E TELE_patch:N
TE_top_patch:E TELE_patch:S rev
TE_bot_patch:E TELE_patch:E rev
'''
CLOSE = '''
TE_top_patch:W interior_flap_patch:N rev
TE_bot_patch:W interior_flap_patch:E
wing_close_top_patch0:W interior_flap_patch:W rev
wing_close_bot_patch0:W interior_flap_patch:S
wing_close_top_patch0:E wing_close_top_patch1:W
wing_close_top_patch0:N wing_close_bot_patch0:S
wing_close_top_patch1:N wing_close_bot_patch1:S
wing_close_bot_patch0:E wing_close_bot_patch1:W
'''
CAP = '''
LE_top_patch_2:W interior_ellip:E
LE_bot_patch_2:W interior_ellip:N rev
wing_close_top_patch1:E interior_ellip:S rev
wing_close_bot_patch1:E interior_ellip:W
'''
FLAT = '''
top_patch_0:N LE_patch0:S
top_patch_1:N LE_patch1:S
top_patch_1:W LE_patch2:S
bot_patch_0:N LE_patch0:N rev
bot_patch_1:N LE_patch1:N rev
bot_patch_1:E LE_patch2:N
LE_patch0:W LE_patch1:E
LE_patch1:W LE_patch2:E
'''
FIN = '''
top_patch:W bot_1:N rev
top_patch:E LE_top_patch_0:S rev
top_patch:N LE_top_patch_1:S
bot_patch:E LE_bot_patch_1:N
bot_patch:S bot_2:S rev
bot_patch:N LE_bot_patch_0:N rev
'''
FIN_LE = '''
LE_top_patch_0:W LE_top_patch_1:E
LE_top_patch_0:N LE_bot_patch_0:S
LE_top_patch_1:W bot_ellip:S
LE_top_patch_1:N LE_bot_patch_1:S
LE_bot_patch_0:W LE_bot_patch_1:E
LE_bot_patch_1:W bot_ellip:E
bot_ellip:W bot_1:W rev
bot_ellip:N bot_2:W rev
bot_1:S bot_2:N
'''
FIN_BLUNT = '''
top_patch:S TE_1:N
bot_patch:W TE_2:S
LE_top_patch_0:E TE_ellip:E rev
LE_bot_patch_0:E TE_ellip:S rev
bot_1:E TE_1:W
bot_2:E TE_2:W
TE_ellip:W TE_2:E
TE_ellip:N TE_1:E
TE_1:S TE_2:N
'''
FIN_SHARP = '''
top_patch:S TE_top:N
bot_patch:W TE_bot:S
LE_top_patch_0:E TE_ellipse:W
LE_bot_patch_0:E TE_ellipse:N
bot_1:E TE_triangle:S rev
bot_2:E TE_triangle:E rev
TE_top:W TE_triangle:W rev
TE_top:E TE_ellipse:S rev
TE_top:S TE_bot:N
TE_bot:W TE_triangle:N rev
TE_bot:E TE_ellipse:E rev
'''

FINS = '''
from hypervehicle.components import Fin
p0 = Vector3(real("p0x", -0.1, 0.1), real("p0y", -0.1, 0.0), 0.0)
p1 = Vector3(real("p1x", 0.15, 0.25), real("p1y", 0.3, 0.4), 0.0)
p2 = Vector3(real("p2x", 0.4, 0.6), real("p2y", 0.3, 0.4), 0.0)
p3 = Vector3(real("p3x", 0.9, 1.1), real("p3y", -0.1, 0.0), 0.0)
th = real("thickness", 0.02, 0.06)
def top(x, y, z=0):
    return Vector3(0.0, 0.0, -th / 2)
def bot(x, y, z=0):
    return Vector3(0.0, 0.0, th / 2)
def width(t):
    return 0.02 + 0.02 * abs(math.sin(F("width", t)))
def fin(angle, **kw):
    f = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=th, fin_angle=angle, top_thickness_function=top, bot_thickness_function=bot, LE_wf=width, verbosity=0, **kw)
    f.generate_patches()
    return f.patches
sharp = dict(rudder_type="sharp", rudder_length=real("rudder_length", 0.05, 0.2), rudder_angle=real("rudder_angle", -0.3, 0.3))
cant, pivot, about = real("cant", -1.5, 1.5), real("pivot", -0.5, 0.5), vec("about")
'''


def pairs(*texts):
    out = []
    for l in "".join(texts).split("\n"):
        if l:
            w = l.split()
            out.append((w[0], w[1], len(w) == 3))
    return repr(out)


def run(d):
    pre = WING + JOIN
    given = "P = wing(t_B1=tB1, t_B2=tB2, close_wing=True)\n"
    S(d, "wing, patches", pre + given + '''
check("no patch is lost or added", len(P) == 19)
check("an open wing has no closing patches", len(wing(t_B1=tB1, t_B2=tB2)) == 13)
check("a flat wing", len(wing(t_B1=tB1, t_B2=tB2, LE_type="FLAT", LE_wf=None)) == 10)
check("a closed flat wing", len(wing(t_B1=tB1, t_B2=tB2, LE_type="FLAT", LE_wf=None, close_wing=True)) == 15)
''')
    S(d, "wing, surfaces and trailing edge", pre + given + "join(P, %s)\n" % pairs(PLAN))
    S(d, "wing, surfaces and leading edge", pre + given + "join(P, %s)\n" % pairs(ELLIP))
    S(d, "wing, along the leading edge", pre + given + "join(P, %s)\n" % pairs(LEADS))
    S(d, "wing, tip", pre + given + "join(P, %s)\n" % pairs(TIP))
    S(d, "wing, inner side", pre + given + "join(P, %s)\n" % pairs(CLOSE))
    S(d, "wing, leading edge cap", pre + given + "join(P, %s)\n" % pairs(CAP))
    S(d, "wing, open", pre + "P = wing(t_B1=tB1, t_B2=tB2)\n" + "join(P, %s)\n" % pairs(PLAN, ELLIP, TIP))
    S(d, "wing, flat leading edge", pre + '''
for kw in (dict(), dict(LE_type="flat", LE_wf=None), dict(close_wing=True)):
    kw = dict(dict(LE_type="FLAT", t_B1=tB1, t_B2=tB2), **kw)
    P = wing(**kw)
    join(P, %s)
    if "LE_patch0" in P and "TELE_patch" in P:
        same("upper half of the tip", edge(P["LE_patch0"], "E", t / 2), edge(P["TELE_patch"], "W", t))
        same("lower half of the tip", edge(P["LE_patch0"], "E", (1 + t) / 2), edge(P["TELE_patch"], "N", t))
    if "LE_patch2" in P and "wing_close_top_patch1" in P and "wing_close_bot_patch1" in P:
        same("upper half of the root", edge(P["LE_patch2"], "W", t / 2), edge(P["wing_close_top_patch1"], "E", t))
        same("lower half of the root", edge(P["LE_patch2"], "W", (1 + t) / 2), edge(P["wing_close_bot_patch1"], "E", t))
''' % pairs(PLAN, FLAT))
    S(d, "wing, break points", pre + '''
def lead(u, f):
    q = L(u)
    return plus(xyz(q), xyz(f(q.x, q.y, q.z)))
def splits(P, b1, b2, what):
    same(what + ": first part, top", edge(P["top_patch_0"], "N", t), lead(b1 - t * b1, top))
    same(what + ": first part, bottom", edge(P["bot_patch_0"], "N", t), lead(t * b1, bot))
    same(what + ": second part, top", edge(P["top_patch_1"], "N", t), lead(b2 - t * (b2 - b1), top))
    same(what + ": second part, bottom", edge(P["bot_patch_1"], "N", t), lead(b1 + t * (b2 - b1), bot))
    same(what + ": last part, top", edge(P["top_patch_1"], "W", t), lead(1 - t * (1 - b2), top))
    same(what + ": last part, bottom", edge(P["bot_patch_1"], "E", t), lead(1 - t * (1 - b2), bot))
    same(what + ": inner edge, top", edge(P["top_patch_0"], "S", t), plus(scale(xyz(A0), t), plus(scale(xyz(A1), 1 - t), xyz(top(A0.x * t + A1.x * (1 - t), A0.y * t + A1.y * (1 - t))))))
    same(what + ": inner edge, bottom", edge(P["bot_patch_1"], "S", t), plus(scale(xyz(TT), t), plus(scale(xyz(A1), 1 - t), xyz(bot(TT.x * t + A1.x * (1 - t), TT.y * t + A1.y * (1 - t))))))
splits(wing(t_B1=tB1, t_B2=tB2), tB1, tB2, "given")
splits(wing(t_B1=tB1), tB1, (1 + tB1) / 2, "second by default")
splits(wing(t_B1=tB1, t_B2=tB2, LE_type="FLAT", LE_wf=None), tB1, tB2, "flat")
''')
    S(d, "wing, computed break points", pre + '''
P = wing(close_wing=True)
b = P["top_patch_0"](0.0, 1.0)
check("the first break is level with the break of the root", abs(b.x - A1.x) < 1e-4)
join(P, %s)
P = wing(t_B2=tB2)
b = P["top_patch_0"](0.0, 1.0)
check("the first break alone is computed", abs(b.x - A1.x) < 1e-4)
''' % pairs(PLAN, ELLIP))
    S(d, "wing, flap", pre + '''
P = wing(t_B1=tB1, t_B2=tB2)
def mean(u):
    x, y = A0.x * (1 - u) + B0.x * u, A0.y * (1 - u) + B0.y * u
    return (x, y, (top(x, y).z + bot(x, y).z) / 2)
tips = [plus(mean(u), (-fl * math.cos(fa), 0.0, fl * math.sin(fa))) for u in (0.0, 1.0)]
same("trailing edge of the flap", edge(P["TE_top_patch"], "S", t), plus(scale(tips[0], 1 - t), scale(tips[1], t)))
raises("tail", lambda: wing(tail_option="none"), Exception)
raises("leading edge curve", lambda: wing(Line_B0TT_TYPE="spline"), Exception)
''')

    pre = FINS + JOIN
    S(d, "fin, patches", pre + '''
check("blunt fin", len(fin(0.0)) == 12)
check("sharp fin", len(fin(0.0, **sharp)) == 13)
''')
    S(d, "fin, surfaces", pre + "join(fin(0.0), %s, True)\n" % pairs(FIN))
    S(d, "fin, along the leading edge", pre + "join(fin(0.0), %s, True)\n" % pairs(FIN_LE))
    S(d, "fin, blunt rudder", pre + "join(fin(0.0), %s)\n" % pairs(FIN_BLUNT))
    S(d, "fin, sharp rudder", pre + "join(fin(0.0, **sharp), %s)\n" % pairs(FIN_SHARP))
    S(d, "fin, sharp rudder surfaces", pre + "join(fin(0.0, **sharp), %s, True)\n" % pairs(FIN))
    S(d, "fin, placement", pre + '''
def shove(x, y, z):
    return Vector3(F("ox", x, y, z), F("oy", x, y, z), F("oz", x, y, z))
for kind, kw in (("blunt", {}), ("sharp", sharp)):
    base = fin(0.0, **kw)
    for what, opts, off in (("cant", {}, False), ("pivot and cant", dict(pivot_angle=pivot, pivot_point=about), False),
                            ("pivot about the origin", dict(pivot_angle=pivot), False),
                            ("pivot, cant and offset", dict(pivot_angle=pivot, pivot_point=about, offset_func=shove), True)):
        P = fin(cant, **dict(kw, **opts))
        for k in base:
            if k in P and not k.startswith("LE_"):
                q = xyz(base[k](r, s))
                if "pivot_angle" in opts:
                    c = xyz(opts.get("pivot_point", Vector3(0.0, 0.0, 0.0)))
                    q = plus(rot(minus(q, c), pivot, "y"), c)
                q = rot(q, cant, "x")
                if off:
                    q = plus(q, xyz(shove(q[0], q[1], q[2])))
                same(kind + " fin, " + what + ", " + k, xyz(P[k](r, s)), q)
''')
    S(d, "fin, placement of the leading edge", pre + '''
base = fin(0.0)
P = fin(cant, pivot_angle=pivot, pivot_point=about)
for k in base:
    if k in P and k.startswith("LE_"):
        same(k, xyz(P[k](r, s)), rot(plus(rot(minus(xyz(base[k](r, s)), xyz(about)), pivot, "y"), xyz(about)), cant, "x"))
''')
