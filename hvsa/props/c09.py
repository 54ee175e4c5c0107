from .common import S, METHOD

RULE = "distribution-term equality: ends pinned, identity when off, mirror symmetry between the two end options, n+1 values"
EXPLANATION = METHOD + "Contexts: all four combinations of clustered ends as symbolic and constant flags, symbolic strength above and below one, 1-5 intervals."


def run(d):
    S(d, "Roberts clustering", '''
from hypervehicle.geometry.path import RobertsFunction, LinearFunction, clustered_roberts, distribute_points, roberts
beta = real("beta", 1.01, 3)
weak = real("weak", 0.05, 0.95)
x = real("x", 0, 1)
e0, e1 = boolean("e0"), boolean("e1")
for a in (False, True):
    for b in (False, True):
        f = RobertsFunction(a, b, beta)
        same("starts at 0", f(0.0), 0.0)
        same("ends at 1", f(1.0), 1.0)
        same("off below one", RobertsFunction(a, b, weak)(x), x)
        same("ends are mirror images", 1.0 - f(1.0 - x), RobertsFunction(b, a, beta)(x))
        check("stays inside", -1e-9 <= f(x) and f(x) <= 1 + 1e-9)
        y = real("y", 0, 0.8)
        check("increases", f(y) < f(y + 0.1))
        same("function form", clustered_roberts(x, a, b, beta), f(x))
same("off without ends", RobertsFunction(False, False, beta)(x), x)
same("starts at 0 whatever the ends", RobertsFunction(e0, e1, beta)(0.0), 0.0)
same("ends at 1 whatever the ends", RobertsFunction(e0, e1, beta)(1.0), 1.0)
g = RobertsFunction(False, True, beta)
h = RobertsFunction(True, False, beta)
both = RobertsFunction(True, True, beta)
check("clusters towards the second end", g(0.5) > 0.5)
check("clusters towards the first end", h(0.5) < 0.5)
check("clusters towards both ends", both(0.25) < 0.25 and both(0.75) > 0.75)
same("both ends keep the middle", both(0.5), 0.5)
def rob(eta, alpha):
    lam = ((beta + 1.0) / (beta - 1.0)) ** ((eta - alpha) / (1.0 - alpha))
    return ((beta + 2.0 * alpha) * lam - beta + 2.0 * alpha) / ((2.0 * alpha + 1.0) * (1.0 + lam))
same("Roberts transformation, one end", g(x), rob(x, 0.0))
same("Roberts transformation, both ends", both(x), rob(x, 0.5))
same("linear", LinearFunction()(x), x)
''')
    S(d, "distributions", '''
from hypervehicle.geometry.path import RobertsFunction, LinearFunction, clustered_roberts, distribute_points
beta = real("beta", 1.01, 3)
lo, hi = real("lo"), real("hi")
for n in (1, 2, 3, 5):
    same("linear values", [q for q in LinearFunction().distribute_parameter_values(n + 1)], [i / n for i in range(n + 1)])
    for a in (False, True):
        for b in (False, True):
            v = distribute_points(lo, hi, n, a, b, beta)
            check("one value more than intervals", len(v) == n + 1)
            same("first value", v[0], lo)
            same("last value", v[n], hi)
            f = RobertsFunction(a, b, beta)
            same("clustered between", [q for q in v], [lo + f(i / n) * (hi - lo) for i in range(n + 1)])
            same("as many values as asked", [q for q in f.distribute_parameter_values(n + 1)], [f(i / n) for i in range(n + 1)])
''')
