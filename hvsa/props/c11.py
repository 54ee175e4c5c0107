from .common import S, METHOD

RULE = "vector-term equality: every operation equals its componentwise Euclidean definition, frames round-trip"
EXPLANATION = METHOD + "Contexts: every operator and method of the vector type with symbolic real components and scalars; frames given by three symbolic Euler angles and a symbolic origin."


def run(d):
    S(d, "vector operators", '''
from hypervehicle.geometry.vector import cross_product, approximately_equal_vectors
ax, ay, az = real("ax"), real("ay"), real("az")
bx, by, bz = real("bx"), real("by"), real("bz")
k = real("k")
def A():
    return Vector3(ax, ay, az)
def B():
    return Vector3(bx, by, bz)
same("construction", xyz(A()), (ax, ay, az))
same("missing components are zero", xyz(Vector3(ax)), (ax, 0.0, 0.0))
same("missing z is zero", xyz(Vector3(ax, ay)), (ax, ay, 0.0))
same("by keyword", xyz(Vector3(z=az, y=ay, x=ax)), (ax, ay, az))
same("copy", xyz(Vector3(A())), (ax, ay, az))
same("addition", xyz(A() + B()), (ax + bx, ay + by, az + bz))
same("subtraction", xyz(A() - B()), (ax - bx, ay - by, az - bz))
same("negation", xyz(-A()), (-ax, -ay, -az))
same("scaling", xyz(A() * k), (ax * k, ay * k, az * k))
same("scaling from the left", xyz(k * A()), (ax * k, ay * k, az * k))
same("division", xyz(A() / k), (ax / k, ay / k, az / k))
same("magnitude", abs(A()), math.sqrt(ax * ax + ay * ay + az * az))
same("norm", A().norm, math.sqrt(ax * ax + ay * ay + az * az))
same("unit", xyz(A().unit), tuple(q / math.sqrt(ax * ax + ay * ay + az * az) for q in (ax, ay, az)))
same("array form", [q for q in A().vec], [ax, ay, az])
same("from coordinates", xyz(Vector3.from_coordinates([ax, ay, az])), (ax, ay, az))
same("from coordinates array", xyz(Vector3.from_coordinates(np.array([ax, ay, az]))), (ax, ay, az))
same("dot", A().dot(B()), ax * bx + ay * by + az * bz)
same("cross", xyz(cross_product(A(), B())), (ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx))
same("equality", A() == B(), ax == bx and ay == by and az == bz)
same("equality of equals", A() == A(), True)
same("inequality", A() != B(), not (ax == bx and ay == by and az == bz))
v = A()
v.normalize()
same("normalize", xyz(v), tuple(q / math.sqrt(ax * ax + ay * ay + az * az) for q in (ax, ay, az)))
v = A()
v *= k
same("in-place scaling", xyz(v), (ax * k, ay * k, az * k))
v = A()
v /= k
same("in-place division", xyz(v), (ax / k, ay / k, az / k))
v = A()
v += B()
same("in-place addition", xyz(v), (ax + bx, ay + by, az + bz))
v = A()
v -= B()
same("in-place subtraction", xyz(v), (ax - bx, ay - by, az - bz))
def close(p, q, rel, ab):
    return abs(p - q) <= ab + rel * abs(q)
same("approximate equality", approximately_equal_vectors(A(), B(), 0.01, 0.001), close(ax, bx, 0.01, 0.001) and close(ay, by, 0.01, 0.001) and close(az, bz, 0.01, 0.001))
same("approximate equality of equals", approximately_equal_vectors(A(), A()), True)
''')
    S(d, "operands stay as they were", '''
from hypervehicle.geometry.vector import cross_product
a, b, k = vec("a"), vec("b"), real("k")
for res in (a + b, a - b, -a, a * k, k * a, a / k, a.unit, cross_product(a, b), Vector3(a)):
    disjoint("result is a new vector", res, a, b)
a.dot(b)
a == b
abs(a)
a.norm
same("first operand", xyz(a), xyz(vec("a")))
same("second operand", xyz(b), xyz(vec("b")))
c = vec("c")
m = c
m += a
same("addition leaves the old vector", xyz(c), xyz(vec("c")))
''')
    S(d, "unsupported operands", '''
a = vec("a")
for bad in (1.0, 3, None, "x", (1.0, 2.0, 3.0), [1.0, 2.0, 3.0]):
    raises("adding", lambda: a + bad)
    raises("subtracting", lambda: a - bad)
    raises("dot", lambda: a.dot(bad))
    raises("comparing", lambda: a == bad)
for bad in (None, "x", (1.0, 2.0, 3.0), [1.0, 2.0, 3.0], {}):
    raises("construction", lambda: Vector3(bad), ValueError)
raises("construction without arguments", lambda: Vector3(), ValueError)
raises("construction without x", lambda: Vector3(y=1.0, z=2.0), ValueError)
def idiv(v, w):
    v /= w
    return v
def imul(v, w):
    v *= w
    return v
for bad in (None, "x"):
    raises("in-place division", lambda: idiv(vec("a"), bad))
    raises("in-place scaling", lambda: imul(vec("a"), bad))
    raises("division", lambda: vec("a") / bad)
raises("scaling by nothing", lambda: vec("a") * None)
''')
    S(d, "frames", '''
e1, e2, e3 = real("e1", -3, 3), real("e2", -3, 3), real("e3", -3, 3)
def frame(p):
    return rot(rot(rot(p, e1, "x"), e2, "y"), e3, "z")
def V(p):
    return Vector3(p[0], p[1], p[2])
n, t1, t2 = V(frame((1.0, 0.0, 0.0))), V(frame((0.0, 1.0, 0.0))), V(frame((0.0, 0.0, 1.0)))
def dot(p, q):
    return p[0] * q[0] + p[1] * q[1] + p[2] * q[2]
for c in (None, vec("c")):
    o = (0.0, 0.0, 0.0) if c is None else xyz(c)
    p = vec("p")
    q = p.transform_to_local_frame(n, t1, t2, c)
    dp = minus(xyz(vec("p")), o)
    same("local coordinates", xyz(q), (dot(dp, xyz(n)), dot(dp, xyz(t1)), dot(dp, xyz(t2))))
    back = q.transform_to_global_frame(n, t1, t2, c)
    same("there and back", xyz(back), xyz(vec("p")))
    g = vec("p").transform_to_global_frame(n, t1, t2, c)
    same("global coordinates", xyz(g), plus(o, plus(plus(scale(xyz(n), real("px")), scale(xyz(t1), real("py"))), scale(xyz(t2), real("pz")))))
    same("back and there", xyz(g.transform_to_local_frame(n, t1, t2, c)), xyz(vec("p")))
    v = vec("p")
    v.transform_to_local_frame(n, t1, t2, c)
    same("the vector itself takes local coordinates", xyz(v), (dot(dp, xyz(n)), dot(dp, xyz(t1)), dot(dp, xyz(t2))))
    v.transform_to_global_frame(n, t1, t2, c)
    same("the vector itself, there and back", xyz(v), xyz(vec("p")))
    if c is not None:
        same("origin unchanged", xyz(c), xyz(vec("c")))
same("frame vectors unchanged", (xyz(n), xyz(t1), xyz(t2)), (frame((1.0, 0.0, 0.0)), frame((0.0, 1.0, 0.0)), frame((0.0, 0.0, 1.0))))
''')
