from lib import *
from electrode import transformations as t

assert hasattr(t, "_py_quaternion_multiply"), "the C extension is not loaded"


def get(p, n):
    return getattr(t, p + n, getattr(t, n))


def ham(a, b):
    return np.array([a[0] * b[0] - np.dot(a[1:], b[1:])] + list(a[0] * b[1:] + b[0] * a[1:] + np.cross(a[1:], b[1:])))


def qm(q):
    w, x, y, z = np.array(q) / np.linalg.norm(q)
    M = np.identity(4)
    M[:3, :3] = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                          [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    return M


@case("quaternion algebra", 80)
def q(rng):
    a, b = rng.randn(2, 4) * 10. ** rng.randint(-3, 4)
    if rng.randint(2):
        a[rng.randint(4)] = 0
    if rng.rand() < .4:
        a = a / np.linalg.norm(a) * (1 + [0, 1e-12, 1e-8, 1e-6, 1e-5, 1e-3][rng.randint(6)] * (rng.rand() - .5))
    if rng.randint(2):
        b[rng.randint(4)] = 0
    one = np.array([1., 0, 0, 0])
    for p in ("", "_py_"):
        for conv in (np.array, list, tuple):
            x, y = conv(a), conv(b)
            mul, cj, inv, mat = [get(p, "quaternion_" + n) for n in ("multiply", "conjugate", "inverse", "matrix")]
            close(mul(x, y), ham(a, b), 1e-12, "product")
            close(cj(x), a * [1, -1, -1, -1], 1e-14, "conjugate")
            close(mul(x, inv(x)), one, 1e-10, "inverse", 1)
            close(inv(x), a * [1, -1, -1, -1] / a.dot(a), 1e-10, "inverse")
            close(mul(inv(x), x), one, 1e-10, "inverse", 1)
            close(mat(x), qm(a), 1e-12, "matrix", 1)
            close(mat(mul(x, y)), mat(x).dot(mat(y)), 1e-10, "matrix of a product", 1)
            same(list(x), a.tolist(), "argument %s" % p)
            same(list(y), b.tolist(), "argument %s" % p)
        an, d = rng.uniform(-7, 7), rng.randn(3)
        close(mat(get(p, "quaternion_about_axis")(an, d)), get(p, "rotation_matrix")(an, d), 1e-12, "axis", 1)


main()
