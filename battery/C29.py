from lib import *
from electrode import transformations as t

assert hasattr(t, "_py_euler_matrix"), "the C extension is not loaded"
NAMES = [f + a + b + c for f in "sr" for a in "xyz" for b in "xyz" for c in "xyz" if a != b and b != c]
IMPL = ("", "_py_")


def get(p, n):
    return getattr(t, p + n, getattr(t, n))


def el(ax, a):
    s, c = np.sin(a), np.cos(a)
    return np.array({"x": [[1, 0, 0], [0, c, -s], [0, s, c]], "y": [[c, 0, s], [0, 1, 0], [-s, 0, c]], "z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[ax])


def tup(name):
    seq = name[1:] if name[0] == "s" else name[:0:-1]
    i, j = "xyz".index(seq[0]), "xyz".index(seq[1])
    return (i, 0 if (i + 1) % 3 == j else 1, int(seq[0] == seq[2]), int(name[0] == "r"))


def prod(name, ang):
    R = [el(l, a) for l, a in zip(name[1:], ang)]
    return R[2].dot(R[1]).dot(R[0]) if name[0] == "s" else R[0].dot(R[1]).dot(R[2])


def hom(R, p=(0, 0, 0)):
    M = np.identity(4)
    M[:3, :3] = R
    M[:3, 3] = p
    return M


def qm(q):
    w, x, y, z = np.array(q) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def angles(rng):
    a = rng.uniform(-7, 7, 3)
    k = rng.randint(0, 4)
    if k == 0:
        a[1] = rng.randint(-3, 4) * np.pi / 2
    if k == 1:
        a = rng.randint(-4, 5, 3) * np.pi / 2
    return a


@case("euler angles", 20)
def e(rng):
    for name in NAMES:
        a = angles(rng)
        R = prod(name, a)
        for p in IMPL:
            for ax in (name, tup(name)):
                close(get(p, "euler_matrix")(a[0], a[1], a[2], ax), hom(R), 1e-12, "euler_matrix %s%s" % (p, ax), 1)
                H = hom(R, rng.randn(3))
                H0 = H.copy()
                b = get(p, "euler_from_matrix")(H, ax)
                same(H.tolist(), H0.tolist(), "argument")
                close(prod(name, b), R, 1e-7, "euler_from_matrix %s%s" % (p, ax), 1)
                q = get(p, "quaternion_from_euler")(a[0], a[1], a[2], ax)
                close(np.dot(q, q), 1., 1e-12)
                close(qm(q), R, 1e-12, "quaternion_from_euler %s%s" % (p, ax), 1)
                close(prod(name, t.euler_from_quaternion(q, ax)), R, 1e-7, "euler_from_quaternion", 1)
    close(t.euler_matrix(*a), hom(prod("sxyz", a)), 1e-12, "default axes", 1)


@case("rotation about an axis", 60)
def r(rng):
    an = rng.uniform(-7, 7) if rng.randint(3) else rng.randint(-4, 5) * np.pi / 2
    d = rng.randn(3) * 10. ** rng.randint(-6, 7)
    if rng.randint(2):
        d[rng.randint(3)] = 0
    p = rng.randn(3)
    u = d / np.linalg.norm(d)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    R = np.cos(an) * np.identity(3) + (1 - np.cos(an)) * np.outer(u, u) + np.sin(an) * K
    for pre in IMPL:
        d0, p0 = d.copy(), p.copy()
        close(get(pre, "rotation_matrix")(an, d), hom(R), 1e-12, "rotation_matrix", 1)
        close(get(pre, "rotation_matrix")(an, list(d), tuple(p)), hom(R, p - R.dot(p)), 1e-12, "rotation_matrix point", 1)
        close(get(pre, "rotation_matrix")(an, d, p), hom(R, p - R.dot(p)), 1e-12, "rotation_matrix point", 1)
        q = get(pre, "quaternion_about_axis")(an, d)
        close(q, np.r_[np.cos(an / 2), np.sin(an / 2) * u], 1e-12, "quaternion_about_axis", 1)
        same((d.tolist(), p.tolist()), (d0.tolist(), p0.tolist()), "arguments")


@case("quaternion from matrix", 60)
def m(rng):
    q = rng.randn(4)
    if rng.randint(2):
        q[rng.randint(4)] = 0
    if rng.randint(2):
        q[rng.randint(4)] *= 10
    q /= np.linalg.norm(q)
    H = hom(qm(q))
    for pre in IMPL:
        for prec in (False, True):
            H0 = H.copy()
            r = get(pre, "quaternion_from_matrix")(H, prec)
            same(H.tolist(), H0.tolist(), "argument")
            close(r * np.sign(np.dot(r, q)), q, 1e-6, "quaternion_from_matrix %s %s" % (pre, prec), 1)


main()
