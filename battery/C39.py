from lib import *
from electrode import transformations as t

assert hasattr(t, "_py_projection_matrix"), "the C extension is not loaded"


def get(p, n):
    return getattr(t, p + n, getattr(t, n))


def unit(v):
    v = np.array(v, float)
    return v / np.linalg.norm(v)


def act(m, x):
    y = np.dot(m, list(x) + [1.])
    return y[:3] / y[3]


def mx(n):
    """the matrix of an affine map"""
    m = np.identity(4)
    m[:3, 3] = n(np.zeros(3))
    for i in range(3):
        m[:3, i] = n(np.eye(3)[i]) - m[:3, 3]
    return m


def each(rng):
    for p in ("", "_py_"):
        for conv in (np.array, list, tuple):
            yield p, conv


def vec(rng, k=3):
    v = rng.randn(k) * 10. ** rng.randint(-2, 3)
    if rng.randint(3) == 0:
        v[rng.randint(k)] = 0
    if rng.randint(4) == 0:
        v = np.eye(k)[rng.randint(k)] * rng.choice([-1, 1, 2.5])
    return v


@case("named matrices act as named", 60)
def named(rng):
    a, b, c = vec(rng), vec(rng), vec(rng)
    an, f = rng.uniform(-7, 7), rng.choice([-2, -1, 0, .5, 1, 3.])
    nb = unit(b)
    for p, conv in each(rng):
        x, y = conv(a), conv(b)
        e = 1e-10
        close(get(p, "identity_matrix")(), np.identity(4), e)
        close(get(p, "translation_matrix")(x), mx(lambda v: v + a), e, "translation", 1)
        close(t.translation_from_matrix(get(p, "translation_matrix")(x)), a, e, "translation back", 1)
        close(get(p, "reflection_matrix")(x, y), mx(lambda v: v - 2 * nb * np.dot(v - a, nb)), e, "reflection", 1)
        R = get(p, "rotation_matrix")(an, y, x)
        close(R, mx(lambda v: a + np.cos(an) * (v - a) + np.sin(an) * np.cross(nb, v - a) + (1 - np.cos(an)) * nb * np.dot(nb, v - a)), e, "rotation", 1)
        close(get(p, "rotation_matrix")(an, y), mx(lambda v: np.cos(an) * v + np.sin(an) * np.cross(nb, v) + (1 - np.cos(an)) * nb * np.dot(nb, v)), e, "rotation", 1)
        close(get(p, "scale_matrix")(f), mx(lambda v: f * v), e, "scale", 1)
        close(get(p, "scale_matrix")(f, x), mx(lambda v: a + f * (v - a)), e, "scale", 1)
        close(get(p, "scale_matrix")(f, x, y), mx(lambda v: v + (f - 1) * nb * np.dot(v - a, nb)), e, "scale along", 1)
        close(get(p, "scale_matrix")(f, None, y), mx(lambda v: v + (f - 1) * nb * np.dot(v, nb)), e, "scale along", 1)
        same(list(x), a.tolist(), "argument %s" % p)
        same(list(y), b.tolist(), "argument %s" % p)


@case("projections", 60)
def proj(rng):
    a, b, c = vec(rng), vec(rng), vec(rng)
    nb = unit(b)
    v = rng.randn(3)
    for p, conv in each(rng):
        g = get(p, "projection_matrix")
        close(g(conv(a), conv(b)), mx(lambda v: v - nb * np.dot(v - a, nb)), 1e-10, "orthogonal", 1)
        if abs(np.dot(unit(c), nb)) > 1e-3:
            close(g(conv(a), conv(b), conv(c)), mx(lambda v: v - c * np.dot(v - a, nb) / np.dot(c, nb)), 1e-8, "parallel", 1)
        for pseudo in (False, True):
            m = g(conv(a), conv(b), None, conv(c), pseudo)
            if abs(np.dot(c - a, nb)) < 1e-3 or abs(np.dot(c - v, nb)) < 1e-3:
                continue
            y = act(m, v)
            h = v + (c - v) * np.dot(a - v, nb) / np.dot(c - v, nb)
            if not pseudo:
                close(y, h, 1e-7, "perspective", 1)
            else:
                close(y - nb * np.dot(y - h, nb), h, 1e-7, "pseudo", 1)
                w = v - nb * np.dot(v - a, nb)
                close(act(m, w), w, 1e-7, "pseudo keeps the plane", 1)


@case("clip and shear", 60)
def clip(rng):
    l, b, n = rng.randn(3)
    n = abs(n) + .1
    r, o, f = np.array([l, b, n]) + abs(rng.randn(3)) + .1
    for p in ("", "_py_"):
        g = get(p, "clip_matrix")
        m = g(l, r, b, o, n, f, False)
        M = g(l, r, b, o, n, f, True)
        for i in (0, 1):
            for j in (0, 1):
                for k in (0, 1):
                    w = np.array([2 * i - 1, 2 * j - 1, 2 * k - 1.])
                    x = np.array([(l, r)[i], (b, o)[j], (n, f)[k]])
                    close(act(m, x), w, 1e-8, "box corner", 1)
                    z = (n, f)[k]
                    close(act(M, [x[0] * z / n, x[1] * z / n, z]), w, 1e-7, "frustum corner", 1)
        raises(ValueError, g, r, l, b, o, n, f)
        raises(ValueError, g, l, r, b, o, f, n)
        raises(ValueError, g, l, r, b, o, -n, f, True)
    d, nn, q = vec(rng), vec(rng), vec(rng)
    nn = np.cross(d, nn)
    if np.linalg.norm(nn) < 1e-3 * np.linalg.norm(d):
        return
    nn = unit(nn)
    an = rng.uniform(-1.4, 1.4)
    for p, conv in each(rng):
        close(get(p, "shear_matrix")(an, conv(d), conv(q), conv(nn)), mx(lambda v: v + np.tan(an) * unit(d) * np.dot(v - q, nn)), 1e-9, "shear", 1)
        raises(ValueError, get(p, "shear_matrix"), an, conv(d), conv(q), conv(nn + d))


@case("crystal cells", 40)
def cell(rng):
    L = np.exp(rng.uniform(-2, 3, 3))
    an = rng.uniform(70, 110, 3)
    for p, conv in each(rng):
        m = get(p, "orthogonalization_matrix")(conv(L), conv(an))
        G = m[:3, :3].T.dot(m[:3, :3])
        al, be, ga = np.cos(np.radians(an))
        w = np.outer(L, L) * np.array([[1, ga, be], [ga, 1, al], [be, al, 1]])
        close(G, w, 1e-10, "metric")
        close(np.r_[m[3], m[:3, 3]], [0, 0, 0, 1, 0, 0, 0], 1e-10, "affine")


@case("concatenation, inverse, comparison", 40)
def algebra(rng):
    for p in ("", "_py_"):
        ms = [rng.randn(4, 4) for i in range(rng.randint(0, 5))]
        w = np.identity(4)
        for m in ms:
            w = w.dot(m)
        close(get(p, "concatenate_matrices")(*ms), w, 1e-10, "product", 1)
        for n in range(1, 9):
            m = rng.randn(n, n)
            if n > 1 and rng.randint(2):
                m = m[rng.permutation(n)] * (rng.rand(n, n) > .5) + np.eye(n)[rng.permutation(n)] * 5
            if np.linalg.cond(m) > 1e6:
                continue
            for conv in (np.array, lambda a: a.tolist(), np.asfortranarray):
                close(get(p, "inverse_matrix")(conv(m)).dot(m), np.identity(n), 1e-7, "inverse", 1)
        raises(Exception, get(p, "inverse_matrix"), np.zeros((5, 5)))
        raises(Exception, get(p, "inverse_matrix"), np.zeros((3, 3)))
        m = rng.randn(4, 4)
        m[3, 3] = rng.choice([-1, 1]) * rng.uniform(.5, 2)
        same(bool(get(p, "is_same_transform")(m, m * rng.choice([-3., .01, 1, 200]))), True, "same")
        d = m.copy()
        d[rng.randint(3), rng.randint(4)] += .1
        same(bool(get(p, "is_same_transform")(m, d)), False, "different")


@case("compose and decompose", 60)
def compose(rng):
    s, z, e, tr = rng.uniform(.2, 3, 3) * rng.choice([-1, 1]), rng.randn(3), rng.uniform(-1.5, 1.5, 3), rng.randn(3)
    if rng.randint(3) == 0:
        e[1] = rng.choice([-1, 1]) * np.pi / 2
    p = rng.randn(4) * rng.randint(2)
    p[3] = 1 - np.dot(p[:3], tr)
    if abs(p[3]) < .05 or 0 < np.abs(p[:3]).max() < 1e-2:
        p[:] = 0, 0, 0, 1
    for conv in (np.array, list, tuple):
        m = t.compose_matrix(conv(s), conv(z), conv(e), conv(tr), conv(p))
        P = np.identity(4)
        P[3] = p
        T = t.translation_matrix(tr)
        Zm = np.identity(4)
        Zm[0, 1], Zm[0, 2], Zm[1, 2] = z
        R = t.euler_matrix(*e)
        w = P.dot(T).dot(R).dot(Zm).dot(np.diag(list(s) + [1]))
        close(m, w / w[3, 3], 1e-9, "compose", 1)
        if abs(np.linalg.det(w)) < 1e-3 or np.linalg.cond(w) > 1e4:
            return
        k = rng.uniform(.1, 5)
        for arg in (m * k, (m * k).tolist()):
            out = t.decompose_matrix(arg)
            close(t.compose_matrix(*out), m, 1e-6, "compose(decompose)", 1)
        close(out[0], s, 1e-6, "scale", 1)
        close(out[1], z, 1e-6, "shear", 1)
        close(t.euler_matrix(*out[2]), R, 1e-6, "angles", 1)
        close(out[3], tr, 1e-6, "translation", 1)
        close(out[4], p, 1e-6, "perspective", 1)


@case("decompose with exact right angles", 6)
def gimbal(rng):
    a, g = rng.uniform(-3, 3, 2)
    for sg in (1, -1):
        # the middle angle of +-pi/2 without rounding
        ca, sa, cg, sg_ = np.cos(a), np.sin(a), np.cos(g), np.sin(g)
        Ry = np.array([[0, 0, sg], [0, 1, 0], [-sg, 0, 0.]])
        Rx = np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
        m = np.identity(4)
        m[:3, :3] = Ry.dot(Rx)
        close(t.euler_matrix(*t.decompose_matrix(m)[2]), m, 1e-9, "gimbal", 1)


main()
