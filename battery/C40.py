from lib import *
import math
from electrode import transformations as t

assert hasattr(t, "_py_quaternion_slerp"), "the C extension is not loaded"


def get(p, n):
    return getattr(t, p + n, getattr(t, n))


def unit(v):
    v = np.array(v, float)
    return v / np.linalg.norm(v)


@case("slerp", 80)
def slerp(rng):
    a, b = rng.randn(2, 4)
    if rng.randint(3) == 0:
        a, b = np.round(a), np.round(b)
        a[0] += 3
        b[1] += 4
    f = rng.choice([0., 1, -1, .5, 2, -2, rng.uniform(-3, 3)])
    spin, short = int(rng.randint(-2, 3)), bool(rng.randint(2))
    u, v = unit(a), unit(b)
    d = u.dot(v)
    if abs(d) > 1 - 1e-4 or short and abs(d) < 1e-9:
        return
    w, c = (-v, -d) if short and d < 0 else (v, d)
    al = math.acos(c) + spin * math.pi
    want = u if f == 0 else v if f == 1 else (math.sin((1 - f) * al) * u + math.sin(f * al) * w) / math.sin(al)
    for p in ("", "_py_"):
        for conv in (np.array, list, tuple):
            x, y = conv(a), conv(b)
            g = get(p, "quaternion_slerp")
            close(g(x, y, f, spin, short), want, 1e-7, "slerp%s" % p, 1)
            if spin == 0 and short:
                close(g(x, y, f), want, 1e-7, "slerp%s" % p, 1)
            close(g(x, conv(a * 2), f), u, 1e-9, "same", 1)
            same(list(x), list(conv(a)), "argument")
            same(list(y), list(conv(b)), "argument")


@case("random rotations", 40)
def rnd(rng):
    r = rng.rand(3)
    if rng.randint(4) == 0:
        r[rng.randint(3)] = rng.choice([0, 1])
    w = [math.cos(2 * math.pi * r[2]) * math.sqrt(r[0]), math.sin(2 * math.pi * r[1]) * math.sqrt(1 - r[0]),
         math.cos(2 * math.pi * r[1]) * math.sqrt(1 - r[0]), math.sin(2 * math.pi * r[2]) * math.sqrt(r[0])]
    for p in ("", "_py_"):
        for conv in (np.array, list, tuple):
            close(get(p, "random_quaternion")(conv(r)), w, 1e-12, "random quaternion", 1)
            close(get(p, "random_rotation_matrix")(conv(r)), t._py_quaternion_matrix(w), 1e-12, "random matrix", 1)
        close(np.linalg.norm(get(p, "random_quaternion")()), 1, 1e-12)
        m = get(p, "random_rotation_matrix")()
        close(m.T.dot(m), np.identity(4), 1e-12, "orthogonal", 1)
        close(np.linalg.det(m), 1, 1e-12, "right-handed")


@case("sphere and axis", 60)
def sphere(rng):
    c, p = rng.randn(2, 2) * 10
    r = rng.uniform(.5, 20)
    x = np.array([p[0] - c[0], c[1] - p[1]]) / r
    n = math.hypot(*x)
    want = list(x / n) + [0] if n > 1 else list(x) + [math.sqrt(1 - n * n)]
    a = unit(rng.randn(3))
    if rng.randint(3) == 0:
        a = np.eye(3)[rng.randint(3)] * rng.choice([-1, 1])
    v = unit(rng.randn(3))
    for q in ("", "_py_"):
        for conv in (np.array, list, tuple):
            close(get(q, "arcball_map_to_sphere")(conv(p), conv(c), r), want, 1e-9, "sphere", 1)
            k = get(q, "arcball_constrain_to_axis")
            w = k(conv(v), conv(a))
            rej = v - a * a.dot(v)
            if np.linalg.norm(rej) > 1e-3:
                close(w * np.sign(w.dot(rej)), unit(rej), 1e-9, "rejection", 1)
                if q == "_py_" and abs(rej[2]) > 1e-9:
                    assert w[2] >= 0, "upper half"
            w = k(conv(a * .5), conv(a))
            close([np.linalg.norm(w), np.dot(w, a)], [1, 0], 1e-9, "pole", 1)


@case("arcball", 60)
def ball(rng):
    q = unit(rng.randn(4))
    cen, r = rng.randn(2) * 5 + 300, rng.uniform(50, 200)
    P = cen + rng.randn(5, 2) * r * .6
    axes = [unit(rng.randn(3)) for i in range(rng.randint(1, 4))]
    hold = bool(rng.randint(2))
    start = [q * 2, (q * 3).tolist(), t.quaternion_matrix(q)][rng.randint(3)]
    b = t.Arcball(start)
    cl = list(cen)
    b.place(cl, r)
    cl[0] = 0
    b.constrain = hold
    b.setaxes(*[a * 2 for a in axes])
    on = lambda p: t._py_arcball_map_to_sphere(p, cen, r)
    turn = lambda v, w: np.r_[v.dot(w), np.cross(v, w)]
    ham = lambda x, y: np.r_[x[0] * y[0] - x[1:].dot(y[1:]), x[0] * y[1:] + y[0] * x[1:] + np.cross(x[1:], y[1:])]
    ori, axis = q, None
    ok = lambda what: close(b.matrix(), t._py_quaternion_matrix(ori), 1e-8, what, 1)
    ok("placed")
    kinds = "dmmdmmmdmn" if rng.randint(2) else "d" + "".join("dmmmn"[i] for i in rng.randint(5, size=9))
    pre = ori
    for k, (kind, p) in enumerate(zip(kinds, rng.randint(5, size=10))):
        if kind == "n":
            new = t._py_quaternion_slerp(pre, ori, 2.5, False)
            b.next(.5)
            pre, ori = ori, new
            ok("step %d, next" % k)
            continue
        v = on(P[p])
        if kind == "d":
            b.down(P[p])
            base = pre = ori
            if hold:
                s = [np.dot(t.arcball_constrain_to_axis(v, a), v) for a in axes]
                if len(s) > 1 and np.sort(s)[-1] - np.sort(s)[-2] < 1e-6:
                    return
                axis = axes[int(np.argmax(s))]
                v = t.arcball_constrain_to_axis(v, axis)
            v0 = v
        else:
            b.drag(P[p].tolist())
            v = t.arcball_constrain_to_axis(v, axis) if hold else v
            pre = ori
            ori = base if np.linalg.norm(np.cross(v0, v)) < 1e-7 else ham(turn(v0, v), base)
        ok("step %d" % k)
    raises(ValueError, t.Arcball, np.identity(3))
    close(t.Arcball().matrix(), np.identity(4), 1e-12)


@case("vectors", 60)
def vectors(rng):
    sh = tuple(rng.randint(1, 5, rng.randint(1, 4)))
    a = rng.randn(*sh)
    big = np.zeros([2 * s for s in sh])
    strided = big[tuple([slice(None, None, 2)] * len(sh))]
    strided[...] = a
    for p in ("", "_py_"):
        N, U = get(p, "vector_norm"), get(p, "unit_vector")
        for x in (a, np.asfortranarray(a), a.tolist(), strided):
            close(np.reshape(N(x), ()), np.sqrt((a * a).sum()), 1e-12, "norm")
            close(U(x), a / np.sqrt((a * a).sum()), 1e-12, "unit")
            for ax in range(-a.ndim, a.ndim):
                if a.ndim > 1:
                    close(N(x, axis=ax), np.sqrt((a * a).sum(ax)), 1e-12, "norm axis")
                    o = np.empty(np.delete(sh, ax))
                    N(x, axis=ax, out=o)
                    close(o, np.sqrt((a * a).sum(ax)), 1e-12, "norm out")
                w = a / np.expand_dims(np.sqrt((a * a).sum(ax)), ax)
                close(U(x, axis=ax), w, 1e-12, "unit axis")
                o = np.empty(sh)
                U(x, axis=ax, out=o)
                close(o, w, 1e-12, "unit out")
        same(float(N([])), 0., "empty")
        same(N([1]), 1., "one")
        v, w = rng.randn(2, 3, 4)
        for q in (0, 1):
            x, y = (v, w) if q == 0 else (v.T, w.T)
            close(get(p, "vector_product")(x, y, axis=q), np.cross(x, y, axis=q), 1e-12, "product")
            cs = (v * w).sum(0) / np.sqrt((v * v).sum(0) * (w * w).sum(0))
            close(get(p, "angle_between_vectors")(x, y, axis=q), np.arccos(cs), 1e-7, "angle")
            close(get(p, "angle_between_vectors")(x, y, directed=False, axis=q), np.arccos(abs(cs)), 1e-7, "angle")
        q = rng.randn(4)
        for s in (1, -1):
            same(bool(get(p, "is_same_quaternion")(q, (s * q).tolist())), True, "same quaternion")
        same(bool(get(p, "is_same_quaternion")(q, q + [1, 0, 0, 0])), False, "other quaternion")


main()
