"""C39: homogeneous transformation matrices do what their names say, in both implementations."""
from checks.xforms import *
from pyvc import npmodel

INFO = {"build": True}
SMALL = T.num(Fraction(1, 10 ** 12), "R")       # shorter vectors are rejected or treated as zero by the code
Z, ONE = T.num(0, "R"), T.num(1, "R")


def go(c, impl, fn, args, kw=None, label=None, extra=()):
    """(I, matrix entries) on the single feasible path; array arguments unchanged"""
    I, f = c.I39, c.f39
    label = label or fn
    before = [I.copy_arr(a) if isinstance(a, Arr) else None for a in args]
    out = []
    for p in c.paths(lambda: I.call(f(fn), list(args), dict(kw or {}))):
        if S.check(list(I.pc), 10000) == "unsat":
            continue
        if p.kind == "raise":
            c.fail(label + ".no exception", str(p.value))
            continue
        for k, (a, b) in enumerate(zip(args, before)):
            if b is not None:
                c.eq("%s.argument %d unchanged" % (label, k), a, b)
        out.append((p.value, list(I.pc), dict(I.heap)))
    if len(out) != 1:
        c.fail(label, "%d paths" % len(out), status="undecided")
        raise Stop()
    I.pc, I.heap = out[0][1], out[0][2]
    r = I.as_arr(out[0][0])
    if tuple(r.shape) != (4, 4):
        c.fail(label + ".shape", repr(r.shape))
        raise Stop()
    return entries(I, r)


def raises(c, fn, args, kw=None, label=None, exc="ValueError"):
    """every path ends in the exception"""
    I, f = c.I39, c.f39
    n = 0
    for p in c.paths(lambda: I.call(f(fn), list(args), dict(kw or {}))):
        if S.check(list(I.pc), 10000) == "unsat":
            continue
        n += 1
        if p.kind != "raise" or p.value.cls is not I.builtins[exc]:
            c.fail(label + ".raises " + exc, str(p.value))
    c.true(label + ".raises " + exc, n > 0)


def act(m, x):
    """m (x, 1): three numerators and the homogeneous weight"""
    v = list(x) + [ONE]
    return [T.add(*[T.mul(m[i][k], v[k]) for k in range(4)]) for i in range(4)]


def affine(c, label, m, x, want):
    """the matrix maps the point x to `want`, with unit weight for every point"""
    y = act(m, x)
    for i in range(3):
        c.eq("%s[%d]" % (label, i), y[i], want[i])
    for k in range(4):
        c.eq("%s.last row[%d]" % (label, k), m[3][k], ONE if k == 3 else Z)


def add(a, b):
    return [T.add(x, y) for x, y in zip(a, b)]


def sub(a, b):
    return [T.sub(x, y) for x, y in zip(a, b)]


def scl(k, a):
    return [T.mul(k, x) for x in a]


def cross(a, b):
    m = T.mul
    return [T.sub(m(a[1], b[2]), m(a[2], b[1])), T.sub(m(a[2], b[0]), m(a[0], b[2])), T.sub(m(a[0], b[1]), m(a[1], b[0]))]


def kinds(I, v, kind):
    return arr(I, v) if kind == "array" else I.newlist(list(v)) if kind == "list" else tuple(v)


def nonzero(I, *vs):
    for v in vs:
        I.assume(T.lt(SMALL, dot(v, v)))


def both(*names):
    """an obligation per implementation; C functions only where the C file defines them"""
    def deco(fn):
        for impl in IMPL:
            def reg(impl=impl):
                @ob("%s (%s)" % (fn.__name__.replace("_", " "), impl), funcs(*names), timeout=120)
                def g(c):
                    c.I39, c.f39 = world(c, impl, names)
                    fn(c, c.I39, impl)
            reg()
        return fn
    return deco


X = vec("x")


@both("identity_matrix", "translation_matrix")
def identity_and_translation(c, I, impl):
    affine(c, "identity", go(c, impl, "identity_matrix", []), X, X)
    d = vec("d")
    for kind in ("array", "list", "tuple"):
        affine(c, "x + d (%s)" % kind, go(c, impl, "translation_matrix", [kinds(I, d, kind)], label="translation_matrix " + kind), X, add(X, d))
    affine(c, "x + d (4-vector)", go(c, impl, "translation_matrix", [arr(I, d + [T.var("w", "R")])], label="translation 4"), X, add(X, d))


@both("reflection_matrix")
def reflection(c, I, impl):
    p, n = vec("p"), vec("n")
    nonzero(I, n)
    for kind in ("array", "list"):
        m = go(c, impl, "reflection_matrix", [kinds(I, p, kind), kinds(I, n, kind)], label="reflection " + kind)
        k = T.div(T.mul(2, dot(n, sub(X, p))), dot(n, n))
        affine(c, "x - 2 (n.(x-p)) n/|n|^2 (%s)" % kind, m, X, sub(X, scl(k, n)))
    y = act(m, X)[:3]
    y2 = act(m, y)[:3]
    for i in range(3):
        c.eq("twice is the identity[%d]" % i, y2[i], X[i])


@both("rotation_matrix")
def rotation(c, I, impl):
    p, d = vec("p"), vec("d")
    a = T.var("a", "R")
    nonzero(I, d)
    L = T.sqrt(dot(d, d))
    R = rodrigues([T.div(x, L) for x in d], cos(a), sin(a))
    for kind, pt in (("array", p), ("array", None), ("list", p)):
        m = go(c, impl, "rotation_matrix", [a, kinds(I, d, kind)] + ([kinds(I, pt, kind)] if pt else []), label="rotation %s %s" % (kind, pt is not None))
        o = pt or [Z] * 3
        want = add(o, [dot(R[i], sub(X, o)) for i in range(3)])
        affine(c, "about the axis through %s (%s)" % ("p" if pt else "the origin", kind), m, X, want)
    t = T.var("t", "R")
    m = go(c, impl, "rotation_matrix", [a, arr(I, d), arr(I, p)], label="rotation")
    axis = add(p, scl(t, d))
    affine(c, "the axis stays", m, axis, axis)


@both("scale_matrix")
def scale(c, I, impl):
    o, d = vec("o"), vec("d")
    f = T.var("f", "R")
    affine(c, "f x", go(c, impl, "scale_matrix", [f]), X, scl(f, X))
    for kind in ("array", "list"):
        affine(c, "o + f (x-o) (%s)" % kind, go(c, impl, "scale_matrix", [f, kinds(I, o, kind)], label="origin " + kind), X, add(o, scl(f, sub(X, o))))
    nonzero(I, d)
    for kind in ("array", "list"):
        for org in (True, False):
            r = sub(X, o) if org else X
            k = T.div(T.mul(T.sub(f, 1), dot(d, r)), dot(d, d))
            m = go(c, impl, "scale_matrix", [f, kinds(I, o, kind) if org else None, kinds(I, d, kind)], label="direction %s %s" % (kind, org))
            affine(c, "along d only, %s (%s)" % ("about o" if org else "about the origin", kind), m, X, add(X, scl(k, d)))


def height(n, x, p):
    """n.(x-p)/|n|"""
    return T.div(dot(n, sub(x, p)), T.sqrt(dot(n, n)))


@both("projection_matrix")
def projections(c, I, impl):
    p, n, d, q = vec("p"), vec("n"), vec("d"), vec("q")
    nonzero(I, n)
    k = T.div(dot(n, sub(X, p)), dot(n, n))
    for kind in ("array", "list"):
        P, N = kinds(I, p, kind), kinds(I, n, kind)
        orth = go(c, impl, "projection_matrix", [P, N], label="orthogonal " + kind)
        affine(c, "orthogonal: x - (n.(x-p)) n/|n|^2 (%s)" % kind, orth, X, sub(X, scl(k, n)))
        c.eq("orthogonal image on the plane (%s)" % kind, dot(n, sub(act(orth, X)[:3], p)), Z)
    for s in (1, -1):
        with Saved(I):
            I.assume(T.lt(SMALL, T.mul(s, dot([T.div(x, T.sqrt(dot(n, n))) for x in n], d))))
            for kind in ("array", "list"):
                m = go(c, impl, "projection_matrix", [kinds(I, p, kind), kinds(I, n, kind), kinds(I, d, kind)], label="parallel " + kind)
                k = T.div(dot(n, sub(X, p)), dot(n, d))
                affine(c, "parallel: along d onto the plane (%s)" % kind, m, X, sub(X, scl(k, d)))
    w = height(n, q, X)
    for kind in ("array", "list"):
        a = [kinds(I, v, kind) for v in (p, n)]
        m = go(c, impl, "projection_matrix", a + [None, kinds(I, q, kind)], label="perspective " + kind)
        y = act(m, X)
        c.eq("perspective: weight is the height of the eye over x (%s)" % kind, y[3], w)
        # the image is where the line through q and x meets the plane: q + (x-q) n.(p-q)/n.(x-q), times the weight
        for i in range(3):
            c.eq("perspective: image[%d] (%s)" % (i, kind), y[i], T.add(T.mul(w, q[i]), T.mul(height(n, q, p), T.sub(X[i], q[i]))))
        c.eq("perspective: image on the plane (%s)" % kind, dot(n, [T.sub(y[i], T.mul(w, p[i])) for i in range(3)]), Z)
        ps = go(c, impl, "projection_matrix", a + [None, kinds(I, q, kind), True], label="pseudo " + kind)
        z = act(ps, X)
        c.eq("pseudo: weight (%s)" % kind, z[3], w)
        # moved off the plane by the relative depth of x, along the normal
        e = T.div(T.neg(dot(n, sub(X, p))), dot(n, n))
        for i in range(3):
            c.eq("pseudo: image plus relative depth[%d] (%s)" % (i, kind), z[i], T.add(y[i], T.mul(e, n[i])))
        for i in range(4):
            for j in range(4):
                c.eq("perspective = orthogonal . pseudo[%d,%d] (%s)" % (i, j, kind), m[i][j], T.add(*[T.mul(orth[i][l], ps[l][j]) for l in range(4)]))


class Saved(object):
    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.pc = list(self.I.pc)

    def __exit__(self, *a):
        self.I.pc = self.pc


@both("clip_matrix")
def clip(c, I, impl):
    l, r, b, t, n, f = [T.var(k, "R") for k in "lrbtnf"]
    args = [l, r, b, t, n, f]
    with Saved(I):
        for x, y in ((l, r), (b, t), (n, f)):
            I.assume(T.lt(x, y))
        m = go(c, impl, "clip_matrix", args, label="box")
        unit = lambda x, u, v: T.div(T.sub(T.mul(2, x), T.add(u, v)), T.sub(v, u))
        affine(c, "box: [l,r]x[b,t]x[n,f] to [-1,1]^3", m, X, [unit(X[0], l, r), unit(X[1], b, t), unit(X[2], n, f)])
        m = go(c, impl, "clip_matrix", args[:6] + [False], label="box, perspective=False")
        affine(c, "perspective=False", m, X, [unit(X[0], l, r), unit(X[1], b, t), unit(X[2], n, f)])
        I.assume(T.lt(SMALL, n))
        m = go(c, impl, "clip_matrix", args, {"perspective": True}, label="perspective")
        # frustum corners: near plane as given, far plane scaled by f/n
        for nz, z, s in ((-1, n, ONE), (1, f, T.div(f, n))):
            for nx, x in ((-1, l), (1, r)):
                for ny, y in ((-1, b), (1, t)):
                    v = act(m, [T.mul(s, x), T.mul(s, y), z])
                    for i, want in enumerate((nx, ny, nz)):
                        c.eq("corner %d %d %d[%d]" % (nx, ny, nz, i), v[i], T.mul(want, v[3]))
        c.eq("weight", act(m, X)[3], T.neg(X[2]))
    for k, (x, y) in enumerate(((l, r), (b, t), (n, f))):
        with Saved(I):
            I.assume(T.le(y, x))
            raises(c, "clip_matrix", args, label="empty frustum %d" % k)
    with Saved(I):
        for x, y in ((l, r), (b, t), (n, f)):
            I.assume(T.lt(x, y))
        I.assume(T.le(n, Z))
        raises(c, "clip_matrix", args + [True], label="near <= 0")


@both("shear_matrix")
def shear(c, I, impl):
    p, u, d = vec("p"), vec("u"), vec("d")
    a = T.var("a", "R")
    # every normal orthogonal to d is of this form
    n = cross(d, u)
    with Saved(I):
        nonzero(I, n, d)
        k = T.div(T.mul(T.unary("tan", a), height(n, X, p)), T.sqrt(dot(d, d)))
        for kind in ("array", "list"):
            m = go(c, impl, "shear_matrix", [a] + [kinds(I, v, kind) for v in (d, p, n)], label="shear " + kind)
            affine(c, "x + tan(a) height d/|d| (%s)" % kind, m, X, add(X, scl(k, d)))
        c.eq("height over the plane is kept", dot(n, sub(act(m, X)[:3], X)), Z)
    n = vec("n")
    for s in (1, -1):
        with Saved(I):
            nonzero(I, n, d)
            h = dot(*[[T.div(x, T.sqrt(dot(v, v))) for x in v] for v in (n, d)])
            I.assume(T.lt(T.num(Fraction(2, 10 ** 6), "R"), T.mul(s, h)))
            raises(c, "shear_matrix", [a] + [arr(I, v) for v in (d, p, n)], label="direction not in the plane")


@both("orthogonalization_matrix")
def crystal_cell(c, I, impl):
    L, A = vec("l"), vec("g")
    deg = [T.mul(T.div(T.PI, 180), x) for x in A]
    ca, cb, cg = [cos(x) for x in deg]
    sa, sb = sin(deg[0]), sin(deg[1])
    I.assume(T.lt(SMALL, T.absv(T.mul(sa, sb))))
    co = T.div(T.sub(T.mul(ca, cb), cg), T.mul(sa, sb))
    # the three angles belong to a cell of non-zero volume
    I.assume(T.lt(SMALL, T.sub(1, T.mul(co, co))))
    I.assume(T.lt(SMALL, T.absv(T.sub(T.sub(T.mul(ca, cb), cg), T.mul(sa, sb)))))
    for kind in ("array", "list"):
        m = go(c, impl, "orthogonalization_matrix", [kinds(I, L, kind), kinds(I, A, kind)], label="cell " + kind)
        col = [[m[i][j] for i in range(3)] for j in range(3)]
        for j in range(3):
            c.eq("edge %d has its length (%s)" % (j, kind), dot(col[j], col[j]), T.mul(L[j], L[j]))
        for i, j, k in ((0, 1, cg), (0, 2, cb), (1, 2, ca)):
            c.eq("angle of the edges %d, %d (%s)" % (i, j, kind), dot(col[i], col[j]), T.mul(L[i], L[j], k))
        for k in range(4):
            c.eq("last row[%d] (%s)" % (k, kind), m[3][k], ONE if k == 3 else Z)
            c.eq("last column[%d] (%s)" % (k, kind), m[k][3], ONE if k == 3 else Z)
        # orientation: c along z, b in the y, z plane
        for i, j in ((0, 1), (0, 2), (1, 2)):
            c.eq("upper triangle[%d,%d] (%s)" % (i, j, kind), m[i][j], Z)


def gen(n, k=4):
    return [[T.fn(n, (T.num(i), T.num(j))) for j in range(k)] for i in range(k)]


def matmul(a, b):
    return [[T.add(*[T.mul(a[i][k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def same_matrix(c, label, m, want):
    for i in range(len(want)):
        for j in range(len(want[0])):
            c.eq("%s[%d,%d]" % (label, i, j), m[i][j], want[i][j])


PY = lambda *n: [M + "." + x for x in n]


@ob("concatenate_matrices, translation_from_matrix", PY("concatenate_matrices", "translation_from_matrix"))
def g(c):
    I, f = world(c, "py")
    a, b, d = gen("a"), gen("b"), gen("d")
    A, B, D = arr(I, a), arr(I, b), arr(I, d)
    for label, args, want in (("none", [], hom(mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))), ("one", [A], a), ("two", [A, B], matmul(a, b)),
                              ("three", [A, B, D], matmul(matmul(a, b), d))):
        r = c.one(label, lambda: I.call(f("concatenate_matrices"), args, {}))
        same_matrix(c, label, entries(I, r), want)
    t = c.one("translation", lambda: I.call(f("translation_from_matrix"), [A], {}))
    for i, x in enumerate(entries(I, t)):
        c.eq("translation[%d]" % i, x, a[i][3])
    I.setitem(t, 0, T.num(7, "R"))
    same_matrix(c, "the result is a copy", entries(I, A), a)


def mk_inv(k):
    @ob("inverse of %d x %d (C)" % (k, k), ["electrode/transformations.c:py_inverse_matrix"], timeout=120)
    def g(c):
        I, f = world(c, "C", ["inverse_matrix"])
        a = gen("a", k)
        if k == 1:
            det = a[0][0]
        else:
            det = deter(a)
        I.assume(T.or_(T.lt(SMALL, det), T.lt(det, T.neg(SMALL))))
        A = arr(I, a)
        n = 0
        for p in c.paths(lambda: I.call(f("inverse_matrix"), [A], {})):
            if S.check(list(I.pc), 10000) == "unsat":
                continue
            n += 1
            if p.kind == "raise":
                c.fail("no exception", str(p.value))
                continue
            r = entries(I, p.value)
            one = [[ONE if i == j else Z for j in range(k)] for i in range(k)]
            same_matrix(c, "a inverse(a)", matmul(a, r), one)
            same_matrix(c, "inverse(a) a", matmul(r, a), one)
            same_matrix(c, "argument unchanged", entries(I, A), a)
        c.true("returns", n > 0)


def deter(a):
    if len(a) == 1:
        return a[0][0]
    return T.add(*[T.mul((-1) ** j, a[0][j], deter([r[:j] + r[j + 1:] for r in a[1:]])) for j in range(len(a))])


for k in (1, 2, 3, 4):
    mk_inv(k)


TOLR, TOLA = T.num(Fraction(1, 10 ** 5), "R"), T.num(Fraction(1, 10 ** 8), "R")


@both("is_same_transform")
def same_transform(c, I, impl):
    a, b = gen("a"), gen("b")
    for m in (a, b):
        I.assume(T.or_(T.lt(SMALL, m[3][3]), T.lt(m[3][3], T.neg(SMALL))))
    # true: every entry close after division by the last one; then also at any path that says false some entry is not
    A, B = arr(I, a), arr(I, b)
    na, nb = [[T.div(x, m[3][3]) for r in m for x in r] for m in (a, b)]
    close = [T.le(T.absv(T.sub(x, y)), T.add(TOLA, T.mul(TOLR, T.absv(y)))) for x, y in zip(na, nb)]
    n = 0
    for p in c.paths(lambda: I.call(c.f39("is_same_transform"), [A, B], {})):
        n += 1
        if p.kind == "raise":
            c.fail("no exception", str(p.value))
            continue
        r = p.value
        if isinstance(r, Term):
            c.true("true exactly for equal normalised matrices", T.eq(r, T.and_(*close)) if False else T.and_(T.or_(T.not_(r), T.and_(*close)), T.or_(r, T.not_(T.and_(*close)))))
        elif r:
            for k, q in enumerate(close):
                c.true("path %d: true needs entry %d" % (n, k), q)
        else:
            c.true("path %d: false has a reason" % n, T.not_(T.and_(*close)))
    same_matrix(c, "first argument unchanged", entries(I, A), a)
    same_matrix(c, "second argument unchanged", entries(I, B), b)


def eulerm(a, b, g):
    return hom(euler("sxyz", (a, b, g)))


@ob("compose_matrix: perspective . translation . rotation . shear . scale", PY("compose_matrix"))
def g(c):
    I, f = world(c, "py")
    s, z, a, t, p = vec("s"), vec("z"), vec("e"), vec("t"), vec("p", 4)
    full = dict(scale=s, shear=z, angles=a, translate=t, perspective=p)
    eye = hom(mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))

    def want(k):
        m = eye
        if "perspective" in k:
            m = matmul(m, eye[:3] + [p])
        if "translate" in k:
            m = matmul(m, hom(mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), t))
        if "angles" in k:
            m = matmul(m, eulerm(*a))
        if "shear" in k:
            m = matmul(m, hom([[ONE, z[0], z[1]], [Z, ONE, z[2]], [Z, Z, ONE]]))
        if "scale" in k:
            m = matmul(m, hom([[s[0], Z, Z], [Z, s[1], Z], [Z, Z, s[2]]]))
        return m
    I.assume(T.lt(SMALL, p[3]))
    I.assume(T.lt(SMALL, T.add(p[3], dot(p[:3], t))))
    import itertools
    names = sorted(full)
    for n in range(6):
        for k in itertools.combinations(names, n):
            if n not in (0, 1, 5) and k != ("scale", "translate") and k != ("angles", "perspective", "translate") and k != ("scale", "shear"):
                continue
            r = c.one("compose %s" % (k,), lambda: I.call(f("compose_matrix"), [], {x: arr(I, full[x]) for x in k}))
            w = want(k)
            e = entries(I, r)
            same_matrix(c, "compose %s" % (k,), e, [[T.div(x, w[3][3]) for x in row] for row in w])


def mk_decompose(sign, persp, gimbal):
    tag = "%s scale%s%s" % ("positive" if sign > 0 else "negative", ", perspective" if persp else "", (", middle angle %s pi/2" % gimbal) if gimbal else "")

    @ob("decompose_matrix: %s" % tag, PY("decompose_matrix"), timeout=300)
    def g(c):
        I, f = world(c, "py")
        sg, z, e, t, p = vec("sg"), vec("z"), vec("e"), vec("t"), vec("p", 4)
        k = T.var("k", "R")
        tiny = T.num(Fraction(1, 10 ** 6), "R")
        facts = [T.lt(tiny, x) for x in sg] + [T.lt(tiny, k)]
        if gimbal:
            e[1] = T.mul(T.div(T.PI, 2), T.num(1 if gimbal == "+" else -1, "R"))
        else:
            facts += [T.lt(tiny, cos(e[1]))]
        s = [T.mul(sign, x) for x in sg]
        if not persp:
            p = [Z, Z, Z, ONE]
        # every matrix with a regular linear part is of this form: QR decomposition, rotations by Euler angles
        R = euler("sxyz", e)
        A = hom(matmul(matmul(R, [[ONE, z[0], z[1]], [Z, ONE, z[2]], [Z, Z, ONE]]), [[s[0], Z, Z], [Z, s[1], Z], [Z, Z, s[2]]]), t)
        if persp:
            # scaled so that the last entry is k
            p[3] = T.sub(1, dot(p[:3], t))
            facts += [T.lt(tiny, T.absv(T.add(*[T.mul(p[i], A[i][0]) for i in range(3)])))]
            row = [T.add(*[T.mul(p[i], A[i][j]) for i in range(3)]) for j in range(3)] + [ONE]
        else:
            row = A[3]
        W = [[T.mul(k, x) for x in r] for r in A[:3]] + [[T.mul(k, x) for x in row]]
        mx = arr(I, W)
        before = I.copy_arr(mx)
        tg = Trig(facts, roots=[ONE, Z] + sg + [cos(e[1])], angles=[])
        la = npmodel.numpy(I).attrs["linalg"].attrs
        det0, inv0 = la["det"].f, la["inv"].f
        vol = T.mul(*s)
        # closed form of the inverse of the affine part: S^-1 Z^-1 R^T T^-1
        zi = [[ONE, T.neg(z[0]), T.sub(T.mul(z[0], z[2]), z[1])], [Z, ONE, T.neg(z[2])], [Z, Z, ONE]]
        li = matmul(matmul([[T.div(1, s[0]), Z, Z], [Z, T.div(1, s[1]), Z], [Z, Z, T.div(1, s[2])]], zi), [[R[j][i] for j in range(3)] for i in range(3)])
        ai = hom(li, [T.neg(dot(r, t)) for r in li])
        eye = hom(mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))

        def det(a):
            d = det0(a)
            return vol if tg.zero(T.sub(d, vol)) else d

        def inv(a):
            m = entries(I, a)
            for w in (ai, [[ai[j][i] for j in range(4)] for i in range(4)]):
                if all(tg.zero(T.sub(x, y)) for r, r2 in zip(matmul(m, w), eye) for x, y in zip(r, r2)):
                    return arr(I, w)
            return inv0(a)

        def norm(I, fn, args, kw):
            # contract of vector_norm for one axis (C40): the non-negative root of the sum of squares
            b = I.bind_args(fn, args, kw)
            v = I.as_arr(b["data"])
            if v.ndim != 1 or b.get("axis") is not None or b.get("out") is not None:
                raise Unsupported("vector_norm of several axes")
            v = entries(I, v)
            return tg.root(tg.expanded(dot(v, v)))
        np_ = npmodel.numpy(I).attrs
        dot0 = np_["dot"].f

        def dot1(a, b, **kw):
            r = dot0(a, b, **kw)
            return tg.expanded(r) if isinstance(r, Term) else r
        np_["dot"] = Builtin("np.dot", dot1)
        I.contracts[M + ":vector_norm"] = norm
        la["det"], la["inv"] = Builtin("np.linalg.det", det), Builtin("np.linalg.inv", inv)
        n = 0
        for q in c.paths(lambda: I.call(f("decompose_matrix"), [mx], {}), assume=facts):
            cond = [tg(x) for x in q.cond]
            if any(x is T.FALSE or S.check(list(I.pc) + [x], 4000) == "unsat" for x in cond):
                continue
            n += 1
            if q.kind == "raise":
                c.fail("no exception", str(q.value))
                continue
            sc, sh, ang, tr, pe = I.concrete_list(q.value)
            for i in range(3):
                c.eq("scale[%d]" % i, tg(entries(I, sc)[i]), s[i])
                c.eq("shear[%d]" % i, tg(T.lift(I.scalar(I.concrete_list(sh)[i]))), z[i])
                c.eq("translation[%d]" % i, tg(entries(I, tr)[i]), t[i])
            got = euler("sxyz", [T.lift(I.scalar(x)) for x in I.concrete_list(ang)])
            for i in range(3):
                for j in range(3):
                    c.eq("angles reproduce the rotation[%d,%d]" % (i, j), tg(got[i][j]), R[i][j])
            for i in range(4):
                c.eq("perspective[%d]" % i, tg(entries(I, pe)[i]), p[i])
            frame(c, "decompose", I, mx, before)
        c.true("returns", n >= 1)


for sign in (1, -1):
    for persp in (False, True):
        mk_decompose(sign, persp, "")
    for gimbal in "+-":
        mk_decompose(sign, False, gimbal)
