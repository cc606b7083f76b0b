"""C40: interpolation of rotations, random rotations, the trackball and the vector helpers of transformations."""
from checks.xforms import *
from checks.trig import square
from pyvc import npmodel

INFO = {"build": True}
SMALL = T.num(Fraction(1, 10 ** 12), "R")       # thresholds of the code lie below
Z, ONE = T.num(0, "R"), T.num(1, "R")
HALF = T.num(Fraction(1, 2), "R")


class Saved(object):
    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.s = list(self.I.pc), dict(self.I.heap)

    def __exit__(self, *a):
        self.I.pc, self.I.heap = self.s


def add(a, b):
    return [T.add(x, y) for x, y in zip(a, b)]


def sub(a, b):
    return [T.sub(x, y) for x, y in zip(a, b)]


def scl(k, a):
    return [T.mul(k, x) for x in a]


def cross(a, b):
    m = T.mul
    return [T.sub(m(a[1], b[2]), m(a[2], b[1])), T.sub(m(a[2], b[0]), m(a[0], b[2])), T.sub(m(a[0], b[1]), m(a[1], b[0]))]


def kinds(I, v, kind):
    return arr(I, v) if kind == "array" else I.newlist(list(v)) if kind == "list" else tuple(v)


def feasible(c, thunk, label, args=(), assume=()):
    """(value, entries of the argument arrays unchanged) for every feasible path"""
    I = c.I40
    before = [(a, I.copy_arr(a)) for a in args if isinstance(a, Arr)]
    n = 0
    for p in c.paths(thunk, assume=list(assume)):
        if S.check(list(I.pc), 1500) == "unsat":
            continue
        n += 1
        if p.kind == "raise":
            c.fail(label + ".no exception", str(p.value))
            continue
        for k, (a, b) in enumerate(before):
            c.eq("%s.argument %d unchanged" % (label, k), a, b)
        yield p.value
    c.true(label + ".returns", n >= 1)


def vector(c, thunk, label, want, args=(), assume=()):
    I = c.I40
    for v in feasible(c, thunk, label, args, assume):
        v = I.as_arr(v)
        c.true(label + ".shape", tuple(v.shape) == (len(want),))
        if tuple(v.shape) == (len(want),):
            e = entries(I, v)
            for k, w in enumerate(want):
                c.eq("%s[%d]" % (label, k), I.presimp(e[k]) if I.presimp else e[k], w)


def both(*names, **kw):
    def deco(fn):
        for impl in IMPL:
            def reg(impl=impl):
                @ob("%s (%s)" % (fn.__name__.replace("_", " "), impl), funcs(*names), timeout=kw.get("timeout", 120))
                def g(c):
                    c.I40, c.f40 = world(c, impl, names)
                    fn(c, c.I40, impl, lambda n, *a, **k: c.I40.call(c.f40(n), list(a), dict(k)))
            reg()
        return fn
    return deco


def nrm(v):
    return T.sqrt(dot(v, v))


@both("quaternion_slerp")
def spherical_interpolation_of_quaternions(c, I, impl, call):
    # every pair of non-zero quaternions is ra u, rb v with unit u, v at the angle acos d
    u, v = vec("u", 4), vec("v", 4)
    ra, rb, f, d = [T.var(k, "R") for k in ("ra", "rb", "f", "d")]
    a, b = scl(ra, u), scl(rb, v)
    facts = [T.lt(SMALL, ra), T.lt(SMALL, rb)]
    for x in facts:
        I.assume(x)
    unit = [(dot(a, a), square(ra)), (dot(b, b), square(rb))]
    I.presimp = Named(facts, unit + [(dot(u, v), d), (T.neg(dot(u, v)), T.neg(d)), (T.mul(rb, dot(u, v)), T.mul(rb, d)), (T.mul(ra, dot(u, v)), T.mul(ra, d)),
                              (T.mul(ra, rb, dot(u, v)), T.mul(ra, rb, d))], roots=[ra, rb])
    for kind in ("array", "list"):
        A, B = kinds(I, a, kind), kinds(I, b, kind)
        for sp in ((), (1,), (2, False)):
            vector(c, lambda: call("quaternion_slerp", A, B, Z, *sp), "fraction 0 %s %s" % (kind, sp), u, (A, B))
            vector(c, lambda: call("quaternion_slerp", A, B, ONE, *sp), "fraction 1 %s %s" % (kind, sp), v, (A, B))
    A, B = arr(I, a), arr(I, b)
    away = [T.or_(T.lt(SMALL, f), T.lt(f, T.neg(SMALL))), T.or_(T.lt(SMALL, T.sub(f, 1)), T.lt(SMALL, T.sub(1, f)))]
    arc = away + [T.lt(d, T.sub(1, SMALL)), T.lt(T.sub(SMALL, 1), d)]
    S_ = lambda x: T.unary("sin", x)
    for short in (True, False):
        for sign in (1, -1):
            for spin in (0, 1, -1, 2):
                flip = short and sign < 0
                ac = T.unary("acos", T.neg(d) if flip else d)
                al = T.add(ac, T.mul(spin, T.PI))
                w = scl(-1, v) if flip else v
                want = add(scl(T.div(S_(T.mul(T.sub(1, f), al)), S_(al)), u), scl(T.div(S_(T.mul(f, al)), S_(al)), w))
                args = (spin, short) if (spin, short) != (0, True) else ()
                vector(c, lambda: call("quaternion_slerp", A, B, f, *args), "arc %s %s %s" % (short, sign, spin), want, (A, B),
                       arc + [T.lt(SMALL, T.mul(sign, d)), T.lt(SMALL, ac), T.lt(SMALL, T.sub(T.PI, ac))])     # acos of such d lies inside (0, pi)
    for w in (ONE, T.num(-1, "R")):
        # parallel and opposite quaternions are the same rotation: the first is returned
        P = arr(I, scl(T.mul(w, rb), u))
        I.presimp = Named(facts, [(dot(a, a), square(ra)), (T.mul(square(rb), dot(u, u)), square(rb)), (dot(u, u), ONE)], roots=[ra, rb])
        for short in (True, False):
            vector(c, lambda: call("quaternion_slerp", A, P, f, 0, short), "same rotation %s %s" % (w, short), u, (A, P), away)


@ob("spherical interpolation stays on the arc", [])
def g(c):
    """the formula above: with |u| = |v| = 1, u.v = cos A, p = f A the result has unit length and the angle p from u"""
    u2, v2, uv = ONE, ONE, None
    A, p = T.var("A", "R"), T.var("p", "R")
    s, k = T.unary("sin", A), T.unary("cos", A)
    sp, kp = T.unary("sin", p), T.unary("cos", p)
    smp = T.sub(T.mul(s, kp), T.mul(k, sp))         # sin(A - p)
    c.interp()
    al, be = T.div(smp, s), T.div(sp, s)
    pc = [T.not_(T.eq(s, Z))]
    c.eq("unit length", T.add(square(al), square(be), T.mul(2, al, be, k)), ONE, pc)
    c.eq("angle from u", T.add(al, T.mul(be, k)), kp, pc)
    c.eq("angle from v", T.add(T.mul(al, k), be), T.add(T.mul(k, kp), T.mul(s, sp)), pc)


@both("random_quaternion", "random_rotation_matrix")
def random_rotations_from_three_numbers(c, I, impl, call):
    r = vec("r")
    for x in r:
        I.assume(T.le(Z, x))
        I.assume(T.le(x, ONE))
    tp = T.mul(2, T.PI)
    s, k = lambda x: T.unary("sin", x), lambda x: T.unary("cos", x)
    p, q = T.sqrt(T.sub(1, r[0])), T.sqrt(r[0])
    t1, t2 = T.mul(tp, r[1]), T.mul(tp, r[2])
    want = [T.mul(k(t2), q), T.mul(s(t1), p), T.mul(k(t1), p), T.mul(s(t2), q)]
    c.eq("unit length", dot(want, want), ONE)
    m = hom(quatmat(want))

    def qm(I, fn, args, kw):
        # contract of quaternion_matrix (C30)
        q = entries(I, I.bind_args(fn, args, kw)["quaternion"])
        c.eq("quaternion_matrix.precondition unit length", dot(q, q), ONE)
        return arr(I, hom(quatmat(q)))
    I.contracts[M + ":quaternion_matrix"] = qm
    for kind in ("array", "list", "tuple"):
        R = kinds(I, r, kind)
        vector(c, lambda: call("random_quaternion", R), "quaternion %s" % kind, want, (R,))
        for x in feasible(c, lambda: call("random_rotation_matrix", R), "matrix %s" % kind, (R,)):
            x = I.as_arr(x)
            c.true("matrix shape", tuple(x.shape) == (4, 4))
            e = entries(I, x)
            for i in range(4):
                for j in range(4):
                    c.eq("matrix %s[%d,%d]" % (kind, i, j), e[i][j], m[i][j])


@both("arcball_map_to_sphere")
def map_to_the_sphere(c, I, impl, call):
    p, o = vec("p", 2), vec("o", 2)
    r = T.var("r", "R")
    I.assume(T.lt(Z, r))
    v = [T.div(T.sub(p[0], o[0]), r), T.div(T.sub(o[1], p[1]), r)]
    n = dot(v, v)
    for kind in ("array", "list", "tuple"):
        P, O = kinds(I, p, kind), kinds(I, o, kind)
        vector(c, lambda: call("arcball_map_to_sphere", P, O, r), "outside %s" % kind, [T.div(x, T.sqrt(n)) for x in v] + [Z], (P, O), [T.lt(ONE, n)])
        vector(c, lambda: call("arcball_map_to_sphere", P, O, r), "inside %s" % kind, v + [T.sqrt(T.sub(1, n))], (P, O), [T.lt(n, ONE)])
    with Saved(I):
        I.assume(T.lt(n, ONE))
        w = v + [T.sqrt(T.sub(1, n))]
        c.eq("inside.unit length", dot(w, w), ONE)


@both("arcball_constrain_to_axis")
def constrain_to_an_axis(c, I, impl, call):
    p, a = vec("p"), vec("a")
    t, N, M = T.var("t", "R"), T.var("N", "R"), T.var("M", "R")
    rej = sub(p, scl(dot(a, p), a))
    for kind in ("array", "list"):
        P, A = kinds(I, p, kind), kinds(I, a, kind)
        # N = |rejection|
        I.presimp = Named([T.lt(SMALL, N)], [(dot(rej, rej), square(N))], roots=[N])
        for up in (True, False):
            w = [T.div(x, N) for x in rej]
            if impl == "py" and not up:
                w = scl(-1, w)
            cond = [T.lt(SMALL, N), T.le(Z, rej[2]) if up else T.lt(rej[2], Z)]
            vector(c, lambda: call("arcball_constrain_to_axis", P, A), "rejection %s %s" % (kind, up), w, (P, A), cond)
        # a point on the axis: some unit vector perpendicular to the axis; |a| = 1, M^2 = a0^2 + a1^2
        q = scl(t, a)
        r = sub(q, scl(dot(a, q), a))
        for tag, ax in (("general", a), ("+z", [Z, Z, ONE]), ("-z", [Z, Z, T.num(-1, "R")])):
            Q, B = kinds(I, scl(t, ax), kind), kinds(I, ax, kind)
            facts = []
            I.presimp = None
            if tag == "general":
                facts = [T.lt(SMALL, M), T.eq(square(a[2]), T.sub(1, square(M)))]
                I.presimp = Named([T.lt(SMALL, M)], [(dot(r, r), Z), (T.add(square(a[0]), square(a[1])), square(M))], roots=[M, Z])
                # r = t a (1 - a.a)
                for i in range(3):
                    c.eq("pole.rejection[%d]" % i, r[i], T.mul(t, a[i], T.sub(1, dot(a, a))))
            for v in feasible(c, lambda: call("arcball_constrain_to_axis", Q, B), "pole %s %s" % (tag, kind), (Q, B), facts):
                e = entries(I, v)
                if I.presimp:
                    e = [I.presimp(x) for x in e]
                    c.eq("pole %s %s.unit length" % (tag, kind), I.presimp(T.mul(dot(e, e), square(M))), square(M))
                else:
                    c.eq("pole %s %s.unit length" % (tag, kind), dot(e, e), ONE)
                c.eq("pole %s %s.perpendicular" % (tag, kind), dot(e, ax), Z)


PY = [M + ".vector_norm", M + ".unit_vector", M + ".vector_product", M + ".angle_between_vectors", M + ".is_same_quaternion"]


def tensor(I, n, shape_):
    return I.new_arr(shape_, lambda i: T.fn(n, tuple(i)), "R")


def summed(shape_, axis, f):
    """entries of the sum of f over one axis"""
    def get(i):
        k = T.fresh("k", "I")
        return T.summ(k, 0, shape_[axis], f(list(i[:axis]) + [k] + list(i[axis:])))
    return get


def every(c, label, I, a, want, sh):
    a = I.as_arr(a)
    c.true(label + ".shape", len(a.shape) == len(sh) and all(T.lift(x) is T.lift(y) or S.entails(I.pc, T.eq(x, y)) for x, y in zip(a.shape, sh)))
    if len(a.shape) == len(sh):
        i = [T.var("i%d" % k, "I") for k in range(len(sh))]
        pc = list(I.pc) + [T.and_(T.le(0, x), T.lt(x, n)) for x, n in zip(i, sh)]
        c.eq(label, I.scalar(I.elem(a, tuple(i))), want(i), pc)


@ob("vector_norm and unit_vector along an axis", PY[:2])
def g(c):
    I = c.interp()
    I.contracts[M + ":_import_module"] = lambda *a, **k: None
    m = I.load(M)
    f = lambda n, *a, **k: I.call(I.modget(m, n), list(a), dict(k))
    n = [T.var("n%d" % k, "I") for k in range(3)]
    for x in n:
        I.assume(T.lt(0, x))
    v = tensor(I, "v", (n[0],))
    b = I.copy_arr(v)
    k = T.fresh("k", "I")
    s2 = T.summ(k, 0, n[0], square(T.fn("v", (k,))))
    c.eq("norm 1-d", f("vector_norm", v), T.sqrt(s2))
    every(c, "unit 1-d", I, f("unit_vector", v), lambda i: T.div(T.fn("v", (i[0],)), T.sqrt(s2)), n[:1])
    frame(c, "1-d", I, v, b)
    for d in (2, 3):
        sh = n[:d]
        w = tensor(I, "w", tuple(sh))
        b = I.copy_arr(w)
        at = lambda i: T.fn("w", tuple(i))
        for ax in list(range(-d, d)):
            q = ax % d
            sq = summed(sh, q, lambda i: square(at(i)))
            every(c, "norm %d-d axis %d" % (d, ax), I, f("vector_norm", w, axis=ax), lambda i: T.sqrt(sq(i)), sh[:q] + sh[q + 1:])
            every(c, "unit %d-d axis %d" % (d, ax), I, f("unit_vector", w, axis=ax), lambda i: T.div(at(i), T.sqrt(sq(i[:q] + i[q + 1:]))), sh)
            frame(c, "%d-d axis %d" % (d, ax), I, w, b)


def pyworld(c):
    I = c.interp()
    I.contracts[M + ":_import_module"] = lambda *a, **k: None
    m = I.load(M)
    return I, lambda n, *a, **k: I.call(I.modget(m, n), list(a), dict(k))


@ob("vector_norm and unit_vector into an output array", PY[:2])
def g(c):
    I, f = pyworld(c)
    n = [T.var("n%d" % k, "I") for k in range(2)]
    for x in n:
        I.assume(T.lt(0, x))
    at = lambda i: T.fn("w", tuple(i))
    for q in (0, 1):
        w = tensor(I, "w", tuple(n))
        b = I.copy_arr(w)
        sq = summed(n, q, lambda i: square(at(i)))
        o1, o2 = tensor(I, "o", (n[1 - q],)), tensor(I, "p", tuple(n))
        c.true("returns nothing", f("vector_norm", w, axis=q, out=o1) is None)
        every(c, "norm axis %d" % q, I, o1, lambda i: T.sqrt(sq(i)), [n[1 - q]])
        c.true("returns nothing", f("unit_vector", w, axis=q, out=o2) is None)
        every(c, "unit axis %d" % q, I, o2, lambda i: T.div(at(i), T.sqrt(sq(i[:q] + i[q + 1:]))), n)
        frame(c, "axis %d" % q, I, w, b)
        f("unit_vector", w, axis=q, out=w)
        every(c, "unit in place, axis %d" % q, I, w, lambda i: T.div(at(i), T.sqrt(sq(i[:q] + i[q + 1:]))), n)


@ob("unit_vector of a vector into an output array", PY[1:2])
def g(c):
    I, f = pyworld(c)
    n = T.var("n0", "I")
    I.assume(T.lt(0, n))
    at = lambda i: T.fn("w", tuple(i))
    for q in (None, 0, -1):
        w = tensor(I, "w", (n,))
        b = I.copy_arr(w)
        sq = summed([n], 0, lambda i: square(at(i)))([])
        o = tensor(I, "p", (n,))
        c.true("returns nothing", f("unit_vector", w, axis=q, out=o) is None)
        every(c, "unit axis %s" % q, I, o, lambda i: T.div(at(i), T.sqrt(sq)), [n])
        frame(c, "axis %s" % q, I, w, b)
        f("unit_vector", w, axis=q, out=w)
        every(c, "unit in place, axis %s" % q, I, w, lambda i: T.div(at(i), T.sqrt(sq)), [n])


@ob("vector_norm and unit_vector of lists", PY[:2])
def g(c):
    I, f = pyworld(c)
    for n in (1, 2, 3, 4):
        v = vec("v", n)
        for kind in ("array", "list", "tuple"):
            V = kinds(I, v, kind)
            c.eq("norm %d %s" % (n, kind), I.scalar(f("vector_norm", V)), nrm(v))
            c.eq("unit %d %s" % (n, kind), f("unit_vector", V), arr(I, [T.div(x, nrm(v)) for x in v]))


@ob("vector_product, angle_between_vectors, is_same_quaternion", PY[2:])
def g(c):
    I, f = pyworld(c)
    a, b = vec("a"), vec("b")
    I.assume(T.lt(SMALL, dot(a, a)))
    I.assume(T.lt(SMALL, dot(b, b)))
    c.eq("cross product", f("vector_product", arr(I, a), arr(I, b)), arr(I, cross(a, b)))
    cs = T.div(dot(a, b), T.mul(nrm(a), nrm(b)))
    for kind in ("array", "list"):
        A, B = kinds(I, a, kind), kinds(I, b, kind)
        c.eq("angle %s" % kind, I.scalar(f("angle_between_vectors", A, B)), T.unary("acos", cs))
        c.eq("undirected angle %s" % kind, I.scalar(f("angle_between_vectors", A, B, directed=False)), T.unary("acos", T.absv(cs)))
    n = T.var("n", "I")
    I.assume(T.lt(0, n))
    for q in (0, 1):
        sh = (3, n) if q == 0 else (n, 3)
        V, W = tensor(I, "v", sh), tensor(I, "w", sh)
        bv, bw = I.copy_arr(V), I.copy_arr(W)

        def want(i, d):
            at = lambda s: [T.fn(s, (T.num(k), i[0]) if q == 0 else (i[0], T.num(k))) for k in range(3)]
            x, y = at("v"), at("w")
            z = T.div(dot(x, y), T.mul(nrm(x), nrm(y)))
            return T.unary("acos", z if d else T.absv(z))
        for d in (True, False):
            every(c, "angles along axis %d %s" % (q, d), I, f("angle_between_vectors", V, W, d, q), lambda i: want(i, d), [n])
        r = f("vector_product", V, W, axis=q)
        for k in range(3):
            i = T.var("i", "I")
            at = lambda s: [T.fn(s, (T.num(j), i) if q == 0 else (i, T.num(j))) for j in range(3)]
            c.eq("cross products along axis %d[%d]" % (q, k), I.scalar(I.elem(I.as_arr(r), (T.num(k), i) if q == 0 else (i, T.num(k)))), cross(at("v"), at("w"))[k],
                 list(I.pc) + [T.le(0, i), T.lt(i, n)])
        frame(c, "v", I, V, bv)
        frame(c, "w", I, W, bw)
    q = vec("q", 4)
    for s in (1, -1):
        for kind in ("array", "list"):
            for p_ in c.paths(lambda: I.truth(f("is_same_quaternion", kinds(I, q, kind), kinds(I, scl(s, q), kind)))):
                if S.check(list(p_.cond), 5000) != "unsat":
                    c.true("q and %d q are the same rotation (%s)" % (s, kind), p_.kind != "raise" and p_.value)
    p = vec("p", 4)
    away = [T.lt(ONE, T.sub(q[0], p[0])), T.lt(ONE, T.add(q[1], p[1]))] + [T.le(T.absv(p[k]), ONE) for k in (0, 1)]
    for p_ in c.paths(lambda: I.truth(f("is_same_quaternion", arr(I, q), arr(I, p))), assume=away):
        if S.check(away + list(p_.cond), 5000) != "unsat":
            c.true("different quaternions are told apart", p_.kind != "raise" and not p_.value)


ARC = [M + ".Arcball." + x for x in ("__init__", "place", "setaxes", "down", "drag", "next", "matrix")]


def ballworld(c):
    """the class on top of the contracts of the functions it calls (obligations above and C30)"""
    I, f = pyworld(c)
    c.I40 = I
    seen = dict(sphere=[], constrain=[], matrix=[], slerp=[], nearest=[], mul=[])

    def bound(name, key, result):
        def contract(I, fn, args, kw):
            b = I.bind_args(fn, args, kw)
            return result(b, key)
        I.contracts[M + ":" + name] = contract

    def sphere(b, k):
        e = [entries(I, I.as_arr(b["point"])), entries(I, I.as_arr(b["center"])), T.lift(I.scalar(b["radius"]))]
        w = vec("w%d" % len(seen[k]))
        seen[k].append((e, w))
        return arr(I, w)

    def constrain(b, k):
        e = entries(I, I.as_arr(b["point"])), entries(I, I.as_arr(b["axis"]))
        w = vec("g%d" % len(seen[k]))
        seen[k].append((e, w))
        return arr(I, w)

    def matrix(b, k):
        seen[k].append(entries(I, I.as_arr(b["quaternion"])))
        return arr(I, hom(mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]])))

    def slerp(b, k):
        w = vec("l%d" % len(seen[k]), 4)
        seen[k].append((entries(I, I.as_arr(b["quat0"])), entries(I, I.as_arr(b["quat1"])), T.lift(I.scalar(b["fraction"])), w))
        return arr(I, w)

    def nearest(b, k):
        ax = [entries(I, I.as_arr(x)) for x in I.concrete_list(b["axes"])]
        w = vec("n%d" % len(seen[k]))
        seen[k].append((entries(I, I.as_arr(b["point"])), ax, w))
        return arr(I, w)

    def mul_(b, k):
        w = vec("h%d" % len(seen[k]), 4)
        seen[k].append((entries(I, I.as_arr(b["quaternion1"])), entries(I, I.as_arr(b["quaternion0"])), w))
        return arr(I, w)
    bound("arcball_map_to_sphere", "sphere", sphere)
    bound("arcball_constrain_to_axis", "constrain", constrain)
    bound("arcball_nearest_axis", "nearest", nearest)
    bound("quaternion_matrix", "matrix", matrix)
    bound("quaternion_slerp", "slerp", slerp)
    bound("quaternion_multiply", "mul", mul_)
    bound("quaternion_from_matrix", "qfm", lambda b, k: arr(I, vec("fromM", 4)))
    return I, f, seen


def same_vec(c, label, a, b):
    c.true(label + ".length", len(a) == len(b))
    I = c.I40
    for k, (x, y) in enumerate(zip(a, b)):
        c.eq("%s[%d]" % (label, k), I.presimp(x) if I.presimp else x, y)


@ob("Arcball: initial orientation", ARC)
def g(c):
    I, f, seen = ballworld(c)
    call = lambda o, n, *a, **k: I.call(I.getattr(o, n), list(a), dict(k))
    q = vec("q", 4)
    I.assume(T.lt(SMALL, dot(q, q)))
    qn = [T.div(x, nrm(q)) for x in q]
    for tag, mk, want in (("none", lambda: [], [ONE, Z, Z, Z]), ("quaternion", lambda: [arr(I, q)], qn), ("list", lambda: [I.newlist(list(q))], qn),
                          ("matrix", lambda: [I.new_arr((4, 4), lambda i: T.fn("m", tuple(i)), "R")], vec("fromM", 4))):
        a = mk()
        before = I.copy_arr(a[0]) if a and isinstance(a[0], Arr) else None

        def run():
            b = f("Arcball", *a)
            del seen["matrix"][:]
            call(b, "matrix")
            return list(seen["matrix"])
        r = c.one("initial " + tag, run)
        c.true("one matrix", len(r) == 1)
        same_vec(c, "initial " + tag, r[0], want)
        if before is not None:
            c.eq("initial %s.argument unchanged" % tag, a[0], before)
    bad = I.new_arr((3, 3), lambda i: T.fn("m", tuple(i)), "R")
    for p in c.paths(lambda: f("Arcball", bad)):
        c.true("another shape raises ValueError", p.kind == "raise" and p.value.cls is I.builtins["ValueError"])


def mk_ball(constrain, axes):
    @ob("Arcball: drags turn the ball by the arc from the point pressed%s%s" % (", constrained" if constrain else "", ", axes" if axes else ""), ARC)
    def g(c):
        I, f, seen = ballworld(c)
        call = lambda o, n, *a, **k: I.call(I.getattr(o, n), list(a), dict(k))
        q = vec("q", 4)
        # of unit length: Named replaces q.q by 1
        pts = [vec("p%d" % k, 2) for k in range(5)]
        cen = vec("c", 2)
        r = T.var("r", "R")
        I.assume(T.lt(Z, r))
        A, B = vec("A"), vec("B")
        for x in (A, B):
            I.assume(T.lt(SMALL, dot(x, x)))
        log = {}

        def matrix(ball):
            del seen["matrix"][:]
            call(ball, "matrix")
            return seen["matrix"][-1]

        def run():
            for k in seen:
                del seen[k][:]
            b = f("Arcball", initial=arr(I, q))
            I.setattr(b, "constrain", constrain)
            if axes:
                call(b, "setaxes", arr(I, A), I.newlist(list(B)))
            cl = I.newlist(list(cen))
            call(b, "place", cl, r)
            I.setitem(cl, 0, T.num(7, "R"))         # the caller may reuse its list
            out = [matrix(b)]
            call(b, "down", arr(I, pts[0]))
            out.append(matrix(b))
            call(b, "drag", I.newlist(list(pts[1])))
            out.append(matrix(b))
            call(b, "drag", arr(I, pts[2]))
            out.append(matrix(b))
            call(b, "down", arr(I, pts[3]))
            out.append(matrix(b))
            call(b, "drag", arr(I, pts[4]))
            out.append(matrix(b))
            acc = T.var("acc", "R")
            call(b, "next", acc)
            out.append(matrix(b))
            call(b, "next")
            out.append(matrix(b))
            log[len(log)] = 1
            return out, {k: list(v) for k, v in seen.items()}
        eps = T.num(Fraction(1, 10 ** 6), "R")
        hold = constrain and axes
        w = [vec("%s%d" % ("g" if hold else "w", k)) for k in range(5)]
        arcs = [(0, 1), (0, 2), (3, 4)]
        turn = lambda i, j: [dot(w[i], w[j])] + cross(w[i], w[j])
        far = [T.lt(eps, dot(cross(w[i], w[j]), cross(w[i], w[j]))) for i, j in arcs]
        I.presimp = Named([], [(dot(cross(w[i], w[j]), cross(w[i], w[j])), T.var("t%d%d" % (i, j), "R")) for i, j in arcs] + [(dot(q, q), ONE)])
        for tag in ("moving", "second drag back", "second press without moving"):
            # the size of the cross products: beyond the threshold or zero
            facts = [T.lt(eps, T.var("t%d%d" % a, "R")) for a in arcs]
            if tag == "second drag back":
                facts[1] = T.eq(T.var("t02", "R"), Z)
            if tag == "second press without moving":
                facts[2] = T.eq(T.var("t34", "R"), Z)
            n = 0
            for p in c.paths(run, assume=facts):
                if S.check(list(p.cond) + facts, 1500) == "unsat":
                    continue
                n += 1
                if p.kind == "raise":
                    c.fail("no exception", str(p.value))
                    continue
                out, s = p.value
                # quaternion products: (rotation by the arc) * (orientation when pressed)
                todo = [(turn(0, 1), q)]
                t1 = t2 = vec("h0", 4)
                if tag == "second drag back":
                    t2 = q
                else:
                    t2 = vec("h1", 4)
                    todo.append((turn(0, 2), q))
                t3 = t2
                if tag != "second press without moving":
                    t3 = vec("h%d" % len(todo), 4)
                    todo.append((turn(3, 4), t2))
                c.true("number of products", len(s["mul"]) == len(todo))
                for k, ((x, y), z) in enumerate(zip(todo, s["mul"])):
                    same_vec(c, "%s: product %d, arc" % (tag, k), z[0], x)
                    same_vec(c, "%s: product %d, orientation" % (tag, k), z[1], y)
                l0, l1 = vec("l0", 4), vec("l1", 4)
                for k, (x, name) in enumerate(((q, "placed"), (q, "pressed"), (t1, "dragged"), (t2, "dragged on"), (t2, "pressed again"), (t3, "dragged again"), (l0, "next"), (l1, "next again"))):
                    same_vec(c, "%s: %s" % (tag, name), out[k], x)
                c.true("five points", len(s["sphere"]) == 5)
                for k, (e, _) in enumerate(s["sphere"]):
                    same_vec(c, "point %d" % k, e[0], pts[k])
                    same_vec(c, "centre %d" % k, e[1], cen)
                    c.eq("radius %d" % k, e[2], r)
                same_vec(c, "next from", s["slerp"][0][0], t2)
                same_vec(c, "next to", s["slerp"][0][1], t3)
                c.eq("next fraction", s["slerp"][0][2], T.add(2, T.var("acc", "R")))
                same_vec(c, "next again from", s["slerp"][1][0], t3)
                same_vec(c, "next again to", s["slerp"][1][1], l0)
                c.eq("next again fraction", s["slerp"][1][2], T.num(2, "R"))
                if hold:
                    c.true("constrained points", len(s["constrain"]) == 5 and len(s["nearest"]) == 2)
                    for k, ((pt, ax), _) in enumerate(s["constrain"]):
                        same_vec(c, "constrained point %d" % k, pt, vec("w%d" % k))
                        same_vec(c, "constraint axis %d" % k, ax, vec("n%d" % (0 if k < 3 else 1)))
                    for k, (pt, ax, _) in enumerate(s["nearest"]):
                        same_vec(c, "nearest to %d" % k, pt, vec("w%d" % (3 * k)))
                        c.true("both axes", len(ax) == 2)
                        for x, y in zip(ax, (A, B)):
                            same_vec(c, "unit axis", x, [T.div(z, nrm(y)) for z in y])
                else:
                    c.true("no constraint", not s["constrain"] and not s["nearest"])
            c.true(tag + ".returns", n >= 1)


for con in (False, True):
    for ax in (False, True):
        mk_ball(con, ax)


def mk_history(constrain, axes):
    @ob("Arcball: press, drag and next after any history%s%s" % (", constrained" if constrain else "", ", axes" if axes else ""), ARC)
    def g(c):
        """induction over the calls: whatever the fields that calls change hold, a press keeps the orientation X; after a press and
        any number of drags and next (all fields of that state which one of them changes are arbitrary) a drag turns X"""
        I, f, seen = ballworld(c)
        call = lambda o, n, *a, **k: I.call(I.getattr(o, n), list(a), dict(k))
        q = vec("q", 4)
        pts = [vec("p%d" % k, 2) for k in range(4)]
        cen = vec("c", 2)
        r = T.var("r", "R")
        I.assume(T.lt(Z, r))
        A, B = vec("A"), vec("B")
        for x in (A, B):
            I.assume(T.lt(SMALL, dot(x, x)))

        def matrix(ball):
            del seen["matrix"][:]
            call(ball, "matrix")
            return seen["matrix"][-1]

        def val(x):
            if isinstance(x, Arr):
                return ("arr", tuple(entries(I, x)))
            if isinstance(x, (Obj, List)):
                return ("ref", x.id)
            return ("val", x)

        def state(b):
            return {k: val(v) for k, v in I.rec(b).attrs.items()}

        def havoc(b, keys, tag):
            for k in sorted(keys):
                v = I.rec(b).attrs[k]
                if isinstance(v, Arr):
                    I.setattr(b, k, arr(I, vec("%s.%s" % (tag, k), len(entries(I, v)))))

        def run():
            for k in seen:
                del seen[k][:]
            b = f("Arcball", initial=arr(I, q))
            I.setattr(b, "constrain", constrain)
            if axes:
                call(b, "setaxes", arr(I, A), I.newlist(list(B)))
            call(b, "place", I.newlist(list(cen)), r)
            s0 = state(b)
            call(b, "down", arr(I, pts[0]))
            call(b, "drag", arr(I, pts[1]))
            s1 = state(b)
            moving = {k for k in s1 if s0.get(k) != s1[k]}
            havoc(b, moving, "any")                 # any state that calls can reach, at least
            X = matrix(b)
            call(b, "down", arr(I, pts[2]))
            X1 = matrix(b)
            d0 = state(b)
            call(b, "drag", arr(I, pts[3]))
            d1 = state(b)
            call(b, "next")
            d2 = state(b)
            kept = {k for k in d0 if d0[k] == d1.get(k) == d2.get(k)}
            havoc(b, set(d2) - kept, "later")       # after any number of drags and next
            Y = matrix(b)
            n0 = len(seen["mul"]), len(seen["slerp"])
            call(b, "drag", arr(I, pts[1]))
            W = matrix(b)
            n1 = len(seen["mul"])
            call(b, "next", T.var("acc", "R"))
            V = matrix(b)
            call(b, "next")
            e = state(b)
            broken = sorted(k for k in kept if e.get(k) != d0[k])
            return X, X1, Y, W, V, seen["mul"][n0[0]:n1], seen["slerp"][n0[1]:], {k: list(v) for k, v in seen.items()}, broken
        eps = T.num(Fraction(1, 10 ** 6), "R")
        hold = constrain and axes
        w = [vec("%s%d" % ("g" if hold else "w", k)) for k in range(5)]
        arcs = [(0, 1), (2, 3), (2, 4)]
        cs = [cross(w[i], w[j]) for i, j in arcs]
        I.presimp = Named([], [(dot(x, x), T.var("t%d%d" % a, "R")) for x, a in zip(cs, arcs)] + [(dot(q, q), ONE)])
        for tag in ("moving", "not moving"):
            facts = [T.lt(eps, T.var("t%d%d" % a, "R")) for a in arcs]
            if tag == "not moving":
                facts[2] = T.eq(T.var("t24", "R"), Z)
            n = 0
            for p in c.paths(run, assume=facts):
                if S.check(list(p.cond) + facts, 1500) == "unsat":
                    continue
                n += 1
                if p.kind == "raise":
                    c.fail("no exception", str(p.value))
                    continue
                X, X1, Y, W, V, mul, slerp, s, broken = p.value
                same_vec(c, "a press keeps the orientation", X1, X)
                c.true("the state of the press survives drags and next: %s" % broken, not broken)
                if tag == "moving":
                    c.true("one product", len(mul) == 1)
                    same_vec(c, "the arc from the point pressed", mul[0][0], [dot(w[2], w[4])] + cross(w[2], w[4]))
                    same_vec(c, "turns the orientation when pressed", mul[0][1], X)
                    same_vec(c, "dragged", W, mul[0][2])
                else:
                    c.true("no product", not mul)
                    same_vec(c, "dragged back", W, X)
                c.true("two continuations", len(slerp) == 2)
                same_vec(c, "next from the orientation before", slerp[0][0], Y)
                same_vec(c, "next through the present one", slerp[0][1], W)
                c.eq("next fraction", slerp[0][2], T.add(2, T.var("acc", "R")))
                same_vec(c, "continued", V, slerp[0][3])
                same_vec(c, "next again from", slerp[1][0], W)
                same_vec(c, "next again through", slerp[1][1], V)
                c.eq("next again fraction", slerp[1][2], T.num(2, "R"))
                c.true("five points", len(s["sphere"]) == 5)
                for k, (e, _) in enumerate(s["sphere"]):
                    same_vec(c, "point %d" % k, e[0], pts[k] if k < 4 else pts[1])
                    same_vec(c, "centre %d" % k, e[1], cen)
                    c.eq("radius %d" % k, e[2], r)
                if hold:
                    for k, ((pt, ax), _) in enumerate(s["constrain"]):
                        same_vec(c, "constrained point %d" % k, pt, vec("w%d" % k))
                        same_vec(c, "constraint axis %d" % k, ax, vec("n%d" % (0 if k < 2 else 1)))
            c.true(tag + ".returns", n >= 1)


for con in (False, True):
    for ax in (False, True):
        mk_history(con, ax)


@ob("arcball_nearest_axis: the axis with the nearest arc", [M + ".arcball_nearest_axis"], bounded="up to three axes")
def g(c):
    I, f, seen = ballworld(c)
    del I.contracts[M + ":arcball_nearest_axis"]
    p = vec("p")

    def constrain(I, fn, args, kw):
        b = I.bind_args(fn, args, kw)
        same_vec(c, "point", entries(I, I.as_arr(b["point"])), p)
        a = entries(I, I.as_arr(b["axis"]))
        return arr(I, [T.fn("con", (T.num(k), a[0], a[1], a[2])) for k in range(3)])
    I.contracts[M + ":arcball_constrain_to_axis"] = constrain
    np_ = npmodel.numpy(I).attrs
    dot0 = np_["dot"].f
    for n in (1, 2, 3):
        ax = [vec("ax%d" % k) for k in range(n)]
        score = [dot([T.fn("con", (T.num(k), a[0], a[1], a[2])) for k in range(3)], p) for a in ax]
        sv = [T.var("s%d" % k, "R") for k in range(n)]
        tg = Named([], list(zip(score, sv)))
        np_["dot"] = Builtin("np.dot", lambda a, b, tg=tg: tg(T.lift(I.scalar(dot0(a, b)))))
        objs = [arr(I, a) for a in ax]
        for kind in ("list", "tuple"):
            axes = I.newlist(list(objs)) if kind == "list" else tuple(objs)
            cnt = 0
            facts = [T.lt(T.num(-1, "R"), s) for s in sv]
            for q in c.paths(lambda: f("arcball_nearest_axis", arr(I, p), axes), assume=facts):
                pc = facts + list(q.cond)
                if S.check(pc, 2000) == "unsat":
                    continue
                cnt += 1
                if q.kind == "raise" or q.value is None:
                    c.fail("an axis is returned", str(q.value))
                    continue
                k = [j for j, o in enumerate(objs) if o is q.value or getattr(o, "id", 0) == getattr(q.value, "id", 1)]
                c.true("one of the axes", len(k) == 1)
                for j in range(n):
                    c.true("%d axes: nearest" % n, S.entails(pc, T.le(sv[j], sv[k[0]])))
            c.true("returns", cnt >= 1)
    c.true("no axes", c.one("no axes", lambda: f("arcball_nearest_axis", arr(I, p), I.newlist([]))) is None)
