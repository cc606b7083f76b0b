"""C29: rotation matrices, Euler angles and quaternions of the same rotation."""
from checks.xforms import *

INFO = {"build": True}
EPS = T.num(Fraction(1, 10 ** 12), "R")


def mk_euler(impl, name, enc):
    ax = name if enc == "string" else tup(name)

    @ob("euler_matrix %s %s (%s)" % (name, enc, impl), funcs("euler_matrix"))
    def g(c):
        I, f = world(c, impl)
        a, b, k = [T.var(n, "R") for n in "abc"]
        r = c.one("run", lambda: I.call(f("euler_matrix"), [a, b, k, ax], {}))
        R = euler(name, (a, b, k))
        c.eq("product of the elementary rotations", r, arr(I, hom(R)))
        q = c.one("quaternion", lambda: I.call(f("quaternion_from_euler"), [T.mul(2, a), T.mul(2, b), T.mul(2, k), ax], {}))
        q = entries(I, q)
        c.eq("unit quaternion", dot(q, q), T.num(1, "R"))
        S_ = euler(name, (a, b, k), [(T.mul(2, sin(x), cos(x)), T.sub(1, T.mul(2, square(sin(x))))) for x in (a, b, k)])
        c.eq("quaternion of the same rotation", arr(I, quatmat(q)), arr(I, S_))


for impl in IMPL:
    for n in NAMES:
        for e in ("string", "tuple"):
            mk_euler(impl, n, e)


def full(I, R):
    """4x4 matrix with the rotation R and arbitrary other entries"""
    rows = [list(R[i]) + [T.fn("rest", (T.num(i),))] for i in range(3)] + [[T.fn("rest", (T.num(3 + j),)) for j in range(4)]]
    return arr(I, rows)


def mk_inverse(impl, name):
    """every rotation matrix is euler_matrix(a, b, c) for some angles; angles are recovered in the three cases of the middle angle"""
    @ob("euler_from_matrix %s (%s)" % (name, impl), funcs("euler_from_matrix", "euler_matrix"), timeout=400)
    def g(c):
        I, f = world(c, impl)
        ax = name
        rep = name[1] == name[3]
        pos = sin if rep else cos
        a, b, k = [T.var(n, "R") for n in "abc"]
        pi2 = T.div(T.PI, 2)
        cases = [("regular +", b, [T.lt(EPS, pos(b))], [pos(b)]),
                 ("regular -", b, [T.lt(EPS, T.neg(pos(b)))], [T.neg(pos(b))])]
        for q in (0, 1):
            b0 = T.mul(T.PI, T.num(q, "R")) if rep else T.mul(pi2, T.num(1 - 2 * q, "R"))
            cases.append(("gimbal %d" % q, b0, [], [T.num(0, "R"), T.num(1, "R")]))
        for tag, bb, facts, roots in cases:
            R = euler(name, (a, bb, k))
            A = full(I, R)
            before = I.copy_arr(A)
            tg = Trig(facts, roots=roots + [T.num(1, "R"), T.num(0, "R")])
            for sub in (name, tup(name)):
                n = 0
                for p in c.paths(lambda: I.call(f("euler_from_matrix"), [A, sub], {}), assume=facts):
                    # the condition of this path, in closed form
                    cond = [tg(x) for x in p.cond]
                    if any(x is T.FALSE or S.check(list(I.pc) + [x], 4000) == "unsat" for x in cond):
                        continue
                    n += 1
                    if p.kind == "raise":
                        c.fail(tag + ".no exception", str(p.value))
                        continue
                    ang = [T.lift(I.scalar(x)) for x in I.concrete_list(p.value)]
                    Q = I.as_arr(I.call(f("euler_matrix"), ang + [sub], {}))
                    got = entries(I, Q)
                    for i in range(3):
                        for j in range(3):
                            c.eq("%s.reproduces the matrix [%d,%d]" % (tag, i, j), tg(got[i][j]), R[i][j])
                    frame(c, tag, I, A, before)
                c.true(tag + ".covered", n >= 1)


for impl in IMPL:
    for n in NAMES:
        mk_inverse(impl, n)


def eqm(c, label, I, a, rows, tg=None):
    """entry by entry, after elimination of the square roots"""
    a = I.as_arr(a)
    if not rows or tuple(a.shape) != ((len(rows), len(rows[0])) if isinstance(rows[0], list) else (len(rows),)):
        c.fail(label + ".shape", repr(a.shape))
        return
    e = entries(I, a)
    for i, r in enumerate(rows):
        if isinstance(r, list):
            for j, v in enumerate(r):
                c.eq("%s[%d,%d]" % (label, i, j), tg(e[i][j]) if tg else e[i][j], v)
        else:
            c.eq("%s[%d]" % (label, i), tg(e[i]) if tg else e[i], r)


def mk_rotation(impl, kind, n):
    @ob("rotation_matrix %s %s (%s)" % (kind, n, impl), funcs("rotation_matrix"))
    def g(c):
        I, f = world(c, impl)
        al = T.var("angle", "R")
        d = vec("d")
        P_ = dot(d, d)
        I.assume(T.lt(square(EPS), P_))
        L = T.sqrt(P_)
        u = [T.div(x, L) for x in d]
        p = vec("p")
        ext = [T.fn("w", (T.num(0),)), T.fn("w", (T.num(1),))]
        d4, p4 = (d + [ext[0]], p + [ext[1]]) if n == 4 else (d, p)
        conv = (lambda v: arr(I, v)) if kind == "array" else (lambda v: I.newlist(v)) if kind == "list" else tuple
        D, Pt = conv(d4), conv(p4)
        if kind == "array":
            b0, b1 = I.copy_arr(D), I.copy_arr(Pt)
        R = rodrigues(u, cos(al), sin(al))
        t = [T.sub(p[i], dot(R[i], p)) for i in range(3)]
        for tag, args, want in (("about an axis through the origin", [al, D], hom(R)), ("about an axis through a point", [al, D, Pt], hom(R, t)),
                                ("point None", [al, D, None], hom(R))):
            m = 0
            for q in c.run(tag, lambda: I.call(f("rotation_matrix"), args, {})):
                m += 1
                eqm(c, tag, I, q, want)
                if kind == "array":
                    frame(c, "direction", I, D, b0)
                    frame(c, "point", I, Pt, b1)
            c.true(tag + ".covered", m >= 1)


for impl in IMPL:
    for kind in ("array", "list", "tuple"):
        mk_rotation(impl, kind, 3)
    mk_rotation(impl, "array", 4)


@ob("euler_from_quaternion", [M + ".euler_from_quaternion"])
def g(c):
    I, f = world(c, "py")
    log = []

    def qm(I, fn, a, k):
        a = I.bind_args(fn, a, k)
        log.append(("matrix of", a["quaternion"]))
        return I.new_arr((4, 4), lambda i: T.fn("QM", i), "R")

    def em(I, fn, a, k):
        a = I.bind_args(fn, a, k)
        log.append(("angles of", a["matrix"], a["axes"]))
        return (T.var("x", "R"), T.var("y", "R"), T.var("z", "R"))
    I.contracts[M + ":quaternion_matrix"] = qm
    I.contracts[M + ":euler_from_matrix"] = em
    Q = symarr(I, "q", 4)
    for ax in ((), ("ryxz",)):
        del log[:]
        r = c.one("run", lambda: I.call(f("euler_from_quaternion"), [Q] + list(ax), {}))
        c.true("two calls", [x[0] for x in log] == ["matrix of", "angles of"])
        c.true("quaternion passed", log[0][1] is Q)
        c.eq("matrix passed", log[1][1], I.new_arr((4, 4), lambda i: T.fn("QM", i), "R"))
        c.true("axes passed", log[1][2] == (ax[0] if ax else "sxyz"))
        c.eq("angles returned", r, (T.var("x", "R"), T.var("y", "R"), T.var("z", "R")))


def mk_about(impl, kind):
    @ob("quaternion_about_axis %s (%s)" % (kind, impl), funcs("quaternion_about_axis") + [M + ".vector_norm"])
    def g(c):
        I, f = world(c, impl)
        al = T.var("a", "R")
        d = vec("d")
        P_ = dot(d, d)
        I.assume(T.lt(square(EPS), P_))
        L = T.sqrt(P_)
        D = arr(I, d) if kind == "array" else I.newlist(d)
        b0 = I.copy_arr(D) if kind == "array" else None
        n = 0
        for q in c.run("run", lambda: I.call(f("quaternion_about_axis"), [T.mul(2, al), D], {})):
            n += 1
            # |d| > EPS excludes the branch for the null axis
            if S.check(list(I.pc), 4000) == "unsat":
                continue
            eqm(c, "half angle times the unit axis", I, q, [cos(al)] + [T.div(T.mul(sin(al), x), L) for x in d])
            e = entries(I, q)
            eqm(c, "matrix", I, arr(I, quatmat(e)), rodrigues([T.div(x, L) for x in d], T.sub(1, T.mul(2, square(sin(al)))), T.mul(2, sin(al), cos(al))))
            if kind == "array":
                frame(c, "axis", I, D, b0)
        c.true("covered", n >= 1)


for impl in IMPL:
    for kind in ("array", "list"):
        mk_about(impl, kind)


def mk_from_matrix(impl):
    """quaternion_from_matrix(isprecise=True) of the matrix of the unit quaternion p/|p| is p/|p| or its negative"""
    @ob("quaternion_from_matrix precise (%s)" % impl, funcs("quaternion_from_matrix"), timeout=600)
    def g(c):
        I, f = world(c, impl)
        p = vec("p", 4)
        N = dot(p, p)
        I.assume(T.lt(0, N))
        L = T.sqrt(N)
        q = [T.div(x, L) for x in p]
        A = arr(I, hom(unit_matrix(p)))
        b0 = I.copy_arr(A)
        seen = 0
        for r in c.run("run", lambda: I.call(f("quaternion_from_matrix"), [A, True], {})):
            frame(c, "matrix", I, A, b0)
            e = entries(I, r)
            good = []
            for k in range(4):
                if S.check([T.lt(0, N)] + [x for x in I.pc if not has(x, "sqrt")] + [T.eq(p[k], 0)], 20000) == "unsat":
                    good.append(k)
            ok = False
            for k in good:
                res = []
                for sg in (1, -1):
                    sp = T.mul(sg, p[k])
                    pc = [T.lt(0, N), T.lt(0, sp)]
                    tg = Trig(pc, roots=[T.div(T.mul(m, sp), L) for m in (1, 2)])
                    ev = [tg(x) for x in e]
                    if any(has(x, "sqrt", skip=L) for x in ev):
                        break
                    infeasible = any(S.check(pc + [strip(tg(x), L)], 5000) == "unsat" for x in I.pc if has(x, "sqrt"))
                    res.append(infeasible or any(all(tg.zero(T.sub(x, T.mul(s2, y))) for x, y in zip(ev, q)) for s2 in (1, -1)))
                if len(res) == 2:
                    ok = all(res)
                    break
            seen += 1
            c.true("plus or minus the quaternion", ok)
        c.true("all cases", seen >= 4)


def has(t, op, skip=None):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen or x is skip:
            continue
        seen.add(x)
        if x.op == op:
            return True
        st.extend(T.children(x))
    return False


def strip(t, L):
    return t


def unit_matrix(p):
    """matrix of the quaternion p/|p|"""
    N = dot(p, p)
    w, x, y, z = p
    m = T.mul
    two = lambda a: T.div(T.mul(2, a), N)
    return [[T.sub(1, two(T.add(m(y, y), m(z, z)))), two(T.sub(m(x, y), m(z, w))), two(T.add(m(x, z), m(y, w)))],
            [two(T.add(m(x, y), m(z, w))), T.sub(1, two(T.add(m(x, x), m(z, z)))), two(T.sub(m(y, z), m(x, w)))],
            [two(T.sub(m(x, z), m(y, w))), two(T.add(m(y, z), m(x, w))), T.sub(1, two(T.add(m(x, x), m(y, y))))]]


for impl in IMPL:
    mk_from_matrix(impl)


@ob("quaternion_from_matrix by eigenvector (py)", [M + ".quaternion_from_matrix"], timeout=400)
def g(c):
    from pyvc import npmodel
    I, f = world(c, "py")
    p = vec("p", 4)
    N = dot(p, p)
    I.assume(T.lt(0, N))
    L = T.sqrt(N)
    q = [T.div(x, L) for x in p]
    v = [q[1], q[2], q[3], q[0]]
    A = arr(I, hom(unit_matrix(p)))
    b0 = I.copy_arr(A)
    third = T.num(Fraction(1, 3), "R")
    called = []

    def eigh(K, UPLO="L"):
        """requires: the symmetric matrix of the given triangle is 4/3 v v^T - 1/3 with |v| = 1; ensures: ascending eigenvalues
        -1/3, -1/3, -1/3, 1 and in the last column the unit eigenvector, v or -v (spectral theorem)"""
        K = I.as_arr(K)
        called.append(K)
        if UPLO not in ("L", "U"):
            raise Unsupported("UPLO")
        c.eq("v is a unit vector", dot(v, v), T.num(1, "R"))
        for i in range(4):
            for j in range(i + 1):
                e = I.scalar(I.elem(K, (i, j) if UPLO == "L" else (j, i)))
                c.eq("matrix K[%d,%d]" % (i, j), e, T.sub(T.mul(T.num(Fraction(4, 3), "R"), v[i], v[j]), third if i == j else T.num(0, "R")))
        sg = 1 if I.decide(T.lt(0, T.var("sign", "R"))) else -1
        w = arr(I, [T.neg(third)] * 3 + [T.num(1, "R")])
        V = arr(I, [[T.fn("E", (T.num(i), T.num(j))) for j in range(3)] + [T.mul(sg, v[i])] for i in range(4)])
        return (w, V)
    npmodel.numpy(I).attrs["linalg"].attrs["eigh"] = Builtin("np.linalg.eigh", eigh)
    n = 0
    for r in c.run("run", lambda: I.call(f("quaternion_from_matrix"), [A], {})):
        frame(c, "matrix", I, A, b0)
        e = entries(I, r)
        tg = Trig([T.lt(0, N)])
        c.true("plus or minus the quaternion", any(all(tg.zero(T.sub(x, T.mul(s2, y))) for x, y in zip(e, q)) for s2 in (1, -1)))
        n += 1
    c.true("covered", n >= 2 and len(called) >= 1)
