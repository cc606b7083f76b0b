"""C18: objectives and constraints of pattern_constraints."""
import itertools
from checks.systems import *
from checks.spec import harmonic_basis
from pyvc import cvx

INFO = {"build": True}
PC = "electrode.pattern_constraints"
F = [PC + "." + n for n in ("PotentialObjective.__init__", "PotentialObjective.get", "SingleValueConstraint.__init__",
                            "SingleValueConstraint.objective", "SingleValueConstraint.constraints")]
F += ["electrode.utils." + n for n in ("deriv_to_reduced_idx", "rotate_tensor", "expand_tensor", "select_tensor", "name_to_idx", "idx_to_nidx")]
F += ["electrode.system.System.individual_potential"]


def world(c):
    I, m = load(c)
    P = I.load(PC)
    s, N, fid = system(c, I, m)
    U = I.load("electrode.utils")
    return I, P, s, N, U


def names(I, U, order):
    L = I.modget(U, "_derivative_names")
    return [list(I.concrete_list(x)) for x in I.concrete_list(L)][order]


def xp(I):
    return I.new_arr((3,), lambda i: T.fn("x", i), "R"), [T.fn("x", (T.num(k),)) for k in range(3)]


def full(order, basis, nm):
    """component t of the potential derivative of electrode e: the harmonic basis applied to the reduced form"""
    def E(e, t, row):
        co = basis[tuple(sorted(t))]
        r = T.num(0, "R")
        for k, v in co.items():
            r = T.add(r, T.mul(T.num(v, "R"), phi(e, order, k, row)))
        return r
    return E


def build(I, P, s, name, rot=None, **kw):
    x, row = xp(I)
    o = I.call(I.modget(P, "PotentialObjective"), [x, name] + ([rot] if rot is not None else []), kw)
    return o, row


def strings(order):
    return ["".join(t) for t in itertools.product("xyz", repeat=order)]


def mk_plain(order, first):
    @ob("PotentialObjective order %d%s without rotation" % (order, " from " + first if first else ""), F)
    def g(c):
        I, P, s, N, U = world(c)
        nm = names(I, U, order)
        basis = harmonic_basis(order, nm)
        c.true("harmonic basis", basis is not None)
        E = full(order, basis, nm)
        for d in strings(order):
            if not d.startswith(first):
                continue
            o, row = build(I, P, s, d)
            r = c.one(d, lambda: I.call(I.getattr(o, "get"), [s, None]))
            t = tuple("xyz".index(q) for q in d)
            c.eq("d/d" + d, r, I.new_arr((N,), lambda i: E(i[0], t, row), "R"))


def mk_rot(order, chunk=None):
    @ob("PotentialObjective order %d with rotation%s" % (order, "" if chunk is None else " %d" % chunk), F, timeout=400)
    def g(c):
        I, P, s, N, U = world(c)
        nm = names(I, U, order)
        basis = harmonic_basis(order, nm)
        E = full(order, basis, nm)
        R = I.new_arr((3, 3), lambda i: T.fn("rot", i), "R")
        rr = lambda a, b: T.fn("rot", (T.num(a), T.num(b)))
        srt = ["".join(sorted(d)) for d in strings(order)]
        todo = sorted(set(srt)) if order > 3 else strings(order)
        if chunk is not None:
            todo = todo[chunk::6]
        if chunk in (None, 0):
            # the other spellings of the same derivative build the same objective
            for d in strings(order):
                e = "".join(sorted(d))
                if order > 3 and d != e:
                    a, b = build(I, P, s, d, R)[0], build(I, P, s, e, R)[0]
                    ra, rb = I.rec(a).attrs, I.rec(b).attrs
                    for k in sorted(set(ra) | set(rb)):
                        if k not in ("derivative", "x", "rotation"):
                            c.true("%s: attribute %s as for %s" % (d, k, e), k in ra and k in rb and ra[k] == rb[k])
        for d in todo:
            o, row = build(I, P, s, d, R)
            r = c.one(d, lambda: I.call(I.getattr(o, "get"), [s, None]))
            t = tuple("xyz".index(q) for q in d)
            e = T.var("ee", "I")
            rng = [T.le(0, e), T.lt(e, N)]
            c.eq(d + " shape", r.shape[0], N)
            old = I.pc
            I.pc = list(I.pc) + rng
            got = I.elem(r, (e,))
            I.pc = old

            def contract(t):
                tot = T.num(0, "R")
                for ss in itertools.product(range(3), repeat=order):
                    f = E(e, ss, row)
                    for a, b in zip(ss, t):
                        f = T.mul(f, rr(a, b))
                    tot = T.add(tot, f)
                return tot
            want = contract(t)
            if d in nm or "".join(sorted(d)) in nm:
                c.eq(d, got, want, pc=rng)
                continue
            # a dependent component: t = rest + (a, a); two trace partners are given; the difference to the
            # contracted tensor is a multiple of (rot rot^T - 1)
            name = "".join(sorted(d))
            done = False
            for a in "xyz":
                if name.count(a) < 2:
                    continue
                rest = list(name)
                rest.remove(a)
                rest.remove(a)
                partners = ["".join(sorted(rest + [b, b])) for b in "xyz" if b != a]
                if not all(p in nm for p in partners):
                    continue
                done = True
                ri = ["xyz".index(q) for q in rest]

                def resid(gram):
                    tot = T.num(0, "R")
                    for ss in itertools.product(range(3), repeat=order):
                        f = E(e, ss, row)
                        for p, q in zip(ss, ri):
                            f = T.mul(f, rr(p, q))
                        g_ = gram(ss[-2], ss[-1])
                        tot = T.add(tot, T.mul(f, g_))
                    return tot
                gram = lambda p, q: T.sub(_s([T.mul(rr(p, k), rr(q, k)) for k in range(3)]), T.num(1 if p == q else 0, "R"))
                c.eq(d + " up to orthogonality", T.sub(want, got), resid(gram), pc=rng)
                c.eq(d + " for an orthogonal frame", resid(lambda p, q: T.num(0, "R")), T.num(0, "R"), pc=rng)
                break
            if not done:
                c.fail(d, "no pair of reduced partners", status="undecided")


def _s(ts):
    r = T.num(0, "R")
    for t in ts:
        r = T.add(r, t)
    return r


mk_plain(0, "")
mk_plain(1, "")
mk_plain(2, "")
mk_plain(3, "")
mk_plain(4, "")
for _f in "xyz":
    mk_plain(5, _f)
for _o in range(4):
    mk_rot(_o)
for _c in range(6):
    mk_rot(4, _c)
    mk_rot(5, _c)


def opt(name):
    return T.var(name)


def mk_con(off, mn, mx, val):
    on = [n for n, f in (("value", val), ("offset", off), ("min", mn), ("max", mx)) if f]

    @ob("PotentialObjective with %s" % (", ".join(on) or "nothing"), F + [PC + ".Constraint"])
    def g(c):
        for d in ("z", "xxx", "xy"):
            I, P, s, N, U = world(c)
            nm = names(I, U, len(d))
            E = full(len(d), harmonic_basis(len(d), nm), nm)
            kw = {n: T.var("par_" + n) for n in on}
            o, row = build(I, P, s, d, **kw)
            t = tuple("xyz".index(q) for q in d)
            I.assume(T.lt(0, N))
            v = c.one("variable", lambda: I.call(I.getattr(I.import_("cvxopt.modeling", None), "variable"), [N]))
            r = c.one("objective", lambda: I.alloc(ListRec(I.parts(I.call(I.getattr(o, "objective"), [s, v]))), List))
            w = I.newlist([(I.new_arr((N,), lambda i: E(i[0], t, row), "R"), kw["value"])] if val else [])
            c.eq(d + " number of objectives", I.length(r), I.length(w))
            c.eq(d + " objective", r, w)
            r = c.one("constraints", lambda: I.alloc(ListRec(I.parts(I.call(I.getattr(o, "constraints"), [s, v]))), List))
            k = T.var("kk", "I")
            lin = T.summ(k, 0, N, T.mul(E(k, t, row), v.f(k)))
            w = []
            if off:
                w.append(("=", T.sub(lin, kw["offset"])))
            if mn:
                w.append(("<", T.sub(kw["min"], lin)))
            if mx:
                w.append(("<", T.sub(lin, kw["max"])))
            same_constraints(c, d + " constraints", r, w)


def same_constraints(c, label, r, w):
    """the list r holds exactly the constraints w (kind, scalar term), in any order"""
    I = c.I
    got = I.concrete_list(r)
    c.true(label + " number", len(got) == len(w))
    if not all(isinstance(g, cvx.Con) for g in got) or sorted(g.kind for g in got) != sorted(k for k, _ in w):
        c.fail(label, "%s instead of %s" % (got, [k for k, _ in w]))
        return
    # match by kind; among the inequalities by numeric fingerprint
    left = list(got)
    for n, (k, t) in enumerate(w):
        cand = [g for g in left if g.kind == k]
        best = cand[0]
        if len(cand) > 1:
            from pyvc import prover as PR
            for g in cand:
                if PR.eq_term(g.d.f(T.num(0)), t, list(I.pc), 1, 200000).status == "proved":
                    best = g
                    break
        left.remove(best)
        c.eq("%s[%d] length" % (label, n), best.d.n, T.num(1))
        c.eq("%s[%d] %s" % (label, n, k), best.d.f(T.num(0)), t)


for _p in itertools.product((False, True), repeat=4):
    mk_con(*_p)


@ob("MultiPotentialObjective: value-weighted sum", [PC + ".MultiPotentialObjective.get", PC + ".MultiPotentialObjective.__init__"])
def multi(c):
    for nc in (0, 1, 2, 3):
        for none in [None] + list(range(nc)):
            I, P, s, N, U = world(c)
            ds = ["z", "xx", "yyy"][:nc]
            os, tot = [], []
            for k, d in enumerate(ds):
                nm = names(I, U, len(d))
                E = full(len(d), harmonic_basis(len(d), nm), nm)
                kw = {} if k == none else dict(value=T.var("w%d" % k))
                o, row = build(I, P, s, d, **kw)
                os.append(o)
                t = tuple("xyz".index(q) for q in d)
                if k != none:
                    tot.append(lambda e, E=E, t=t, row=row, k=k: T.mul(T.var("w%d" % k), E(e, t, row)))
            m = I.call(I.modget(P, "MultiPotentialObjective"), [I.newlist(os)])
            r = c.one("get", lambda: I.call(I.getattr(m, "get"), [s, None]))
            lab = "%d components%s" % (nc, "" if none is None else ", value %d None" % none)
            if not tot:
                c.eq(lab, r, T.num(0, "R"))
            else:
                c.eq(lab, r, I.new_arr((N,), lambda i: _s([f(i[0]) for f in tot]), "R"))


@ob("MultiPotentialObjective: any number of components", [PC + ".MultiPotentialObjective.get", PC + ".MultiPotentialObjective.objective"])
def multi_any(c):
    I, P, s, N, U = world(c)
    K = T.var("K", "I")
    I.assume(T.lt(0, K))

    def objective(I, self, system, variables):
        return Seq((("one", (I.new_arr((N,), lambda i: T.fn("comp", (self.idx, i[0])), "R"), T.fn("w", (self.idx,)))),))
    fam = I.alloc(FamRec("components", None, {}, dict(objective=objective)))
    comps = I.alloc(ListRec((("comp", K, lambda i: T.TRUE, lambda i: (("one", SymObj(fam, i)),)),)), List)
    V = T.var("val")
    m = I.call(I.modget(P, "MultiPotentialObjective"), [comps], dict(value=V))
    k = T.var("kc", "I")
    want = I.new_arr((N,), lambda i: T.summ(k, 0, K, T.mul(T.fn("w", (k,)), T.fn("comp", (k, i[0])))), "R")
    r = c.one("get", lambda: I.call(I.getattr(m, "get"), [s, None]))
    c.eq("weighted sum", r, want)
    r = c.one("objective", lambda: I.alloc(ListRec(I.parts(I.call(I.getattr(m, "objective"), [s, None]))), List))
    c.eq("objective", r, I.newlist([(want, V)]))


@ob("PatternRangeConstraint", [PC + ".PatternRangeConstraint.__init__", PC + ".PatternRangeConstraint.constraints", PC + ".Constraint.objective"])
def prange(c):
    for mn in (False, True):
        for mx in (False, True):
            for idx in (False, True):
                I, P, s, N, U = world(c)
                I.assume(T.lt(0, N))
                kw = {}
                if mn:
                    kw["min"] = T.var("mn")
                if mx:
                    kw["max"] = T.var("mx")
                k = T.var("kidx", "I")
                if idx:
                    kw["index"] = k
                    I.assume(T.le(0, k))
                    I.assume(T.lt(k, N))
                o = I.call(I.modget(P, "PatternRangeConstraint"), [], kw)
                v = c.one("variable", lambda: I.call(I.getattr(I.import_("cvxopt.modeling", None), "variable"), [N]))
                lab = "min=%s max=%s index=%s " % (mn, mx, idx)
                r = c.one("objective", lambda: I.alloc(ListRec(I.parts(I.call(I.getattr(o, "objective"), [s, v]))), List))
                c.eq(lab + "objective", r, I.newlist([]))
                for p in c.paths(lambda: I.concrete_list(I.call(I.getattr(o, "constraints"), [s, v]))):
                    if p.kind == "raise":
                        c.fail(lab, "raises %s" % (p.value,))
                        continue
                    check_range(c, lab, p.value, v, N, k if idx else None, kw)


def check_range(c, lab, got, v, N, k, kw):
    """the set of admissible voltages is exactly {min <= v_i <= max}: pointwise at a generic index"""
    I = c.I
    q = T.var("q", "I")
    rng = [T.le(0, q), T.lt(q, N)]
    n = T.num(1) if k is not None else N
    u = v.f(k if k is not None else q)
    spec = T.and_(*([T.le(kw["min"], u)] if "min" in kw else []) + ([T.le(u, kw["max"])] if "max" in kw else []))
    parts = []
    for g in got:
        if not isinstance(g, cvx.Con):
            c.fail(lab, "%r is no constraint" % (g,))
            return
        c.eq(lab + "length", g.d.n, n)
        f = g.d.f(T.num(0) if k is not None else q)
        parts.append(T.eq(f, T.num(0, "R")) if g.kind == "=" else T.le(f, T.num(0, "R")))
    have = T.and_(*parts)
    if "min" in kw and "max" in kw and any(g.kind == "=" for g in got):
        c.eq(lab + "equality only for min == max", kw["min"], kw["max"])
    c.true(lab + "implies the bounds", T.or_(T.not_(have), spec), pc=rng)
    c.true(lab + "implied by the bounds", T.or_(T.not_(spec), have), pc=rng)
