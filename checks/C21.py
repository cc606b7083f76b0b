"""C21: System.shims against the contracts of PotentialObjective (C18) and System.optimize (C19)."""
from checks.systems import *
from pyvc import cvx

INFO = {"build": True}
F = ["electrode.system.System.shims"]
J, K = T.var("jp", "I"), T.var("kp", "I")        # arbitrary position in x_coord_deriv / in objectives


def real(t):
    """the same number, with every constant of a choice between numbers written as a real"""
    t = T.lift(t)
    return T.ite(t.args[0], real(t.args[1]), real(t.args[2])) if t.op == "ite" else T.toreal(t)


def tok(name, *idx):
    return cvx.Token(T.fn(name, tuple(T.lift(i) for i in idx)))


def flatten(I, v):
    """what optimize is given: number and identity of the entries of every stretch of the list"""
    out = []
    for p in I.parts(v):
        if p[0] == "one":
            out.append(("one", ident(I, p[1])))
        else:
            q = T.var("gq", "I")
            inner = p[3](q)
            if len(inner) != 1 or inner[0][0] != "one" or p[2](q) is not T.TRUE:
                raise Unsupported("constraint list built in another way")
            out.append(("comp", T.lift(p[1]), ident(I, inner[0][1])))
    return out


def ident(I, v):
    if isinstance(v, SymObj):
        return ("sym", I.heap[v.fam].name, T.lift(v.idx))
    if isinstance(v, Obj):
        return ("obj", v.id)
    raise Unsupported("unknown entry of the constraint list")


def scenario(c, extra, cons):
    """extra: None (argument omitted) or symbolic list; cons: None or symbolic list"""
    I, m = load(c)
    s, N, fid = system(c, I, m)
    n = T.var("n", "I")
    I.assume(T.le(0, n))
    mm = T.var("m", "I") if extra else T.num(0)
    I.assume(T.le(0, mm))
    pot = I.alloc(FamRec("potential", None, dict(value=lambda i: T.num(0, "R")), {}))
    ext = I.alloc(FamRec("extra", None, dict(value=lambda i: T.fn("value0", (i,))), {}))
    con = I.alloc(FamRec("constraint", None, {}, {}))
    made = []

    def PotObj(x=None, derivative=None, rotation=None, value=None, **kw):
        if kw or not I.loopstack:
            raise Unsupported("PotentialObjective built outside of the loop")
        i = I.loopstack[-1]
        made.append((x, derivative, rotation, value, i, tuple(I.pc)))
        return SymObj(pot, i)
    I.contracts["electrode.pattern_constraints:PotentialObjective"] = lambda I, k, a, kw: PotObj(*a, **kw)
    calls = []

    def optimize(I, self, constraints, rcond=1e-9, verbose=True, **kw):
        fl = flatten(I, constraints)
        sig = []
        for e in fl:
            if e[0] == "one":
                r = I.heap[e[1][1]] if e[1][0] == "obj" else None
                if r is None or r.cls.name != "PatternRangeConstraint":
                    raise Unsupported("entry of the constraint list")
                sig.append(("range", tuple(sorted((k, v) for k, v in r.attrs.items()))))
            else:
                sig.append(("fam", e[2][1], e[1], e[2][2]))
        calls.append((sig, tuple(I.pc), tuple(I.loopstack)))
        key = tuple(real(v) for v in (I.heap[pot].fields["value"](J), I.heap[ext].fields["value"](K), rcond))
        return (I.new_arr((N,), lambda i: T.fn("popt", key + (i[0],)), "R"), T.fn("copt", key))
    I.contracts["electrode.system:System.optimize"] = lambda I, f, a, kw: optimize(I, *a, **kw)
    xcd = I.alloc(ListRec((("comp", n, lambda i: T.TRUE, lambda i: (("one", (tok("x", i), tok("coord", i), tok("deriv", i))),)),), ), List)
    kw = dict(rcond=T.var("rc", "R"))
    if extra:
        kw["objectives"] = I.alloc(ListRec((("comp", mm, lambda i: T.TRUE, lambda i: (("one", SymObj(ext, i)),)),)), List)
    M = T.var("M", "I")
    I.assume(T.le(0, M))
    if cons:
        kw["constraints"] = I.alloc(ListRec((("comp", M, lambda i: T.TRUE, lambda i: (("one", SymObj(con, i)),)),)), List)
    elif cons is None:
        kw["constraints"] = None
    I.assume(T.and_(T.le(0, J), T.lt(J, n)))
    if extra:
        I.assume(T.and_(T.le(0, K), T.lt(K, mm)))
    return I, s, N, n, mm, M, pot, ext, xcd, kw, made, calls


def mk(extra, cons):
    tag = "%s extra objectives, %s" % ("any number of" if extra else "no", "given constraints" if cons else "constraints %s" % ("None" if cons is None else "omitted"))

    @ob("shims: " + tag, F)
    def g(c):
        I, s, N, n, mm, M, pot, ext, xcd, kw, made, calls = scenario(c, extra, cons)
        ret = 0
        for p in c.paths(lambda: I.call(I.getattr(s, "shims"), [xcd], kw)):
            if p.kind == "raise":
                c.fail("never raises", "%s" % (p.value,))
                continue
            ret += 1
            key = lambda r: (T.ite(T.eq(r, J), T.num(1, "R"), T.num(0, "R")),
                             T.ite(T.eq(r, T.add(n, K)), T.num(1, "R"), T.num(0, "R")) if extra else T.fn("value0", (K,)), T.var("rc", "R"))
            c.eq("vectors", p.value, I.new_arr((T.add(n, mm), N), lambda i: T.div(T.fn("popt", key(i[0]) + (i[1],)), T.fn("copt", key(i[0]))), "R"))
            c.eq("values afterwards", I.heap[pot].fields["value"](J), T.num(0, "R"))
            if extra:
                c.eq("values of the extra objectives afterwards", I.heap[ext].fields["value"](K), T.num(0, "R"))
        c.true("returns", ret > 0)
        c.true("objectives are built", len(made) > 0)
        for x, d, r, v, i, pc in made:
            c.eq("x of the objective", x, tok("x", i))
            c.eq("derivative of the objective", d, tok("deriv", i))
            c.eq("rotation of the objective", r, tok("coord", i))
            c.eq("initial value", T.toreal(T.lift(v)), T.num(0, "R"))
        c.true("problems are solved", len(calls) > 0)
        want = [("fam", "constraint", M, T.var("gq", "I"))] if cons else [("range", (("index", None), ("max", 1), ("min", -1)))]
        want.append(("fam", "potential", n, T.var("gq", "I")))
        if extra:
            want.append(("fam", "extra", mm, T.var("gq", "I")))
        for sig, pc, st in calls:
            ok = sorted(map(repr, sig)) == sorted(map(repr, want))
            c.true("problem consists of the constraints and all objectives", ok)


for _e in (False, True):
    for _c in (True, None, False):
        mk(_e, _c)
