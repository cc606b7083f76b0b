"""C19: System.optimize: the problem handed to the solver, the values returned, and the lemma that they realise the objectives."""
from checks.systems import *
from pyvc import cvx, flat

INFO = {"build": True}
F = ["electrode.system.System.optimize", "electrode.system.System._run_cvxopt", "electrode.pattern_constraints.Constraint.objective",
     "electrode.pattern_constraints.Constraint.constraints"]
GE = T.var("gel", "I")


def comp(I, n, f):
    return I.alloc(ListRec((("comp", n, lambda i: T.TRUE, lambda i: (("one", f(i)),)),)), List)


def family(I, N):
    """constraints by contract: objective() yields nob(c) pairs of a coefficient vector over the electrodes and the requested value;
    constraints() yields ncon(c) constraints on the variables"""
    def sig(v):
        if not isinstance(v, cvx.Expr):
            raise PyExc(I.builtins["TypeError"], ("not a variable",))
        return (T.toreal(T.lift(v.n)), v.f(GE))

    def objective(I, self, system, variables):
        n = T.fn("nob", (self.idx,), "I")
        I.assume(T.le(0, n))
        idx = self.idx
        return Seq((("comp", n, lambda q: T.TRUE, lambda q: (("one", (I.new_arr((N,), lambda i: T.fn("coef", (idx, q, i[0])), "R"),
                                                                      T.fn("val", (idx, q)))),)),))

    def constraints(I, self, system, variables):
        n = T.fn("ncon", (self.idx,), "I")
        I.assume(T.le(0, n))
        s = sig(variables)
        return Seq((("comp", n, lambda q: T.TRUE, lambda q: (("one", cvx.Token(T.fn("con", (self.idx, q) + s))),)),))
    return I.alloc(FamRec("constraints", None, {}, dict(objective=objective, constraints=constraints)))


def mk(verbose):
    @ob("optimize: any number of constraints and objectives, verbose=%s" % verbose, F)
    def g(c):
        I, m = load(c)
        s, N, fid = system(c, I, m)
        I.assume(T.lt(0, N))
        fam = family(I, N)
        C = T.var("C", "I")
        I.assume(T.le(0, C))
        q = T.var("qa", "I")
        I.assume(T.forall(q, 0, C, T.le(0, T.fn("nob", (q,), "I"))))
        cons = comp(I, C, lambda k: SymObj(fam, k))
        kw = dict(verbose=verbose, rcond=T.var("rc", "R"))
        k, j, e, w = T.var("k1", "I"), T.var("j1", "I"), T.var("e1", "I"), T.var("w1", "I")
        KT = T.summ(q, 0, C, T.fn("nob", (q,), "I"))
        nested = lambda f: (("comp", C, lambda a: T.TRUE, lambda a: (("comp", T.fn("nob", (a,), "I"), lambda b: T.TRUE, lambda b, a=a: (("one", f(a, b)),)),)),)
        seen = set()

        def run():
            I.events[:] = []
            try:
                return ("ok", I.call(I.getattr(s, "optimize"), [cons], kw), list(I.events))
            except PyExc as e:
                return ("raise", e, list(I.events))
        for p in c.paths(run, [T.lt(0, KT)]):
            if p.kind == "raise":
                c.fail("optimize", "%s" % (p.value,))
                continue
            kind, value, events = p.value
            op = cvx.last_op(I)
            if op is None:
                c.fail("optimize", "no problem was built: %s" % (value,))
                continue
            optimal = T.eq(T.var("status", "S"), T.lift("optimal"))
            if kind == "raise":
                c.true("raises only when the solver fails", value.cls is I.builtins["ValueError"])
                c.true("raises only when the solver fails (status)", T.not_(optimal))
            else:
                c.true("returns only an optimal solution", optimal)
            ev = dict((x[0], x) for x in events)
            single = I.entails(T.eq(KT, 1))
            seen.add((single, kind == "raise"))
            if "pinv" not in ev:
                c.fail("optimize", "no pseudo inverse")
                continue
            _, B, P, nm = ev["pinv"]
            c.eq("rows of the matrix", Seq(flat.flat_of(I, B) or ()), Seq(nested(lambda a, b: I.new_arr((N,), lambda i: T.fn("coef", (a, b, i[0])), "R"))))
            # the requested values: the one-dimensional flat array of the heap
            bs = [r for r in I.heap.values() if getattr(r, "flat", None) is not None and len(r.shape) == 1]
            c.true("requested values", len(bs) == 1)
            if len(bs) != 1:
                continue
            c.eq("requested values in order", Seq(bs[0].flat), Seq(nested(lambda a, b: T.fn("val", (a, b)))))
            bf = lambda x: bs[0].fn((x,))
            Bf, Pf = I.freeze_arr(B), lambda x, y: T.fn(nm, (x, y))
            g_ = lambda x: T.summ(j, 0, KT, T.mul(Pf(x, j), bf(j)))
            g2 = T.summ(k, 0, N, T.mul(g_(k), g_(k)))
            names = set()
            T.map_fn(op.obj.f(T.num(0)), lambda nn, a, so: names.add(nn) if nn.startswith("var#") else None)
            c.true("one vector of variables", len(names) == 1)
            if len(names) != 1:
                continue
            v = names.pop()
            V = lambda x: T.fn(v, (x,))
            c.eq("objective handed over: minimise -g p", op.obj.f(T.num(0)), T.neg(T.summ(e, 0, N, T.mul(g_(e), V(e)))))
            c.true("objective is affine", op.obj.curv == "aff")
            given = ("comp", C, lambda a: T.TRUE, lambda a: (("comp", T.fn("ncon", (a,), "I"), lambda b: T.TRUE,
                     lambda b, a=a: (("one", cvx.Token(T.fn("con", (a, b, T.toreal(T.lift(N)), V(GE))))),)),))
            parts = list(I.parts(op.ctrs))
            if single:
                c.eq("every constraint", Seq(tuple(parts)), Seq((given,)))
            else:
                # the rows of B g_perp but one, whose left null vector component is largest
                u = lambda x: T.summ(w, 0, N, T.mul(Pf(w, x), g_(w)))
                if "argmax" not in ev:
                    c.fail("optimize", "which row is dropped?")
                    continue
                _, ua, r = ev["argmax"]
                c.eq("dropped row: largest component of the left null vector", ua, I.new_arr((KT,), lambda i: T.absv(u(i[0])), "R"))
                row = lambda x: T.ite(T.lt(x, r), x, T.add(x, 1))
                B1 = lambda x, y: T.sub(Bf((x, y)), T.div(T.mul(bf(x), g_(y)), g2))
                eqc = cvx.Con("=", cvx.Expr(T.sub(KT, 1), lambda i: T.summ(e, 0, N, T.mul(B1(row(i), e), V(e)))))
                c.eq("every constraint and the rows of B g_perp", Seq(tuple(parts)), Seq((given, ("one", eqc))))
            if kind != "raise":
                pp, cc = value
                so = lambda x: T.fn("sol" + v[3:], (x,))
                c.eq("voltages", pp, I.new_arr((N,), lambda i: so(i[0]), "R"))
                c.eq("strength", cc, T.div(T.summ(e, 0, N, T.mul(so(e), g_(e))), g2))
            i = T.var("ie", "I")
            for f in ("dc", "rf"):
                c.eq("system %s unchanged" % f, I.heap[fid].fields[f](i), T.fn(f, (i,)))
        c.true("all cases", seen == {(x, y) for x in (True, False) for y in (True, False)})


mk(True)
mk(False)


@ob("lemma: the solution realises the objectives", ["lemma over the contract of pinv"])
def lemma(c):
    """pinv(B) = P: P B symmetric, (P B) P = P.  p with (B1 p)_j = 0 for j != r, |u_r| maximal, g2 != 0.  Then B p = c b."""
    N, K = T.var("N", "I"), T.var("K", "I")
    i, j, e, w, k = [T.var(n, "I") for n in ("i2", "j2", "e2", "w2", "k2")]
    P, B, b, Q, p = [lambda *a, n=n: T.fn(n, a) for n in ("P", "B", "b", "Q", "p")]
    pos = [T.lt(0, N), T.lt(0, K)]
    g = lambda x: T.summ(j, 0, K, T.mul(P(x, j), b(j)))
    G = lambda x: T.fn("g", (x,))
    g2 = T.var("g2")
    E, J = T.var("E", "I"), T.var("J", "I")
    u = lambda x: T.summ(w, 0, N, T.mul(P(w, x), G(w)))
    B1 = lambda x, y: T.sub(B(x, y), T.div(T.mul(b(x), G(y)), g2))
    QB = lambda x, y: T.summ(k, 0, K, T.mul(P(x, k), B(k, y)))
    # u B1 = sum_w g_w (P B)_we - g_e/g2 sum_w g_w (P b)_w
    c.eq("u B1 by exchanging the sums", T.summ(i, 0, K, T.mul(u(i), B1(i, E))),
         T.sub(T.summ(w, 0, N, T.mul(G(w), QB(w, E))), T.mul(T.div(G(E), g2), T.summ(w, 0, N, T.mul(G(w), g(w))))), pos)
    # sum_w (P b)_w Q_ew = sum_j b_j (Q P)_ej, which is sum_j b_j P_ej = g_e
    c.eq("g (P B) by exchanging the sums", T.summ(w, 0, N, T.mul(g(w), Q(E, w))),
         T.summ(j, 0, K, T.mul(b(j), T.summ(w, 0, N, T.mul(Q(E, w), P(w, j))))), pos)
    c.eq("u b = g g", T.summ(i, 0, K, T.mul(u(i), b(i))), T.summ(w, 0, N, T.mul(G(w), g(w))), pos)
    c.eq("u B1 = 0", T.sub(T.var("ge"), T.mul(T.div(T.var("ge"), g2), g2)), T.num(0, "R"), pos + [T.not_(T.eq(g2, 0))])
    c.eq("sum over u of B1 p is (u B1) p", T.summ(i, 0, K, T.mul(T.fn("U", (i,)), T.summ(e, 0, N, T.mul(B1(i, e), p(e))))),
         T.summ(e, 0, N, T.mul(p(e), T.summ(i, 0, K, T.mul(T.fn("U", (i,)), B1(i, e))))), pos)
    c.eq("B1 p = B p - b c", T.summ(e, 0, N, T.mul(B1(J, e), p(e))),
         T.sub(T.summ(e, 0, N, T.mul(B(J, e), p(e))), T.mul(b(J), T.div(T.summ(e, 0, N, T.mul(p(e), G(e))), g2))), pos + [T.not_(T.eq(g2, 0))])
    r, ur, uj, x = T.var("r", "I"), T.var("ur"), T.var("uj"), T.var("x")
    c.true("a maximal component of a nonzero vector is nonzero", T.eq(uj, 0), [T.le(T.absv(uj), T.absv(ur)), T.eq(ur, 0)])
    c.true("the dropped row is fulfilled too", T.eq(x, 0), [T.eq(T.mul(ur, x), 0), T.not_(T.eq(ur, 0))])
