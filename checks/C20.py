"""C20: System.solve."""
from checks.systems import *
from pyvc import cvx

INFO = {"build": True}
F = ["electrode.system.System.solve", "electrode.system.System._run_cvxopt", "electrode.pattern_constraints.Constraint.objective",
     "electrode.pattern_constraints.Constraint.constraints"]
G0, G1 = T.var("gel", "I"), T.var("gset", "I")


def local(I):
    """family of constraints known by contract: objective(system, v) yields nob(c) pairs (coefficient, weight), constraints(system, v)
    yields ncon(c) constraints; all are functions of the constraint and of the vector v (its length and generic element)"""
    def sig(v):
        if not isinstance(v, cvx.Expr):
            raise PyExc(I.builtins["TypeError"], ("not a variable",))
        return (T.toreal(T.lift(v.n)), v.f(G0))

    def objective(I, self, system, variables):
        s = sig(variables)
        n = T.fn("nob", (self.idx,), "I")
        I.assume(T.le(0, n))
        return Seq((("comp", n, lambda q: T.TRUE, lambda q: (("one", (T.fn("coef", (self.idx, q) + s), T.fn("wt", (self.idx, q)))),)),))

    def constraints(I, self, system, variables):
        s = sig(variables)
        n = T.fn("ncon", (self.idx,), "I")
        I.assume(T.le(0, n))
        return Seq((("comp", n, lambda q: T.TRUE, lambda q: (("one", cvx.Token(T.fn("con", (self.idx, q) + s))),)),))
    return I.alloc(FamRec("local", None, {}, dict(objective=objective, constraints=constraints)))


def glob(I):
    def sig(vs):
        e = I.getitem(vs, G1)
        return (T.toreal(T.lift(I.length(vs))), T.toreal(T.lift(e.n)), e.f(G0))

    def objective(I, self, system, variables):
        s = sig(variables)
        n = T.fn("gnob", (self.idx,), "I")
        I.assume(T.le(0, n))
        return Seq((("comp", n, lambda q: T.TRUE, lambda q: (("one", (T.fn("gcoef", (self.idx, q) + s), T.fn("gwt", (self.idx, q)))),)),))

    def constraints(I, self, system, variables):
        s = sig(variables)
        n = T.fn("gncon", (self.idx,), "I")
        I.assume(T.le(0, n))
        return Seq((("comp", n, lambda q: T.TRUE, lambda q: (("one", cvx.Token(T.fn("gcon", (self.idx, q) + s))),)),))
    return I.alloc(FamRec("global", None, {}, dict(objective=objective, constraints=constraints)))


def comp(I, n, f):
    return I.alloc(ListRec((("comp", n, lambda i: T.TRUE, lambda i: (("one", f(i)),)),)), List)


def world(c):
    I, m = load(c)
    s, N, fid = system(c, I, m)
    I.assume(T.lt(0, N))
    return I, s, N, fid


def varname(t):
    out = set()

    def f(name, args, sort):
        if name.startswith("var#"):
            out.add(name)
        return None
    T.map_fn(T.lift(t), f)
    return out


def mk(nl, ng, verbose):
    tag = "%s local sets, %s global, verbose=%s" % ("any number of" if nl is None else nl, "any number of" if ng is None else ng, verbose)

    @ob("solve: " + tag, F, timeout=280)
    def g(c):
        I, s, N, fid = world(c)
        lf, gf = local(I), glob(I)
        nc = lambda l: T.fn("nc", (T.lift(l),), "I")
        L = T.var("L", "I") if nl is None else nl
        G = T.var("G", "I") if ng is None else ng
        for x in (L, G):
            I.assume(T.le(0, x))
        if nl is None:
            I.assume(T.lt(G1, L))
        I.assume(T.le(0, G1))
        q = T.var("qa", "I")
        I.assume(T.forall(q, 0, L, T.le(0, nc(q))))
        cid = lambda l, k: T.fn("cid", (T.lift(l), T.lift(k)), "I")

        def cset(l):
            I.assume(T.le(0, nc(l)))
            return comp(I, nc(l), lambda k: SymObj(lf, cid(l, k)))
        loc = comp(I, L, cset) if nl is None else I.newlist([cset(l) for l in range(nl)])
        glo = comp(I, G, lambda k: SymObj(gf, T.lift(k)))
        n = 0
        for p in c.paths(lambda: I.call(I.getattr(s, "solve"), [loc, glo, verbose])):
            op = cvx.last_op(I)
            if op is None:
                c.fail(tag, "no problem was built: %s" % (p.value,))
                continue
            optimal = T.eq(T.var("status", "S"), T.lift("optimal"))
            if p.kind == "raise":
                c.true("raises only when the solver fails", p.value.cls is I.builtins["ValueError"])
                c.true("raises only when the solver fails (status)", T.not_(optimal))
            else:
                n += 1
                c.true("returns only an optimal solution", optimal)
            obj = T.toreal(T.lift(op.obj)) if not isinstance(op.obj, cvx.Expr) else op.obj.f(T.num(0))
            # which variable stands for local set l: found in the problem, position l at generic element
            if nl is None:
                # the symbol of the variables, indexed by the position of the set
                names = varname(obj)
                c.true("one family of variables", len(names) == 1)
                if len(names) != 1:
                    continue
                nm = names.pop()
                X = lambda l: (T.toreal(T.lift(N)), T.fn(nm, (T.lift(l), G0)))
                sol = lambda l, e: T.fn("sol" + nm[3:], (l, e))
            else:
                nms = sorted((x for x in varname(obj)), key=lambda x: int(x[4:]))
                if p.kind == "ok" or True:
                    c.true("a variable per set", len(nms) == nl)
                if len(nms) != nl:
                    continue
                X = lambda l, nms=nms: (T.toreal(T.lift(N)), T.fn(nms[int(l)], (G0,)))
                sol = lambda l, e: None
            k, l, w, gk = T.var("k1", "I"), T.var("l1", "I"), T.var("q1", "I"), T.var("g1", "I")

            def lsum(l):
                idx = cid(l, k)
                return T.summ(k, 0, nc(l), T.summ(w, 0, T.fn("nob", (idx,), "I"), T.mul(T.fn("coef", (idx, w) + X(l)), T.fn("wt", (idx, w)))))
            if nl is None:
                tot = T.summ(l, 0, L, lsum(l))
                gs = (T.toreal(T.lift(L)),) + X(G1)
            else:
                tot = T.num(0, "R")
                for q in range(nl):
                    tot = T.add(tot, lsum(q))
                gs = None
            if nl is None:
                tot = T.add(tot, T.summ(gk, 0, G, T.summ(w, 0, T.fn("gnob", (gk,), "I"), T.mul(T.fn("gcoef", (gk, w) + gs), T.fn("gwt", (gk, w))))))
                c.eq("objective is the sum over all sets", obj, tot)

                def lcons(l):
                    return tuple(("comp", nc(l), lambda k: T.TRUE, lambda k: (("comp", T.fn("ncon", (cid(l, k),), "I"), lambda q: T.TRUE,
                                 lambda q, k=k: (("one", cvx.Token(T.fn("con", (cid(l, k), q) + X(l)))),)),)) for _ in (0,))
                wc = (("comp", L, lambda l: T.TRUE, lcons),
                      ("comp", G, lambda k: T.TRUE, lambda k: (("comp", T.fn("gncon", (k,), "I"), lambda q: T.TRUE,
                                                               lambda q: (("one", cvx.Token(T.fn("gcon", (k, q) + gs))),)),)))
                c.eq("every constraint", op.ctrs, Seq(wc))
                if p.kind != "raise":
                    u, cc = p.value
                    c.eq("voltages", u, I.new_arr((L, N), lambda i: sol(i[0], i[1]), "R"))
                    c.eq("objective value", cc, cvx.sol(obj))
            i = T.var("ie", "I")
            for f in ("dc", "rf"):
                c.eq("system %s unchanged" % f, I.heap[fid].fields[f](i), T.fn(f, (i,)))
        c.true("a normal return", n > 0)


mk(None, None, True)
mk(None, None, False)
