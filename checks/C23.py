"""C23: rational-function optimisation: loop invariant of saddle.rfo."""
from pyvc.harness import *
from pyvc.nf import NF, TooBig
from pyvc import npmodel

INFO = {"build": True}
MOD = "electrode.saddle"
Q = MOD + ":rfo"


class World(object):
    """F, G: the function and its gradient, known by the points at which they were evaluated"""
    def __init__(self, c, n, kind):
        self.c, self.n, self.kind = c, n, kind
        self.I = I = c.interp()
        self.points = []
        self.vec = lambda a: self.flat(a)

    def flat(self, a):
        """generic element of a vector given as (n,), (n,1) or (1,n) array"""
        I = self.I
        a = I.as_arr(a)
        f = I.freeze_arr(a)
        nd = a.ndim
        if nd == 1:
            return a.shape[0], lambda k: f((k,))
        if nd == 2 and isinstance(a.shape[1], int) and a.shape[1] == 1:
            return a.shape[0], lambda k: f((k, T.num(0)))
        if nd == 2 and isinstance(a.shape[0], int) and a.shape[0] == 1:
            return a.shape[1], lambda k: f((T.num(0), k))
        raise Unsupported("a vector of shape %r" % (a.shape,))

    def same(self, a, b):
        I = self.I
        k = T.var("gen", "I")
        pc = list(I.pc) + [T.le(0, k), T.lt(k, T.lift(self.n))]
        try:
            n = NF(limit=60000, entails=lambda c: S.entails(pc, c))
            return bool(n.is_zero(n.poly(T.sub(a(k), b(k)))))
        except (TooBig, ZeroDivisionError, RecursionError):
            return False

    def point(self, a):
        """number of the point a"""
        n, f = self.flat(a)
        if not self.I.same_dim(n, self.n):
            raise Unsupported("point of another dimension")
        for j, g in enumerate(self.points):
            if self.same(f, g):
                return j
        self.points.append(f)
        return len(self.points) - 1

    def fun(self, a, *args):
        if self.I.as_arr(a).ndim != 1:
            raise PyExc(self.I.builtins["TypeError"], ("the function takes a vector",))
        return T.var("F%d" % self.point(a), "R" if self.kind != "int" or self.point(a) else "I")

    def grad(self, a, *args):
        if self.I.as_arr(a).ndim != 1:
            raise PyExc(self.I.builtins["TypeError"], ("the gradient takes a vector",))
        j = self.point(a)
        return self.I.new_arr((self.n,), lambda i: T.fn("G%d" % j, i, "I" if self.kind == "int" and j == 0 else "R"), "I" if self.kind == "int" and j == 0 else "R")


def opaque_products(W):
    """matrix products with the matrix of eigenvectors are generalised to arbitrary results: nothing but their shape is used"""
    orig = npmodel.np_dot

    def mentions(I, a):
        if a.ndim == 0:
            return False
        e = I.elem(a, tuple(T.var("gen%d" % k, "I") for k in range(a.ndim)))
        st, seen = [e], set()
        while st:
            x = st.pop()
            if x in seen or not isinstance(x, Term):
                continue
            seen.add(x)
            if x.op == "fn" and str(x.args[0]).startswith("eigh"):
                return True
            st.extend(T.children(x))
        return False

    def np_dot(I, a, b):
        r = orig(I, a, b)
        if isinstance(r, Arr) and r.ndim and (mentions(I, I.as_arr(a)) and I.as_arr(a).ndim == 2 or mentions(I, I.as_arr(b)) and I.as_arr(b).ndim == 2):
            nm = T.fresh("eigh.product", "R").args[0].replace("eigh.", "along_modes.")
            return I.new_arr(r.shape, lambda i: T.fn(nm, i, "R"), "R", r.mat)
        return r
    npmodel.np_dot = np_dot
    W.undo = lambda: setattr(npmodel, "np_dot", orig)


def mk(kind, hess, cbk):
    @ob("rfo step: %s start, Hessian %s%s" % (kind, hess, "" if cbk else ", no callback"), [MOD + ".rfo"], timeout=600)
    def g(c):
        n = T.var("n", "I")
        W = World(c, n, kind)
        I = W.I
        I.assume(T.le(1, n))
        opaque_products(W)
        m = I.load(MOD)
        so = "I" if kind == "int" else "R"
        x0 = I.new_arr((n,), lambda i: T.fn("x0", i, so), so)
        H0 = I.new_arr((n, n), lambda i: T.add(T.fn("H0", i, so), T.fn("H0", (i[1], i[0]), so)), so)
        xtol, ftol, D = [T.var(v, "R") for v in ("xtol", "ftol", "dx_max")]
        maxiter = T.var("maxiter", "I")
        I.assume(T.lt(0, D))
        idx = [T.var("gi", "I"), T.var("gj", "I")]
        calls = []

        def sq(I, a):
            k = T.var("bk", "I")
            return T.sum_(k, T.num(0), n, T.mul(a(k), a(k))) if hasattr(T, "sum_") else None

        def state(fr, roles):
            v = I.heap[fr.env].vars
            return {r: v[nm] for r, nm in roles.items()}

        def find_roles(fr, names):
            v = I.heap[fr.env].vars
            roles = {}
            for nm in names:
                if nm not in v:
                    continue
                a = v[nm]
                r = None
                if isinstance(a, Arr) and a.ndim == 2 and I.same_dim(a.shape[0], n) and I.same_dim(a.shape[1], n):
                    r = "h"
                elif isinstance(a, Arr) and a.ndim in (1, 2):
                    _, f = W.flat(a)
                    r = "x" if W.same(f, lambda k: T.toreal(T.fn("x0", (k,), so))) or W.same(f, lambda k: T.fn("x0", (k,), so)) else "g"
                elif isinstance(a, Term) and a.op == "var" and str(a.args[0]).startswith("F"):
                    r = "f"
                elif a is None or isinstance(a, str):
                    r = "ret"
                elif isinstance(a, int) and not isinstance(a, bool):
                    r = "it"
                if r is None or r in roles:
                    raise Unsupported("loop variable %s of rfo has no role in the invariant" % nm)
                roles[r] = nm
            if not {"x", "f", "g", "h", "ret"} <= set(roles):
                raise Unsupported("loop of rfo: no variables for %s" % sorted({"x", "f", "g", "h", "ret"} - set(roles)))
            return roles

        def invariant(label, st):
            """f and g are the function and the gradient at x, h is symmetric"""
            j = W.point(npmodel.reshape(I, I.as_arr(st["x"]), (-1,)))
            f = I.scalar(st["f"])
            c.eq(label + ".f is the function at x", f, T.var("F%d" % j, "R" if kind != "int" or j else "I"))
            _, gf = W.flat(st["g"])
            c.eq(label + ".g is the gradient at x", gf(idx[0]), T.fn("G%d" % j, (idx[0],), "I" if kind == "int" and j == 0 else "R"), pc=rng(idx[:1]))
            hf = I.freeze_arr(I.as_arr(st["h"]))
            c.eq(label + ".h is symmetric", hf((idx[0], idx[1])), hf((idx[1], idx[0])), pc=rng(idx))
            return j

        def rng(ks):
            return [q for k in ks for q in (T.le(0, k), T.lt(k, n))]

        def total(fn):
            return I.scalar(npmodel.np_sum(I, I.new_arr((n,), lambda i: fn(i[0]), "R")))

        def norm(fn):
            return T.sqrt(total(lambda k: T.mul(fn(k), fn(k))))

        def hook(I, s, fr):
            import ast as A
            names = sorted({x.id for b in s.body for x in A.walk(b) if isinstance(x, A.Name) and isinstance(x.ctx, A.Store)})
            roles = find_roles(fr, names)
            v = I.heap[fr.env].vars
            invariant("on entry", state(fr, roles))
            c.true("on entry.no stop reason", v[roles["ret"]] is None)
            # an arbitrary state with the invariant
            X = I.new_arr((n,), lambda i: T.fn("X", i), "R")
            W.points.append(W.flat(X)[1])
            j = len(W.points) - 1
            for r, fn in (("x", lambda k: T.fn("X", (k,))), ("g", lambda k: T.fn("G%d" % j, (k,)))):
                a = v[roles[r]]
                col = a.ndim == 2 and isinstance(a.shape[1], int)
                b = I.new_arr(a.shape, (lambda fn: lambda i: fn(i[0] if a.ndim == 1 or col else i[1]))(fn), "R" if a.dtype != "I" else "I")
                b.mat = a.mat
                v[roles[r]] = b
            v[roles["f"]] = T.var("F%d" % j, "R")
            a = v[roles["h"]]
            hs = lambda i, k: T.add(T.fn("H", (i, k)), T.fn("H", (k, i)))
            b = I.new_arr((n, n), lambda i: hs(i[0], i[1]), a.dtype)
            b.mat = a.mat
            v[roles["h"]] = b
            K = None
            if "it" in roles:
                K = T.var("iterations", "I")
                I.assume(T.le(0, K))
                v[roles["it"]] = T.add(K, v[roles["it"]])
            stopped = I.decide(T.eq(T.var("stopped", "I"), 1))
            reason = None
            if stopped:
                reason = "xtol" if I.decide(T.eq(T.var("why", "I"), 0)) else "ftol" if I.decide(T.eq(T.var("why", "I"), 1)) else "iter"
                v[roles["ret"]] = reason
            del calls[:]
            done = False
            if not I.truth(I.ev(s.test, fr)):
                done = True
            else:
                try:
                    I.exec_block(s.body, fr)
                except ContinueSig:
                    pass
                except BreakSig:
                    done = True
            st = {r: I.heap[fr.env].vars[nm] for r, nm in roles.items()}
            for k_, (cx, cf, cg, ch) in enumerate(calls):
                c.eq("callback.point", cx(idx[0]), T.fn("X", (idx[0],)), pc=rng(idx[:1]))
                c.eq("callback.function", cf, T.var("F%d" % j, "R"))
                c.eq("callback.gradient", cg(idx[0]), T.fn("G%d" % j, (idx[0],)), pc=rng(idx[:1]))
                c.eq("callback.Hessian", ch(tuple(idx)), hs(*idx), pc=rng(idx))
            if cbk:
                c.true("callback in every iteration", len(calls) == 1)
            newx = W.flat(npmodel.reshape(I, I.as_arr(st["x"]), (-1,)))[1]
            if stopped:
                c.true("after a stop.the loop ends", done)
                c.eq("after a stop.x stays", newx(idx[0]), T.fn("X", (idx[0],)), pc=rng(idx[:1]))
                c.eq("after a stop.f stays", I.scalar(st["f"]), T.var("F%d" % j, "R"))
                c.true("after a stop.reason stays", st["ret"] == reason)
            else:
                step = lambda k: T.sub(newx(k), T.fn("X", (k,)))
                invariant("after the step", st)
                nrm = norm(step)
                c.split("step at most dx_max long", T.le(nrm, D))
                # secant condition: h' s = g' - g unless the step vanishes
                hf = I.freeze_arr(I.as_arr(st["h"]))
                gf = W.flat(st["g"])[1]
                lhs = total(lambda k: T.mul(hf((idx[0], k)), step(k)))
                rhs = T.sub(gf(idx[0]), T.fn("G%d" % j, (idx[0],)))
                moved = [T.lt(0, total(lambda k: square(step(k))))]
                if P.eq_term(lhs, rhs, I.pc + rng(idx[:1]) + moved, c.seed).status == "proved":
                    c.eq("secant condition", lhs, rhs, pc=rng(idx[:1]) + moved)
                else:
                    # all elements of a vector vanish if the sum of their squares does
                    res = T.sub(lhs, rhs)
                    c.split("secant condition", T.le(total(lambda k: square(T.subst(res, {idx[0]: k}))), T.num(0)), pc=moved)
                r = st["ret"]
                df = T.absv(T.sub(I.scalar(st["f"]), T.var("F%d" % j, "R")))
                if r == "xtol":
                    c.split("xtol only when met", T.le(T.mul(2, nrm), T.mul(xtol, T.add(norm(newx), norm(lambda k: T.fn("X", (k,))), TINY))))
                elif r == "ftol":
                    c.true("ftol only when met", T.le(T.mul(2, df), T.mul(ftol, T.add(T.absv(I.scalar(st["f"])), T.absv(T.var("F%d" % j, "R")), TINY))))
                elif r == "iter":
                    c.true("iter only when exceeded", T.and_(T.lt(0, maxiter), T.le(maxiter, T.add(K, 1))))
                else:
                    c.true("no other reason", r is None)
                if K is not None:
                    c.eq("iterations counted", I.scalar(st["it"]) if not isinstance(st["it"], int) else T.num(st["it"]), T.add(K, 1, entry_it[0]) if entry_it else T.add(K, 1))
                if done:
                    c.true("ends with a reason", r is not None)
            if not done:
                raise Infeasible()
        entry_it = []
        TINY = T.num(Fraction(1, 10 ** 20), "R")
        I.while_hooks[Q] = hook

        def cb(x, f, g, h):
            calls.append((W.flat(x)[1], I.scalar(f), W.flat(g)[1], I.freeze_arr(I.as_arr(h))))
        kw = dict(xtol=xtol, ftol=ftol, maxiter=maxiter, dx_max=D)
        if hess == "given":
            kw["h"] = H0
        if cbk:
            kw["cb"] = Builtin("cb", cb)
        before = I.copy_arr(x0), I.copy_arr(H0)
        done = 0
        try:
            for r in c.run("run", lambda: (W.points.__delitem__(slice(None)), I.call(I.modget(m, "rfo"), [Builtin("fun", W.fun), Builtin("grad", W.grad), x0], kw))[1]):
                x, f, why = I.concrete_list(r)
                xf = W.flat(x)[1]
                c.eq("returned point", xf(idx[0]), T.fn("X", (idx[0],)), pc=rng(idx[:1]))
                c.true("returned shape", I.as_arr(x).ndim == 1)
                c.true("returned value", isinstance(f, Term) and str(f.args[0]).startswith("F"))
                c.true("returned reason", why in ("xtol", "ftol", "iter"))
                c.eq("start unchanged", x0, before[0])
                c.eq("Hessian argument unchanged", H0, before[1])
                done += 1
            c.true("all reasons", done >= 3)
        finally:
            W.undo()


def square(a):
    return T.mul(a, a)


for kind in ("float", "int"):
    for hess in ("default", "given"):
        mk(kind, hess, True)
mk("float", "default", False)
