"""C38: System.trajectory: equation of motion, steps and reported states."""
from checks.systems import *
from pyvc.values import Gen, ReturnSig

INFO = {"build": True}
Q = "electrode.system:System.trajectory"
F = ["electrode.system.System.trajectory", "electrode.system.System.time_potential"]
NOTE = ("the integrator by contract: it may evaluate the given right hand side anywhere and changes speed and position in place; "
        "System.electrical_potential by its contract (C04); the loop of trajectory by induction over its iterations")


def electrical(I, f, args, kw):
    b = I.bind_args(f, args, kw)
    d, x = I.py(b["derivative"]), I.as_arr(b["x"], "R")
    if d != 1 or b["typ"] not in ("dc", "rf"):
        raise Unsupported("electrical_potential(%r, %r)" % (d, b["typ"]))
    if x.ndim == 1:
        f0 = I.freeze_arr(x)
        x = I.new_arr((1, 3), lambda i: f0((i[1],)), "R")
    xf, typ = I.freeze_arr(x), b["typ"]
    return I.as_arr(I.newlist([I.newlist([D(typ, [xf((T.num(j), T.num(k))) for k in range(3)], [a]) for a in range(3)]) for j in range(x.shape[0])]), "R")


def mk(axis, kind, named):
    @ob("axis %r, %s, %s" % (axis, kind, "integrator by name" if named else "integrator given"), F)
    def g(c):
        n = len(axis)
        t0, dt, t1 = T.var("t0"), T.var("dt"), T.var("t1")
        I = c.interp()
        pyx.install(I)
        calls, yields = [], []
        cnt = [0]

        def vec(nm):
            return [T.fn(nm, (T.num(k),)) for k in range(n)]

        def arr(l, dt="R"):
            return I.as_arr(I.newlist(list(l)), dt)

        def integ(ddx, nst, t, p, q, te, *rest, **kw):
            if named:
                c.true("order of the method", len(rest) == 2 and I.py(rest[0]) == 2)
                rest = rest[1:]
            c.true("arguments passed on", len(rest) == 1 and rest[0] is T.var("extra") and list(kw) == ["kextra"] and kw["kextra"] is T.var("kextra"))
            p, q = I.as_arr(p), I.as_arr(q)
            if not calls:
                c.true("state in floating point", p.dtype == "R" and q.dtype == "R")
            j = len(calls)
            calls.append((I.scalar(nst) if not isinstance(nst, int) else nst, I.scalar(t), I.scalar(te), p, q,
                          [I.elem(p, (T.num(k),)) for k in range(n)], [I.elem(q, (T.num(k),)) for k in range(n)]))
            # the right hand side at two arbitrary places, in any state of the buffers
            for s in ("a", "b"):
                y = arr(vec("y" + s))
                out = arr(vec("old"))
                I.call(ddx, [T.var("s" + s), y, out])
                pt = list(x0t)
                for k, a in enumerate(axis):
                    pt[a] = vec("y" + s)[k]
                want = [T.neg(T.add(D("dc", pt, [a]), T.mul(T.unary("cos", T.var("s" + s)), D("rf", pt, [a])))) for a in axis]
                c.eq("force is minus the gradient of the potential at that time", out, arr(want))
                c.eq("position argument unchanged", y, arr(vec("y" + s)))
            I.arr_assign(p, arr(vec("P%d" % (j + 1))))
            I.arr_assign(q, arr(vec("Q%d" % (j + 1))))
        if named:
            I.extmods["qc.theory.gni"] = Module("qc.theory.gni", dict(gni=Module("gni", dict(gni_irk2=Builtin("gni_irk2", integ)))))
        m = I.load(SYS)
        s = I.call(I.modget(m, "System"), [])
        I.contracts["electrode.system:System.electrical_potential"] = electrical
        so = "I" if kind == "integers" else "R"
        x0v = [T.fn("x0", (T.num(k),), so) for k in range(3)]
        v0v = [T.fn("v0", (T.num(k),), so) for k in range(3)]
        x0t, v0t = [T.toreal(v) for v in x0v], [T.toreal(v) for v in v0v]
        x0, v0 = (tuple(x0v), tuple(v0v)) if kind == "tuples" else (arr(x0v, so), arr(v0v, so))
        kw = dict(dt=dt, t0=t0, t1=t1, kextra=T.var("kextra"))
        kw["nsteps"] = T.var("nsteps", "I")
        if not named:
            kw["integ"] = Builtin("integ", integ)
        state = {}

        def once(I, s, fr, t):
            """one iteration at time t; there is one exactly when t < t1"""
            n0 = len(calls)
            go, ret = I.decide(I.cond(I.ev(s.test, fr))), None
            if go:
                try:
                    I.exec_block(s.body, fr)
                except ContinueSig:
                    pass
                except BreakSig:
                    go = False
                except ReturnSig as e:
                    go, ret = False, e
            c.true("runs until the final time", T.lt(t, t1) if go else T.not_(T.lt(t, t1)))
            if not go:
                c.true("nothing happens after the final time", len(calls) == n0 and len(yields) == n0)
                if ret is not None:
                    raise ret
                return False
            c.true("one call of the integrator per step", len(calls) == n0 + 1)
            c.true("one report per step", len(yields) == n0 + 1)
            return True

        def hook(I, s, fr):
            import ast as A
            names = sorted({x.id for b in s.body for x in A.walk(b) if isinstance(x, A.Name) and isinstance(x.ctx, A.Store)})
            env = I.heap[fr.env].vars
            clock = [x for x in names if x in env and not isinstance(env[x], Arr)]
            if len(clock) != 1:
                raise Unsupported("loop state %r" % (names,))
            c.eq("starts at t0", I.scalar(env[clock[0]]), t0)
            if not once(I, s, fr, t0):
                return
            check(0, t0, v0t, x0t, True)
            c.eq("time advances", I.scalar(I.heap[fr.env].vars[clock[0]]), T.add(t0, dt))
            # any later iteration
            K = T.var("K", "I")
            I.assume(T.le(1, K))
            tk = T.add(t0, T.mul(T.toreal(K), dt))
            I.heap[fr.env].vars[clock[0]] = tk
            p, q = calls[0][3], calls[0][4]
            I.arr_assign(p, arr(vec("PK")))
            I.arr_assign(q, arr(vec("QK")))
            if not once(I, s, fr, tk):
                return
            check(1, tk, vec("PK"), vec("QK"), False)
            c.eq("time advances again", I.scalar(I.heap[fr.env].vars[clock[0]]), T.add(tk, dt))
            t, yq, yp = yields[0]
            c.eq("reported states are not changed later", (yq, yp), (arr(vec("Q1")), arr(vec("P1"))))
            raise Infeasible()

        def check(j, t, pv, qv, first):
            nst, ta, te, p, q, pe, qe = calls[j]
            pick = (lambda v: [v[a] for a in axis]) if first else (lambda v: v)
            tag = "first step: " if first else "later step: "
            c.eq(tag + "speed handed to the integrator", arr(pe), arr(pick(pv)))
            c.eq(tag + "position handed to the integrator", arr(qe), arr(pick(qv)))
            c.eq(tag + "from", ta, t)
            c.eq(tag + "to", te, T.add(t, dt))
            c.eq(tag + "number of steps", T.lift(nst), T.var("nsteps", "I"))
            ty, yq, yp = yields[j]
            c.eq(tag + "reported time", ty, T.add(t, dt))
            c.eq(tag + "reported position", yq, arr(vec("Q%d" % (j + 1))))
            c.eq(tag + "reported speed", yp, arr(vec("P%d" % (j + 1))))
        I.while_hooks[Q] = hook

        def run():
            del calls[:], yields[:]
            if axis != (0, 1, 2):
                kw["axis"] = axis
            pos = [x0, v0, axis, t0, dt, t1, kw["nsteps"]]
            k2 = {k: v for k, v in kw.items() if k not in ("t0", "dt", "t1", "nsteps", "axis")}
            pos.append(k2.pop("integ", "gni_irk2"))
            pos.append(T.var("extra"))
            gen = I.call(I.getattr(s, "trajectory"), pos, k2)
            if not isinstance(gen, Gen):
                raise Unsupported("trajectory is not a generator")

            def report(v):
                t, q, p = I.concrete_list(v)
                yields.append((I.scalar(t), I.as_arr(q), I.as_arr(p)))
            gen.run(report)
            return len(yields)
        k = 0
        for r in c.run("run", run):
            k += 1
            if kind != "tuples":
                c.eq("arguments of the caller unchanged", (x0, v0), (arr(x0v, so), arr(v0v, so)))
        c.true("finishes", k > 0)


for axis in ((0, 1, 2), (1, 2), (2, 0), (1,)):
    mk(axis, "arrays", False)
mk((0, 1, 2), "integers", False)
mk((1, 2), "tuples", False)
mk((1, 2), "arrays", True)
