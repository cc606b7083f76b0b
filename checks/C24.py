"""C24: System.modes."""
import itertools
from checks.systems import *

INFO = {"build": True}
F = ["electrode.system.System.modes"]


def world(c):
    I, m = load(c)
    s = I.call(I.modget(m, "System"), [])
    I.contracts["electrode.system:System.potential"] = total_potential
    return I, s


def mk(flag, tag, args):
    @ob("modes: " + tag, F)
    def g(c):
        I, s = world(c)
        x = I.new_arr((3,), lambda i: T.fn("x", i), "R")

        def run():
            I.events[:] = []
            r = I.call(I.getattr(s, "modes"), [x] + list(args))
            out = []
            for n, a, w, v, nm in I.events:
                out.append((n, [[I.elem(a, (T.num(i), T.num(j))) for j in range(3)] for i in range(3)] if a.ndim == 2 and a.shape == (3, 3) else None,
                            [I.elem(w, (T.num(i),)) for i in range(3)], [[I.elem(v, (T.num(i), T.num(j))) for j in range(3)] for i in range(3)]))
            return r, out
        n = 0
        for p in c.run("modes", run):
            n += 1
            (ew, ev), events = p
            if len(events) != 1 or events[0][1] is None:
                c.fail("modes", "one eigenvalue problem of a 3x3 matrix is expected, found %d" % len(events))
                continue
            nm, a, w, v = events[0]
            xs = [T.fn("x", (T.num(k),)) for k in range(3)]
            c.eq("matrix is the Hessian of the total potential", I.as_arr(I.newlist([I.newlist(r) for r in a])),
                 I.new_arr((3, 3), lambda i: D("tot", xs, [int(q.args[0]) for q in i]), "R"))
            ew, ev = I.as_arr(ew), I.as_arr(ev)
            c.true("shapes", ew.shape == (3,) and ev.shape == (3, 3))
            W = [I.elem(ew, (T.num(i),)) for i in range(3)]
            V = [[I.elem(ev, (T.num(i), T.num(j))) for j in range(3)] for i in range(3)]
            # the pairs are the pairs of the decomposition, in one order
            best = [q for q in itertools.permutations(range(3)) if all(W[i] is w[q[i]] for i in range(3))]
            if not best:
                c.true("values are those of the decomposition", False)
                continue
            q = best[0]
            for i in range(3):
                for j in range(3):
                    c.eq("column %d belongs to value %d" % (j, j), V[i][j], v[i][q[j]])
            if flag:
                c.true("ascending", T.and_(T.le(W[0], W[1]), T.le(W[1], W[2])))
        c.true("returns", n > 0)


mk(True, "sorted by default", ())
mk(True, "sorted", (True,))
mk(False, "not sorted", (False,))
