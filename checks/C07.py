"""C07: derivative names, indices, construction rules (finite domain, decided exhaustively by execution)."""
import itertools
from pyvc.harness import *
from checks.spec import harmonic_basis

U = "electrode.utils"
F = lambda *a: ["electrode.utils." + x for x in a]


def load(c):
    I = c.interp()
    m = I.load(U)
    return I, lambda n, *a: I.call(I.modget(m, n), list(a))


def plist(I, v):
    return [x for x in I.concrete_list(v)]


def lit(I, v):
    """interpreted value as a plain Python value"""
    if isinstance(v, Term):
        if v.op == "num":
            return int(v.args[0]) if v.args[0].denominator == 1 else v.args[0]
        if v.op == "str":
            return v.args[0]
    if isinstance(v, (tuple,)):
        return tuple(lit(I, x) for x in v)
    if isinstance(v, (List, Seq, Gen)):
        return [lit(I, x) for x in I.concrete_list(v)]
    if isinstance(v, Arr):
        return [lit(I, x) for x in I.concrete_list(v)]
    return v


def mk(n):
    @ob("names order %d" % n, F("name_to_deriv", "deriv_to_name", "name_to_idx", "idx_to_name", "idx_to_nidx", "_populate_maps"))
    def f(c):
        I, call = load(c)
        names = [lit(I, call("deriv_to_name", n, i)) for i in range(2 * n + 1)]
        c.true("2n+1 distinct names", len(set(names)) == 2 * n + 1)
        for i, s in enumerate(names):
            c.true("deriv_to_name(%d,%d) is a sorted name of order n" % (n, i), isinstance(s, str) and len(s) == n and "".join(sorted(s)) == s and not set(s) - set("xyz"))
            c.true("name_to_deriv(%r)" % s, lit(I, call("name_to_deriv", s)) == (n, i))
        for p in c.paths(lambda: call("deriv_to_name", n, 2 * n + 1)):
            c.true("exactly 2n+1 names", p.kind == "raise")
        for t in itertools.product(range(3), repeat=n):
            s = "".join("xyz"[k] for k in t)
            c.true("name_to_idx(%r)" % s, lit(I, call("name_to_idx", s)) == t)
            srt = "".join(sorted(s))
            c.true("idx_to_name(%s)" % (t,), lit(I, call("idx_to_name", t)) == srt)
            flat = 0
            for k in t:
                flat = 3 * flat + k
            c.true("idx_to_nidx(%s)" % (t,), lit(I, call("idx_to_nidx", t)) == flat)

    @ob("find_laplace order %d" % n, F("find_laplace"))
    def g(c):
        I, call = load(c)
        for t in itertools.product(range(3), repeat=n):
            r = lit(I, Seq(I.parts(call("find_laplace", t))))
            want = []
            for i in range(3):
                if t.count(i) >= 2:
                    rest = list(t)
                    rest.remove(i)
                    rest.remove(i)
                    want.append(tuple(sorted(tuple(sorted(rest + [j, j])) for j in range(3) if j != i)))
            try:
                got = sorted(tuple(sorted(tuple(sorted(q)) for q in x)) for x in r)
            except TypeError:
                got = r
            c.true("find_laplace(%s)" % (t,), got == sorted(want))

    @ob("deriv_to_reduced_idx order %d" % n, F("deriv_to_reduced_idx"))
    def h(c):
        I, call = load(c)
        names = [lit(I, call("deriv_to_name", n, i)) for i in range(2 * n + 1)]
        basis = harmonic_basis(n, names)
        if not c.true("names form a basis of the harmonic tensors", basis is not None):
            return
        for t in itertools.product(range(3), repeat=n):
            s = "".join("xyz"[k] for k in t)
            r = lit(I, call("deriv_to_reduced_idx", s))
            if isinstance(r, tuple):
                got = {}
                for k in r:
                    got[k] = got.get(k, 0) - 1
                ok = len(r) == 2 and got == basis[tuple(sorted(t))]
            else:
                ok = basis[tuple(sorted(t))] == {r: 1}
            c.true("deriv_to_reduced_idx(%r)" % s, ok)

    if n:
        @ob("construct_derivative order %d" % n, F("construct_derivative"))
        def k(c):
            I, call = load(c)
            for i in range(2 * n + 1):
                (a, b), j = lit(I, call("construct_derivative", n, i))
                s = lit(I, call("deriv_to_name", n, i))
                c.true("lower order", a == n - 1 and 0 <= b < 2 * n - 1)
                low = lit(I, call("deriv_to_name", a, b))
                c.true("construct_derivative(%d,%d)" % (n, i), j in (0, 1, 2) and "".join(sorted(low + "xyz"[j])) == s)


for _n in range(6):
    mk(_n)
