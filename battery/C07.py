import itertools
from lib import *
from electrode import utils as u


@case("names and indices", 1, 1)
def f(rng):
    for n in range(6):
        names = [u.deriv_to_name(n, i) for i in range(2 * n + 1)]
        same(len(set(names)), 2 * n + 1)
        raises(KeyError, u.deriv_to_name, n, 2 * n + 1)
        for i, s in enumerate(names):
            same(u.name_to_deriv(s), (n, i))
            if n:
                (a, b), j = u.construct_derivative(n, i)
                same(a, n - 1)
                same("".join(sorted(u.deriv_to_name(a, b) + "xyz"[j])), s)
        c = rng.randn(1, 2 * n + 1)
        for t in itertools.product(range(3), repeat=n):
            s = "".join("xyz"[k] for k in t)
            same(u.name_to_idx(s), t)
            same(u.idx_to_name(t), "".join(sorted(s)))
            same(u.idx_to_nidx(t), int("0" + "".join(map(str, t)), 3))
            r = u.deriv_to_reduced_idx(s)
            v = c[0, r] if not isinstance(r, tuple) else -c[0, r[0]] - c[0, r[1]]
            close(v, np.asarray(u.expand_tensor(c))[(0,) + t], 1e-14, s)
            got = sorted(tuple(sorted(map(tuple, x))) for x in u.find_laplace(t))
            want = []
            for i in range(3):
                if t.count(i) >= 2:
                    rest = list(t)
                    rest.remove(i)
                    rest.remove(i)
                    want.append(tuple(sorted(tuple(sorted(rest + [j, j])) for j in range(3) if j != i)))
            same(got, sorted(want), t)


main()
