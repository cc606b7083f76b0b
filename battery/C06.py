import itertools
from lib import *
from electrode import utils as u


def harmonic(rng, order, lead):
    """symmetric traceless tensors built as derivative tensors of Re (a.x)^n with null vectors a"""
    out = np.zeros(lead + (3,) * order)
    for idx in np.ndindex(*lead):
        for _ in range(2 * order + 3):
            q, _r = np.linalg.qr(rng.randn(3, 3))
            a = q[:, 0] + 1j * q[:, 1]
            t = np.array(rng.randn() + 1j * rng.randn())
            for _k in range(order):
                t = np.multiply.outer(t, a)
            out[idx] += t.real
    return out


@case("expand/select round trips", 24)
def f(rng):
    for order in range(6):
        lead = [(), (3,), (2, 4), (0,), (1, 2, 3)][rng.randint(5)]
        c = rng.randn(*(lead + (2 * order + 1,)))
        c0 = c.copy()
        t = u.expand_tensor(c)
        same(t.shape, lead + (3,) * order, "shape")
        close(c, c0, 1e-15, "input")
        if order > 1:
            for p in itertools.permutations(range(order)):
                close(t.transpose(tuple(range(len(lead))) + tuple(len(lead) + i for i in p)), t, 1e-13, "symmetric")
            close(np.trace(t, axis1=-2, axis2=-1), np.zeros(lead + (3,) * (order - 2)), 1, "tr") if 0 in lead else None
            if 0 not in lead:
                assert np.abs(np.trace(t, axis1=-2, axis2=-1)).max() < 1e-12, "trace"
        for i in range(2 * order + 1):
            ix = u.name_to_idx(u.deriv_to_name(order, i))
            close(t[(Ellipsis,) + tuple(ix)], c[..., i], 1e-14, "entry")
        if 0 not in lead:
            close(u.select_tensor(t, order), c, 1e-14, "select(expand)")
            h = harmonic(rng, order, lead)
            close(u.expand_tensor(u.select_tensor(h, order)), h, 1e-11, "expand(select)")


@case("results of earlier calls stay", 24)
def g(rng):
    for order in range(6):
        lead = [(), (3,), (2, 4), (1, 2, 3)][rng.randint(4)]
        a, b = rng.randn(*((2,) + lead + (2 * order + 1,)))
        for A, B, F in ((a, b, u.expand_tensor), (u.expand_tensor(a).copy(), u.expand_tensor(b).copy(), lambda t: u.select_tensor(t, order))):
            r = F(A)
            r0 = r.copy()
            q = F(B)
            close(r, r0, 0, "first result")
            close(F(A), r0, 0, "again")
            close(q, F(B), 0, "second result")


main()
