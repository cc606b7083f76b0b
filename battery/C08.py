from lib import *
from electrode import utils as u


def oracle(c, r, order):
    n = c.ndim
    for k in range(n - order, n):
        c = np.moveaxis(np.tensordot(c, r, axes=([k], [0])), -1, k)
    return c


@case("rotate_tensor", 30)
def f(rng):
    for order in range(6):
        lead = [(), (2,), (2, 4), (3, 3), (1,)][rng.randint(5)]
        c = np.asarray(rng.randn(*(lead + (3,) * order)))
        r = rng.randn(3, 3)
        c0 = c.copy()
        close(u.rotate_tensor(c, r, order), oracle(c, r, order), 1e-11, "explicit")
        close(c, c0, 1e-15, "input")
        if len(lead) == 1:
            close(u.rotate_tensor(c, r), oracle(c, r, c.ndim - 1), 1e-11, "default")
        q = np.linalg.qr(r)[0]
        close(u.rotate_tensor(u.rotate_tensor(c, q, order), q.T, order), c, 1e-11, "inverse")


main()
