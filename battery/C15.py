from lib import *
from bsys import system


class Boom(Exception):
    pass


def v(s):
    return [(e.name, e.dc, e.rf) for e in list.__iter__(s)]


def given(rng, n):
    r = rng.rand()
    a = rng.randn(n)
    return None if r < .3 else (list(a) if r < .6 else a)


def block(s, rng, depth, d, r):
    before = v(s)
    n = len(s)
    gd, gr = given(rng, n), given(rng, n)
    boom = rng.rand() < .5
    keep = None if gd is None else list(gd), None if gr is None else list(gr)
    try:
        with s.with_voltages(gd, gr):
            want = [(nm, float(gd[i]) if gd is not None else a, float(gr[i]) if gr is not None else b) for i, (nm, a, b) in enumerate(before)]
            same(v(s), want, "inside")
            if depth:
                block(s, rng, depth - 1, d, r)
                same(v(s), want, "after the inner block")
            if gd is not None and n:
                s[int(rng.randint(n))].dc = rng.randn()
            if gr is not None and n:
                s[int(rng.randint(n))].rf = rng.randn()
            if boom:
                raise Boom(depth)
            else:
                ended = True
    except Boom as e:
        assert boom and e.args == (depth,), "exception of another block"
    else:
        assert not boom, "exception swallowed"
    same(v(s), before, "after")
    same((None if gd is None else list(gd), None if gr is None else list(gr)), keep, "given arrays")


@case("with_voltages", 60)
def f(rng):
    block(system(rng), rng, int(rng.randint(3)), 0, 0)


@case("bad rfs", 6)
def f(rng):
    s = system(rng, 3)
    before = v(s)
    try:
        with s.with_voltages([1., 2, 3], 5):
            pass
    except TypeError:
        pass
    else:
        assert False, "scalar rfs accepted"
    same(v(s), before)


@case("entry fails", 24)
def e(rng):
    s = system(rng, 3)
    before = v(s)

    def fails(k):
        for i in range(k):
            yield float(i)
        raise Boom(k)
    good = [None, [1., 2, 3], np.arange(3.)][rng.randint(3)]
    bad = [5, fails(0), fails(1), fails(2)][rng.randint(4)]
    a = (bad, good) if rng.rand() < .5 else (good, bad)
    try:
        with s.with_voltages(*a):
            assert False, "block entered"
    except (TypeError, Boom):
        pass
    same(v(s), before, "after a failed entry")


@case("generator exit and return", 6)
def f(rng):
    s = system(rng, 3)
    before = v(s)

    def g():
        with s.with_voltages([1., 2, 3], [4., 5, 6]):
            yield 1
            yield 2

    def h():
        with s.with_voltages([1., 2, 3], rfs=[4., 5, 6]):
            return 5
    same(h(), 5)
    same(v(s), before)
    it = g()
    next(it)
    it.close()
    same(v(s), before)


main()
