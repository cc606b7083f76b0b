from lib import *
from bsys import system


@case("read and assign", 40)
def f(rng):
    s = system(rng)
    n = len(s)
    cur = dict(names=["n%d" % rng.randint(4) for i in range(n)], dcs=list(rng.randn(n)), rfs=list(rng.randn(n)))
    for k, val in cur.items():
        setattr(s, k, val)
    for step in range(6):
        k = ("names", "dcs", "rfs")[rng.randint(3)]
        m = max(0, n + rng.randint(-1, 2))
        val = ["m%d" % rng.randint(4) for i in range(m)] if k == "names" else list(rng.randn(m))
        setattr(s, k, (tuple, list)[rng.randint(2)](val) if k == "names" or rng.rand() < .5 else np.array(val))
        cur[k] = [val[i] if i < m else cur[k][i] for i in range(n)]
        for q in cur:
            same(list(getattr(s, q)), cur[q], q)
    same([e.name for e in list.__iter__(s)], cur["names"])
    same([e.dc for e in list.__iter__(s)], cur["dcs"])
    same([e.rf for e in list.__iter__(s)], cur["rfs"])
    assert isinstance(s.names, list)


@case("lookup", 40)
def f(rng):
    s = system(rng)
    n = len(s)
    es = list(list.__iter__(s))
    for e in es:
        e.name = "n%d" % rng.randint(4)
    for get in (s.__getitem__, s.electrode):
        for i in range(-n - 2, n + 2):
            if -n <= i < n:
                assert get(i) is es[i], "index %d" % i
            else:
                raises(IndexError, get, i)
        for k in ("n0", "n1", "n2", "n3", "zz", ""):
            want = [e for e in es if e.name == k]
            r = get(k)
            assert (r is want[0]) if want else (r is None), "name %s" % k


@case("lookup after changes", 40)
def f(rng):
    s = system(rng, rng.randint(1, 5))
    for e in list.__iter__(s):
        e.name = "n%d" % rng.randint(4)
    for step in range(8):
        es = list(list.__iter__(s))
        for k in ("n0", "n1", "n2", "n3"):
            want = [e for e in es if e.name == k]
            for get in (s.__getitem__, s.electrode):
                assert (get(k) is want[0]) if want else (get(k) is None), "name %s" % k
        same(list(s.names), [e.name for e in es])
        q = rng.randint(4)
        if q == 0:
            es[rng.randint(len(es))].name = "n%d" % rng.randint(4)
        elif q == 1:
            s.names = ["n%d" % rng.randint(4) for e in es]
        elif q == 2:
            s.append(list.pop(s, 0))
        else:
            s.reverse()


main()
