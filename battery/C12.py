from lib import *
from electrode import expressions as P
from electrode import cexpressions as C
from electrode import PolygonPixelElectrode, MeshPixelElectrode, System
from bsys import poly


@case("from polygon system", 20)
def f(rng):
    s = System([PolygonPixelElectrode(paths=[poly(rng, rng.randint(1, 7)) for i in range(rng.randint(0, 4))], dc=rng.randn(), rf=rng.randn(), name="e%d" % k)
                for k in range(rng.randint(1, 5))])
    if not sum(len(e.paths) for e in s):
        return
    m = MeshPixelElectrode.from_polygon_system(s)
    same(m.dc, 1)
    x = rng.randn(4, 3)
    x[:, 2] = np.abs(x[:, 2]) + .5
    V = rng.randn()
    for o in range(6):
        want = sum(np.asarray(C.polygon_potential(x, e.paths, e.dc, o, 0, 50., None)) for e in s)
        close(m.potential(x, o), want, 1e-8, "order %d" % o, 1e-3)
        close(m.potential(x, o, V), V * want, 1e-8, "order %d" % o, 1e-3)
        close(System([m]).electrical_potential(x, o, "dc"), want, 1e-8, "system order %d" % o, 1e-3)


@case("general mesh", 20)
def g(rng):
    n, m, q = rng.randint(2, 6), rng.randint(0, 8), rng.randint(1, 4)
    p = rng.randn(n, 2)
    ed = np.array([rng.choice(n, 2, replace=False) for i in range(m)], dtype=np.intc).reshape(m, 2)
    po, pot = rng.randint(0, q, m).astype(np.intc), rng.randn(q)
    x = rng.randn(3, 3)
    x[:, 2] = np.abs(x[:, 2]) + .5
    K, h, V = int(rng.randint(0, 3)), rng.uniform(10, 30), rng.randn()
    e = MeshPixelElectrode(points=p, edges=ed, polygons=po, potentials=pot, cover_nmax=K, cover_height=h)
    for o in range(6):
        want = np.zeros((3, 2 * o + 1))
        for (a, b), c in zip(ed, po):
            for j in range(3):
                for k in range(-K, K + 1):
                    z = x[j, 2] + 2 * k * h
                    d1, d2 = x[j, :2] - p[a], x[j, :2] - p[b]
                    P.edge_potential_expr(d1[0], d2[0], d1[1], d2[1], np.sqrt((d1**2).sum() + z**2), np.sqrt((d2**2).sum() + z**2),
                                          ((d1 - d2)**2).sum(), z, pot[c] * V, o, want[j])
        close(e.potential(x, o, V), want, 1e-8, "order %d" % o, 1e-3)
        if m:
            close(P.mesh_potential(x, p, ed, po, pot * V, o, K, h, None), want, 1e-8, "python order %d" % o, 1e-3)


@case("many electrodes", 2)
def h(rng):
    n = 300
    s = System([PolygonPixelElectrode(paths=[poly(rng, 3) + [k % 20, k // 20]], dc=rng.randn()) for k in range(n)])
    m = MeshPixelElectrode.from_polygon_system(s)
    x = rng.rand(2, 3) * [20, 15, 1] + [0, 0, .5]
    for o in (0, 1):
        close(m.potential(x, o), sum(np.asarray(C.polygon_potential(x, e.paths, e.dc, o, 0, 50., None)) for e in s), 1e-8, "order %d" % o, 1e-3)


main()
