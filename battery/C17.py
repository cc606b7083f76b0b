from lib import *
from bsys import system
from electrode import System, PolygonPixelElectrode


@case("group", 60)
def f(rng):
    s = system(rng, polygons=True)
    n = len(s)
    grid = np.round(rng.randn(8), 1)
    for e in s:
        e.dc, e.rf = float(grid[rng.randint(8)]), rng.randn()
    th = sorted(set(float(grid[rng.randint(8)]) for k in range(rng.randint(0, 4))))
    given = rng.rand() < .5
    v = np.array([float(grid[rng.randint(8)]) for k in range(n)]) if given else np.array(s.dcs)
    form = (list, np.array, tuple)[rng.randint(3)]
    before = [(e.dc, e.rf, e.name) for e in s]
    vv = (v if rng.rand() < .5 else list(v)) if given else None
    if rng.rand() < .2:
        th = [0.]
        g = s.group(voltages=vv)
    else:
        g = s.group(form(th), vv) if given or rng.rand() < .5 else s.group(form(th))
    assert isinstance(g, System)
    same(len(g), len(th) + 1)
    b = [-np.inf] + list(th) + [np.inf]
    seen = []
    for i, e in enumerate(list.__iter__(g)):
        m = [j for j in range(n) if b[i] <= v[j] < b[i + 1]]
        seen += m
        paths = [p for j in m for p in s[j].paths]
        same(len(e.paths), len(paths), "paths of group %d" % i)
        for p, q in zip(e.paths, paths):
            close(p, q, 0, "path")
        if m:
            close(e.dc, np.mean([s[j].dc for j in m]), 1e-12, "dc", 1)
            close(e.rf, np.mean([s[j].rf for j in m]), 1e-12, "rf", 1)
    same(sorted(seen), list(range(n)))
    same([(e.dc, e.rf, e.name) for e in s], before)


@case("thresholds None", 10)
def f(rng):
    s = system(rng, 4, polygons=True)
    v = np.round(rng.randn(4))
    g = s.group(None, v)
    t = sorted(set(v))
    same([len(e.paths) for e in g], [0] + [sum(len(s[j].paths) for j in range(4) if v[j] == x) for x in t])


main()
