from lib import *
from electrode import electrode, system
from electrode.adjust import Adjust


def world(rng):
    n = rng.randint(3, 6)
    s = system.System([electrode.PolygonPixelElectrode(name="e%d" % i, dc=rng.randn(), paths=[[(i, 0), (i + 1, 0), (i + 1, 1), (i, 1)]]) for i in rng.permutation(n)])
    s.minimum = lambda *a, **k: rng.randn(3)
    s.modes = lambda *a, **k: (1 + rng.rand(3), np.linalg.qr(rng.randn(3, 3))[0])
    return s, Adjust(s), [e.name for e in s]


def check(s, a, hist, what):
    assert set(a.volts) == set(hist), what
    for k in hist:
        same([float(v) for v in a.volts[k]], [float(v) for v in hist[k]], "%s: history of %s" % (what, k))
    same(len(set(map(len, a.volts.values()))), 1, what)


@case("histories", 25)
def c1(rng):
    s, a, names = world(rng)
    check(s, a, {k: [] for k in names}, "new")
    hist = {k: [rng.randn()] for k in names}
    a.set_volts({k: hist[k][0] for k in names}, save=True)
    check(s, a, hist, "first")
    a.set_move_init(xm=np.zeros(3))
    for _ in range(6):
        perm = list(rng.permutation(names))
        k1 = rng.randint(1, len(names))
        k2 = rng.randint(k1, len(names) + 1)
        g = [perm[:k1], perm[k1:k2]] + ([perm[k2:]] if rng.rand() < .5 else [])
        g = [x for x in g if x] if rng.rand() < .9 else g
        d = rng.randn(len(g))
        a.E_config = g
        what = rng.randint(5)
        dc = {e.name: e.dc for e in s}
        if what == 0:
            cfg = {k: rng.randn() for k in perm[:rng.randint(0, len(perm) + 1)]}
            c2 = dict(cfg)
            save = rng.rand() < .6
            a.set_volts(cfg, save=save)
            same(cfg, c2)
            for k in names:
                close(s[k].dc, cfg.get(k, dc[k]), 1e-15, "dc")
                if save:
                    hist[k].append(cfg.get(k, hist[k][-1]))
        elif what == 1:
            want = {k: hist[k][-1] + d[j] for j, x in enumerate(g) for k in x}
            got = a.construct_config(d)
            same(set(got), set(want))
            for k in want:
                close(got[k], want[k], 1e-15, "configuration")
        else:
            own, acc = what == 2, rng.rand() < .6
            if not own:
                a.volt_change = lambda **k: d
                a.propose_move()
                for j, x in enumerate(g):
                    for k in x:
                        close(s[k].dc, hist[k][-1] + d[j], 1e-15, "proposed")
                check(s, a, hist, "proposal")
            a.next_step(*([d] if own else []), accept=acc)
            same(hasattr(a, "_propose"), False)
            ch = {k: d[j] for j, x in enumerate(g) for k in x}
            for k in names:
                if acc:
                    hist[k].append(hist[k][-1] + ch.get(k, 0.))
                    close(s[k].dc, hist[k][-1] if k in ch else dc[k], 1e-15, "accepted")
                else:
                    close(s[k].dc, hist[k][-1], 1e-15, "rejected")
        check(s, a, hist, "step %d" % what)


main()
