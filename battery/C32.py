from lib import *
import io
from electrode.xic import xic_to_list


def write(rng, polys):
    out = []
    idle = ["", "   ", "\t", "L CPG;", "9 name;", "(a comment P 1 2);", "DS 1 1 1;", "DF;", "E", "5001"]

    def noise():
        while rng.rand() < .4:
            out.append(idle[rng.randint(len(idle))])
    for p in polys:
        noise()
        for k, (a, b) in enumerate(p):
            sp = lambda: " " * rng.randint(1, 4)
            s = ("P" if k == 0 else " ") + sp() + a + sp() + b
            if k == len(p) - 1:
                s += ["", " "][rng.randint(2)] + ";"
            out.append(s + [" ", "", "   "][rng.randint(3)])
            if k < len(p) - 1:
                noise()
    noise()
    nl = ["\n", "\r\n"][rng.randint(2)]
    return [o + nl for o in out]


@case("files", 30)
def c1(rng):
    polys = []
    for _ in range(rng.randint(0, 6)):
        n = [rng.randint(2, 8), rng.randint(2, 8), rng.randint(60, 1500)][rng.randint(3)]
        fmt = [lambda: "%d" % rng.randint(-10**6, 10**6), lambda: repr(rng.randn() * 1e4), lambda: "%.3e" % (rng.randn() * 1e5)][rng.randint(3)]
        polys.append([(fmt(), fmt()) for _ in range(n)])
    lines = write(rng, polys)
    for src in (lines, io.StringIO("".join(lines)), [l.rstrip("\r\n") for l in lines]):
        r = xic_to_list(src)
        same(len(r), len(polys), "number of polygons")
        for a, p in zip(r, polys):
            close(a, np.array([[float(x) for x in v] for v in p]) * 1e-8, 1e-12)
            assert isinstance(a, np.ndarray)


main()
