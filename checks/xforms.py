"""Rotations: both implementations of electrode.transformations (the Python functions and the C extension that replaces
them when it can be imported), elementary rotations, Rodrigues' formula."""
import os
from pyvc.harness import *
from pyvc import cfront
from checks.trig import Trig, sin, cos, square

M = "electrode.transformations"
CM = "electrode._transformations"
IMPL = ("py", "C")
LETTERS = "xyz"
NAMES = [f + a + b + c for f in "sr" for a in LETTERS for b in LETTERS for c in LETTERS if a != b and b != c]


def tup(name):
    """the tuple encoding (inner axis, parity, repetition, frame) of an axis string, from the documentation of the module"""
    seq = name[1:] if name[0] == "s" else name[:0:-1]
    i, j = LETTERS.index(seq[0]), LETTERS.index(seq[1])
    return (i, 0 if (i + 1) % 3 == j else 1, int(seq[0] == seq[2]), int(name[0] == "r"))


C_NAMES = ["euler_matrix", "euler_from_matrix", "rotation_matrix", "quaternion_from_euler", "quaternion_about_axis", "quaternion_matrix",
           "quaternion_multiply", "quaternion_conjugate", "quaternion_inverse", "quaternion_from_matrix"]


def world(c, impl, names=C_NAMES):
    I = c.interp()
    I.contracts[M + ":_import_module"] = lambda *a, **k: None
    m = I.load(M)
    if impl == "py":
        return I, lambda n: I.modget(m, n)
    cm = cfront.install(I, CM, os.path.join(I.repo, "electrode", "transformations.c"),
                        list(names))
    return I, lambda n: cm.attrs[n]


def funcs(*names):
    return [M + "." + n for n in names] + ["electrode/transformations.c:py_" + n for n in names]


def mat(rows):
    return [[T.lift(x) if isinstance(x, Term) else T.num(x, "R") for x in r] for r in rows]


def mul(a, b):
    return [[T.add(*[T.mul(a[i][k], b[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]


def elementary(axis, a, pre=None):
    """right-handed rotation by a about a coordinate axis"""
    s, k = pre or (sin(a), cos(a))
    n = T.neg(s)
    return mat({"x": [[1, 0, 0], [0, k, n], [0, s, k]],
                "y": [[k, 0, s], [0, 1, 0], [n, 0, k]],
                "z": [[k, n, 0], [s, k, 0], [0, 0, 1]]}[axis])


def euler(name, ang, pre=None):
    """the product of the elementary rotations: static axes apply ai first about fixed axes, rotating axes about the moved axes"""
    R = [elementary(l, a, p) for l, a, p in zip(name[1:], ang, pre or (None,) * 3)]
    return mul(mul(R[2], R[1]), R[0]) if name[0] == "s" else mul(mul(R[0], R[1]), R[2])


def rodrigues(u, ca, sa):
    c1 = T.sub(1, ca)
    K = mat([[0, T.neg(u[2]), u[1]], [u[2], 0, T.neg(u[0])], [T.neg(u[1]), u[0], 0]])
    return [[T.add(T.mul(c1, u[i], u[j]), T.mul(sa, K[i][j]), ca if i == j else T.num(0, "R")) for j in range(3)] for i in range(3)]


def hom(R, t=None):
    t = t or [T.num(0, "R")] * 3
    return [list(R[i]) + [t[i]] for i in range(3)] + mat([[0, 0, 0, 1]])


def quatmat(q):
    """rotation matrix of a unit quaternion w + xi + yj + zk"""
    w, x, y, z = q
    m = T.mul
    two = lambda a: T.mul(2, a)
    return [[T.sub(1, two(T.add(m(y, y), m(z, z)))), two(T.sub(m(x, y), m(z, w))), two(T.add(m(x, z), m(y, w)))],
            [two(T.add(m(x, y), m(z, w))), T.sub(1, two(T.add(m(x, x), m(z, z)))), two(T.sub(m(y, z), m(x, w)))],
            [two(T.sub(m(x, z), m(y, w))), two(T.add(m(y, z), m(x, w))), T.sub(1, two(T.add(m(x, x), m(y, y))))]]


def hamilton(a, b):
    """a b"""
    m = T.mul
    return [T.sub(m(a[0], b[0]), T.add(m(a[1], b[1]), m(a[2], b[2]), m(a[3], b[3]))),
            T.add(m(a[0], b[1]), m(a[1], b[0]), m(a[2], b[3]), T.neg(m(a[3], b[2]))),
            T.add(m(a[0], b[2]), m(a[2], b[0]), m(a[3], b[1]), T.neg(m(a[1], b[3]))),
            T.add(m(a[0], b[3]), m(a[3], b[0]), m(a[1], b[2]), T.neg(m(a[2], b[1])))]


def arr(I, v):
    """array of the given nested terms"""
    if isinstance(v[0], list):
        return I.new_arr((len(v), len(v[0])), lambda i: pick(i[0], [pick(i[1], r) for r in v]), "R")
    return I.new_arr((len(v),), lambda i: pick(i[0], v), "R")


def pick(i, v):
    r = v[-1]
    for k in range(len(v) - 2, -1, -1):
        r = T.ite(T.eq(i, k), v[k], r)
    return r


def entries(I, a):
    a = I.as_arr(a)
    if a.ndim == 1:
        return [I.scalar(I.elem(a, (k,))) for k in range(a.shape[0])]
    return [[I.scalar(I.elem(a, (i, j))) for j in range(a.shape[1])] for i in range(a.shape[0])]


def vec(n, k=3):
    return [T.fn(n, (T.num(i),)) for i in range(k)]


def symarr(I, n, k=3):
    return I.new_arr((k,), lambda i: T.fn(n, i), "R")


def dot(a, b):
    return T.add(*[T.mul(x, y) for x, y in zip(a, b)])


def shape(c, label, I, a, sh):
    a = I.as_arr(a)
    c.true(label + ".shape", tuple(a.shape) == sh)


def frame(c, label, I, a, before):
    """the argument array is unchanged"""
    c.eq(label + ".argument unchanged", a, before)


class Named(Trig):
    """Trig with names: every subterm that equals e by the algebra of the normal form is replaced by v, for the pairs (e, v); the
    pairs are the definitions of v or consequences of the stated facts"""
    def __init__(self, pc, pairs, roots=(), **kw):
        Trig.__init__(self, pc, roots=roots, **kw)
        self.pairs = [(e, v, leaves(e)) for e, v in pairs]

    def rule(self, t):
        if t.sort == "R" and t.op in ("add", "mul", "div", "pow"):
            lv = leaves(t)
            k = T.num(t.args[1], "R") if t.op == "add" else T.num(0, "R")
            t0 = T.sub(t, k)
            for e, v, l in self.pairs:
                if l <= lv:
                    if self.zero(T.sub(t0, e)):
                        return T.add(v, k)
                    if self.zero(T.add(t0, e)):
                        return T.sub(k, v)
        return Trig.rule(self, t)


def leaves(t):
    r, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.op in ("var", "fn"):
            r.add(x)
        todo += T.children(x)
    return r
