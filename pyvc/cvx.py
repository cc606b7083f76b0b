"""Contract of cvxopt.modeling (assumed): an expression is its value as a function of the variable values.
Element i of the k-th variable created is the term var<k>(loop indices..., i); solving maps var<k> to sol<k>."""
import ast
from fractions import Fraction
from . import terms as T
from .terms import Term
from .values import *


def te(I, exc, *a):
    return PyExc(I.builtins[exc], a)


def same_len(I, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return I.entails(T.eq(T.lift(a), T.lift(b)))


class Expr(object):
    """vector expression of length n: f(i) is element i.  curv: const, aff, cvx, ccv"""
    def __init__(self, n, f, curv="aff", name=None, ids=()):
        self.n, self.f, self.curv, self.name, self.ids = n, f, curv, name, ids

    def __repr__(self):
        return "cvx(%s)" % (self.name or self.curv)

    # -- protocol of the engine
    def np_map(self, inst):
        g = self.f
        # values are closed terms of the loop index: instantiate them elementwise
        return Expr(inst(self.n), lambda i: inst(g(i)), self.curv, self.name, tuple(inst(t) for t in self.ids))

    def eq_key(self, I):
        return ("expr", I.new_arr((self.n,), lambda i: self.f(i[0]), "R"), self.curv)

    def np_len(self, I):
        return self.n

    def np_parts(self, I):
        n = I.py(self.n)
        if isinstance(n, int):
            return tuple(("one", self.np_getitem(I, k)) for k in range(n))
        return (("comp", T.lift(n), lambda k: T.TRUE, lambda k: (("one", self.np_getitem(I, k)),)),)

    def np_getattr(self, I, name):
        if name == "_size":
            return self.n
        if name == "size":
            return (self.n, 1)
        if name == "value":
            return Value(self)
        raise te(I, "AttributeError", name)

    def np_getitem(self, I, k):
        k = I.py(k)
        if isinstance(k, int) or isinstance(k, Term) and k.sort == "I":
            n = T.lift(self.n)
            if not I.entails(T.and_(T.le(0, k), T.lt(k, n))):
                if I.decide(T.or_(T.lt(k, T.neg(n)), T.le(n, k))):
                    raise te(I, "IndexError", "variable index out of range")
                k = T.ite(T.lt(k, 0), T.add(k, n), k)
            f = self.f
            return Expr(1, lambda i: f(T.lift(k)), self.curv)
        if isinstance(k, SliceV):
            lo, cnt, st = I.slice_range(k, self.n)
            f = self.f
            return Expr(cnt, lambda i: f(T.add(lo, T.mul(st, i))), self.curv)
        raise Unsupported("index into a cvxopt expression")

    def scale(self, I, s):
        f = self.f
        cv = self.curv
        if cv in ("cvx", "ccv"):
            s_ = T.lift(s)
            if I.decide(T.lt(s_, T.num(0, s_.sort))):
                cv = "ccv" if cv == "cvx" else "cvx"
        return Expr(self.n, lambda i: T.mul(T.toreal(T.lift(s)), f(i)), cv)

    def np_binop(self, I, op, a, b):
        if op == "neg":
            f = self.f
            return Expr(self.n, lambda i: T.neg(f(i)), {"cvx": "ccv", "ccv": "cvx"}.get(self.curv, self.curv))
        if op == "pos":
            return self
        if op in ("+", "-"):
            x, y = lift(I, a), lift(I, b)
            if op == "-":
                y = y.np_binop(I, "neg", y, None)
            if isinstance(x.n, int) and x.n == 1:
                n = y.n
            elif isinstance(y.n, int) and y.n == 1 or same_len(I, x.n, y.n):
                n = x.n
            else:
                raise te(I, "ValueError", "incompatible dimensions")
            cv = {x.curv, y.curv} - {"const"}
            if cv == {"cvx", "ccv"}:
                raise te(I, "ValueError", "operands must be convex and convex or concave and concave")
            cv = "cvx" if "cvx" in cv else "ccv" if "ccv" in cv else "aff" if cv else "const"
            fx, fy = at(x, n), at(y, n)
            return Expr(n, lambda i: T.add(fx(i), fy(i)), cv)
        if op == "*":
            for p, q in ((a, b), (b, a)):
                if isinstance(p, Expr):
                    if isinstance(q, (int, float, Fraction)) or isinstance(q, Term):
                        return p.scale(I, q)
                    if isinstance(q, Arr) and q.ndim == 0:
                        return p.scale(I, I.elem(q, ()))
            raise Unsupported("product of cvxopt expressions")
        if op == "/":
            if isinstance(a, Expr) and (isinstance(b, (int, float, Fraction)) or isinstance(b, Term)):
                return a.scale(I, I.binop("/", T.num(1, "R"), b))
        raise Unsupported("cvxopt operator %s" % op)

    def np_compare(self, I, op, a, b):
        x, y = lift(I, a), lift(I, b)
        d = x.np_binop(I, "-", x, y)
        if op is ast.Eq:
            if d.curv not in ("aff", "const"):
                raise te(I, "TypeError", "constraint function must be affine")
            return Con("=", d)
        if op in (ast.GtE, ast.LtE):
            if op is ast.GtE:
                d = d.np_binop(I, "neg", d, None)
            if d.curv == "ccv":
                raise te(I, "TypeError", "constraint function must be convex")
            return Con("<", d)
        raise te(I, "NotImplementedError", "comparison of cvxopt expressions")

    def np_abs(self, I):
        if self.curv not in ("aff", "const"):
            raise te(I, "ValueError", "abs of a nonlinear expression")
        f = self.f
        return Expr(self.n, lambda i: T.absv(f(i)), "cvx")


def at(x, n):
    if isinstance(x.n, int) and x.n == 1:
        return lambda i: x.f(T.num(0))
    return x.f


def lift(I, v):
    if isinstance(v, Expr):
        return v
    if isinstance(v, Matrix):
        a = v.a
        f = I.freeze_arr(a)
        return Expr(a.shape[0], lambda i: f((i, T.num(0))), "const")
    if isinstance(v, (int, float, Fraction, Term)) and not isinstance(v, bool):
        return Expr(1, lambda i: T.toreal(T.lift(v)), "const")
    if isinstance(v, Arr) and v.ndim == 0:
        e = I.elem(v, ())
        return Expr(1, lambda i: T.toreal(T.lift(e)), "const")
    raise Unsupported("%r in a cvxopt expression" % (v,))


class Con(object):
    """constraint f = 0 or f <= 0"""
    def __init__(self, kind, d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return "con(%s)" % self.kind

    def np_map(self, inst):
        return Con(self.kind, inst(self.d))

    def eq_key(self, I):
        return ("con" + self.kind, I.new_arr((self.d.n,), lambda i: self.d.f(i[0]), "R"))


class Token(object):
    """an opaque value of a library type (constraint object, ...) named by a term"""
    def __init__(self, t):
        self.t = t

    def np_map(self, inst):
        return Token(inst(self.t))

    def eq_key(self, I):
        return ("token", self.t)


class Matrix(object):
    def __init__(self, a):
        self.a = a

    def np_map(self, inst):
        return Matrix(inst(self.a))

    def eq_key(self, I):
        return ("matrix", self.a)

    def np_asarray(self, I):
        return self.a

    def np_getattr(self, I, name):
        if name == "size":
            return tuple(self.a.shape)
        if name == "T":
            return Matrix(I.getattr(self.a, "T"))
        if name in ("trans",):
            return Builtin(name, lambda: Matrix(I.getattr(self.a, "T")))
        raise te(I, "AttributeError", name)

    def np_binop(self, I, op, a, b):
        if isinstance(a, Expr) or isinstance(b, Expr):
            if op == "*" and isinstance(a, Matrix):
                return mv(I, I.getattr(a.a, "T"), b)
            return (a if isinstance(a, Expr) else b).np_binop(I, op, a, b)
        raise Unsupported("cvxopt matrix arithmetic")


def mv(I, xt, y):
    """xt has shape (n, m): the product of its transpose with y"""
    n, m = xt.shape
    if not same_len(I, n, y.n):
        raise te(I, "TypeError", "invalid argument types or incompatible dimensions")
    if y.curv not in ("aff", "const"):
        raise te(I, "TypeError", "invalid argument types or incompatible dimensions")
    f = I.freeze_arr(xt)

    def el(j):
        k = T.fresh("k", "I")
        if isinstance(n, int):
            return _sum([T.mul(T.toreal(T.lift(f((T.num(q), j)))), y.f(T.num(q))) for q in range(n)])
        return T.summ(k, 0, n, T.mul(T.toreal(T.lift(f((k, j)))), y.f(k)))
    return Expr(m, el, y.curv)


def _sum(ts):
    r = T.num(0, "R")
    for t in ts:
        r = T.add(r, t)
    return r


class Value(object):
    """.value of an expression: None before a problem was solved, its value at the solution afterwards"""
    def __init__(self, e):
        self.e = e

    def np_map(self, inst):
        return Value(inst(self.e))

    def np_asarray(self, I):
        if not I.heap[I.cvxstate.id].attrs.get("solved"):
            return I.as_arr(None)
        f = self.e.f
        return I.new_arr((self.e.n, 1), lambda i: sol(f(i[0])), "R")

    def np_getattr(self, I, name):
        return Matrix(self.np_asarray(I)).np_getattr(I, name)

    def np_getitem(self, I, k):
        return I.getitem(I.call(I.getattr(self.np_asarray(I), "ravel"), []), k)

    def eq_key(self, I):
        return ("value", self.np_asarray(I))


def sol(t):
    """the term at the solution: variable values replaced by solution values"""
    return T.map_fn(T.lift(t), lambda name, args, sort: T.fn("sol" + name[3:], args, sort) if name.startswith("var#") else None)


class Op(object):
    """problem op(objective, constraints)"""
    def __init__(self, obj, ctrs):
        self.obj, self.ctrs = obj, ctrs

    def np_getattr(self, I, name):
        if name == "solve":
            def solve(fmt="dense", solver="default", **kw):
                I.heap[I.cvxstate.id] = I.heap[I.cvxstate.id].copy()
                I.heap[I.cvxstate.id].attrs["solved"] = 1
                return None
            return Builtin("solve", solve)
        if name == "status":
            if not I.heap[I.cvxstate.id].attrs.get("solved"):
                return None
            return T.var("status", "S")
        if name == "objective":
            return Objective(self)
        if name in ("variables", "inequalities", "equalities"):
            n = T.fresh("nv", "I")
            I.literals.add(T.le(0, n))
            return Builtin(name, lambda: Seq((("comp", n, lambda k: T.TRUE, lambda k: (("one", Sized(k)),)),)))
        raise te(I, "AttributeError", name)


class Sized(object):
    def __init__(self, k):
        self.k = k

    def np_map(self, inst):
        return Sized(inst(self.k))

    def np_getattr(self, I, name):
        if name == "multiplier":
            return self
        return T.fn("size", (self.k,), "I")


class Objective(object):
    def __init__(self, op):
        self.op = op

    def np_getattr(self, I, name):
        if name == "value":
            def value():
                o = self.op.obj
                if isinstance(o, Expr):
                    return sol(o.f(T.num(0)))
                return sol(T.toreal(T.lift(o)))
            return Builtin("value", value)
        raise te(I, "AttributeError", name)


def modules(I):
    cnt = [0]
    I.cvxstate = I.alloc(ObjRec(None, {}), Obj)
    I.cvxops = []

    def variable(size=1, name=""):
        n = I.py(size)
        if not isinstance(n, (int, Term)):
            raise te(I, "TypeError", "size must be a positive integer")
        if not I.entails(T.lt(0, T.lift(n))):
            if not I.decide(T.lt(0, T.lift(n))):
                raise te(I, "TypeError", "size must be a positive integer")
        cnt[0] += 1
        nm = "var#%d" % cnt[0]
        stack = tuple(I.loopstack)
        return Expr(n, Elem(nm, stack), "aff", nm, stack)

    def matrix(x=None, size=None, tc="d"):
        if size is not None:
            raise Unsupported("cvxopt.matrix with size")
        if isinstance(x, (int, float, Fraction, Term)):
            x = I.as_arr(x)
        a = I.as_arr(x)
        f = I.freeze_arr(a)
        if a.ndim == 0:
            return Matrix(I.new_arr((1, 1), lambda i: f(()), a.dtype))
        if a.ndim == 1:
            return Matrix(I.new_arr((a.shape[0], 1), lambda i: f((i[0],)), a.dtype))
        if a.ndim == 2:
            return Matrix(I.new_arr(a.shape, lambda i: f(tuple(i)), a.dtype))
        raise te(I, "TypeError", "buffer format not supported")

    def dot(x, y):
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Matrix) and isinstance(q, Expr):
                if p.a.dtype != "R":
                    raise te(I, "TypeError", "invalid argument types or incompatible dimensions")
                for s in p.a.shape:
                    if not I.entails(T.lt(0, T.lift(s))):
                        if not I.decide(T.lt(0, T.lift(s))):
                            raise te(I, "TypeError", "invalid argument types or incompatible dimensions")
                if q.name is None:
                    if not (isinstance(p.a.shape[1], int) and p.a.shape[1] == 1):
                        raise te(I, "TypeError", "invalid argument types or incompatible dimensions")
                return mv(I, p.a, q)
        raise te(I, "TypeError", "invalid argument types or incompatible dimensions")

    def vsum(x):
        if not isinstance(x, Expr):
            return I.call(I.builtins["sum"], [x])
        n = I.py(x.n)
        if isinstance(n, int):
            return Expr(1, lambda i: _sum([x.f(T.num(k)) for k in range(n)]), x.curv)
        k = T.fresh("k", "I")
        return Expr(1, lambda i: T.summ(k, 0, n, x.f(k)), x.curv)

    def vmax(*xs):
        if len(xs) != 1 or not isinstance(xs[0], Expr):
            raise Unsupported("cvxopt.modeling.max")
        x = xs[0]
        if x.curv == "ccv":
            raise te(I, "ValueError", "max of a concave function")
        return Expr(1, lambda i: T.fn("vmax", (T.toreal(T.lift(x.n)), x.f(T.var("gmax", "I")))), "cvx")

    def op(obj=0., constraints=None):
        if isinstance(obj, (Arr, List, tuple, Matrix)):
            raise te(I, "TypeError", "attribute 'objective' must be a scalar affine or convex PWL function")
        if isinstance(obj, Expr):
            if not (isinstance(obj.n, int) and obj.n == 1) and not same_len(I, obj.n, 1):
                raise te(I, "TypeError", "attribute 'objective' must be a scalar affine or convex PWL function")
            if obj.curv == "ccv":
                raise te(I, "TypeError", "attribute 'objective' must be a scalar affine or convex PWL function")
        I.assumed.add("cvxopt.modeling.op(...).solve() finds a minimiser subject to the given constraints and sets .value")
        o = Op(obj, Seq(I.parts(constraints)) if constraints is not None else Seq(()))
        I.heap[I.cvxstate.id] = I.heap[I.cvxstate.id].copy()
        I.heap[I.cvxstate.id].attrs["op"] = o
        return o
    M = Module("cvxopt.modeling", dict(variable=Builtin("variable", variable), dot=Builtin("dot", dot), sum=Builtin("sum", vsum),
                                       max=Builtin("max", vmax), op=Builtin("op", op)))
    Sv = Module("cvxopt.solvers", dict(options=I.alloc(DictRec({}), Dict)))
    C = Module("cvxopt", dict(matrix=Builtin("matrix", matrix), modeling=M, solvers=Sv))
    return {"cvxopt": C, "cvxopt.modeling": M, "cvxopt.solvers": Sv}


class Elem(object):
    def __init__(self, nm, stack):
        self.nm, self.stack = nm, stack

    def __call__(self, i):
        return T.fn(self.nm, self.stack + (T.lift(i),))


def last_op(I):
    return I.heap[I.cvxstate.id].attrs.get("op")
