"""Python builtins of the interpreted subset."""
import math
from fractions import Fraction
from . import terms as T
from .terms import Term
from .values import *
from .interp import Poison, UNBOUND

EXC = {"BaseException": (), "Exception": ("BaseException",), "ArithmeticError": ("Exception",),
       "LookupError": ("Exception",), "TypeError": ("Exception",), "ValueError": ("Exception",),
       "AttributeError": ("Exception",), "KeyError": ("LookupError",), "IndexError": ("LookupError",),
       "NameError": ("Exception",), "UnboundLocalError": ("NameError",), "ImportError": ("Exception",), "AssertionError": ("Exception",),
       "RuntimeError": ("Exception",), "ZeroDivisionError": ("ArithmeticError",),
       "Warning": ("Exception",), "ImportWarning": ("Warning",), "DeprecationWarning": ("Warning",), "UserWarning": ("Warning",), "RuntimeWarning": ("Warning",), "FutureWarning": ("Warning",),
       "NotImplementedError": ("RuntimeError",), "OSError": ("Exception",), "IOError": ("OSError",),
       "FileNotFoundError": ("OSError",), "StopIteration": ("Exception",), "Warning": ("Exception",),
       "DeprecationWarning": ("Warning",), "UserWarning": ("Warning",), "UnicodeDecodeError": ("ValueError",),
       "KeyboardInterrupt": ("BaseException",), "ModuleNotFoundError": ("ImportError",), "OverflowError": ("ArithmeticError",)}


def make(I):
    b = {}
    obj = BuiltinClass("object", lambda *a, **k: I.alloc(ObjRec(ClassVal("object", [], {}, "builtins:object"), {}), Obj))
    b["object"] = obj
    for name, bases in EXC.items():
        c = BuiltinClass(name, None, [b[x] for x in bases] or [obj])
        c.f = (lambda c: lambda *a, **k: PyExc(c, tuple(a)))(c)
        b[name] = c

    def B(name, f=None):
        def deco(f):
            b[name] = Builtin(name, f)
            return f
        return deco(f) if f else deco

    def TE(*a):
        return PyExc(b["TypeError"], a)

    def VE(*a):
        return PyExc(b["ValueError"], a)

    # ---------------------------------------------------------------- classes
    def mklist(it=None):
        if it is None:
            return I.newlist([])
        return I.alloc(ListRec(I.parts(it)), List)

    def mktuple(it=None):
        if it is None:
            return ()
        ps = I.parts(it)
        if all(p[0] == "one" for p in ps):
            return tuple(p[1] for p in ps)
        return I.alloc(ListRec(ps), List)      # immutable use only

    def mkdict(it=None, **kw):
        d = I.alloc(DictRec(), Dict)
        if it is not None:
            if isinstance(it, Dict):
                r = I.rec(it)
                if r.sym is not None:
                    raise Unsupported("copy of a symbolic dict")
                I.rec(d).items.update(r.items)
            else:
                for p in I.parts(it):
                    if p[0] != "one":
                        raise Unsupported("dict of a symbolic sequence")
                    k, v = I.unpack(p[1], 2)
                    I.setitem(d, k, v)
        for k, v in kw.items():
            I.rec(d).items[k] = v
        return d

    def mkset(it=None):
        items = []
        if it is not None:
            for p in I.parts(it):
                if p[0] != "one":
                    raise Unsupported("set of a symbolic sequence")
                v = p[1]
                if isinstance(v, Term) and v.op in ("num", "str"):
                    v = I.dkey(v)
                dup = False
                for w in items:
                    e = I.scompare(__import__("ast").Eq, v, w)
                    if e is True or (not isinstance(e, bool) and I.decide(T.lift(e))):
                        dup = True
                        break
                if not dup:
                    items.append(v)
        return I.alloc(SetRec(items), Set)

    def mkint(v=0, base=None):
        if isinstance(v, (str,)):
            try:
                return int(v, base) if base is not None else int(v)
            except ValueError:
                raise VE("invalid literal")
        if v is None or isinstance(v, (List, Dict, Obj, tuple)):
            raise TE("int()")
        if isinstance(v, Cx):
            raise TE("int(complex)")
        if isinstance(v, Term) and v.sort == "S":
            raise Unsupported("int of a symbolic string")
        return I.toint(v)

    def mkfloat(v=0):
        if isinstance(v, str):
            s = v.strip().lower()
            if s in ("inf", "infinity", "+inf"):
                return T.INF
            if s == "-inf":
                return T.NINF
            if s == "nan":
                return I.nan()
            try:
                return T.num(Fraction(s), "R")
            except (ValueError, ZeroDivisionError):
                raise VE("could not convert string to float")
        if v is None or isinstance(v, (List, Dict, Obj, tuple)):
            raise TE("float()")
        if isinstance(v, Term) and v.sort == "S":
            return T.fn("float", (v,), "R")
        return I.toreal(v)

    def mkstr(v=""):
        if isinstance(v, (str, int)):
            return str(v)
        if v is None:
            return "None"
        if isinstance(v, Term) and v.sort == "S":
            return v
        return T.fresh("str", "S")

    def mkcomplex(re=0, im=0):
        if isinstance(re, Cx):
            return re
        return Cx(I.toreal(re), I.toreal(im))

    b["list"] = BuiltinClass("list", mklist, [obj])
    b["tuple"] = BuiltinClass("tuple", mktuple, [obj])
    b["dict"] = BuiltinClass("dict", mkdict, [obj])
    b["set"] = BuiltinClass("set", mkset, [obj])
    b["frozenset"] = b["set"]
    b["int"] = BuiltinClass("int", mkint, [obj])
    b["float"] = BuiltinClass("float", mkfloat, [obj])
    b["str"] = BuiltinClass("str", mkstr, [obj])
    b["bytes"] = BuiltinClass("bytes", None, [obj])
    b["complex"] = BuiltinClass("complex", mkcomplex, [obj])

    def mkbool(v=False):
        return I.unb(I.cond(v))
    b["bool"] = BuiltinClass("bool", mkbool, [b["int"]])
    for n in ("property", "classmethod", "staticmethod"):
        b[n] = BuiltinClass(n, None, [obj])
    b["property"].f = lambda fget=None, fset=None, *a: Prop(fget, fset)
    b["classmethod"].f = ClassMethod
    b["staticmethod"].f = StaticMethod
    b["slice"] = BuiltinClass("slice", lambda *a: SliceV(None, a[0], None) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else None), [obj])
    b["True"], b["False"], b["None"] = True, False, None
    b["NotImplemented"] = Ext("NotImplemented")
    b["__name__"] = "?"

    # ---------------------------------------------------------------- functions
    @B("len")
    def len_(v):
        return I.length(v)

    @B("range")
    def range_(*a):
        a = [x if isinstance(x, int) and not isinstance(x, bool) else I.py(T.lift(I.scalar(I.elem(x, ())) if isinstance(x, Arr) else x)) for x in a]
        for x in a:
            if isinstance(x, Term) and x.sort != "I":
                raise TE("range of a non-integer")
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if all(isinstance(x, int) for x in (lo, hi, st)):
            if st == 0:
                raise VE("range step")
            if len(range(lo, hi, st)) > 100000:
                raise Unsupported("huge range")
            return Seq([("one", i) for i in range(lo, hi, st)])
        if st not in (1, -1):
            raise Unsupported("symbolic range with step")
        d = T.sub(T.lift(hi), T.lift(lo)) if st == 1 else T.sub(T.lift(lo), T.lift(hi))
        if d.op == "num":
            n = int(d.args[0])
            return Seq([("one", I.py(T.add(T.lift(lo), st * i))) for i in range(max(n, 0))])
        if not I.entails(T.le(0, d)):
            d = T.ite(T.lt(d, 0), T.num(0), d)
        lo_ = T.lift(lo)
        return Seq([("comp", d, lambda i: T.TRUE, lambda i: (("one", I.py(T.add(lo_, i) if st == 1 else T.sub(lo_, i))),))])

    @B("enumerate")
    def enumerate_(it, start=0):
        if isinstance(it, Gen):
            it = Seq(I.parts(it))
        ps = I.parts(it)
        out = []
        off = T.lift(start)
        for p in ps:
            if p[0] == "one":
                out.append(("one", (I.py(off), p[1])))
                off = T.add(off, 1)
            elif p[0] == "comp":
                k = T.var("_probe", "I")
                q = p[3](k)
                if p[2](k) is not T.TRUE or len(q) != 1 or q[0][0] != "one":
                    raise Unsupported("enumerate of a filtered symbolic sequence")
                out.append(("comp", p[1], lambda i: T.TRUE, lambda i, p=p, off=off: (("one", (I.py(T.add(off, i)), p[3](i)[0][1])),)))
                off = T.add(off, T.lift(p[1]))
            else:
                raise Unsupported("enumerate of loop-carried list")
        return Seq(out)

    def simple(ps):
        """(n, at) view of a sequence of parts, at(i) for a term i"""
        if all(p[0] == "one" for p in ps):
            vals = [p[1] for p in ps]
            return len(vals), vals, None
        n = I.length_parts(ps)
        return n, None, lambda i: I.seq_index(ps, T.lift(i))

    @B("zip")
    def zip_(*its):
        if not its:
            return Seq([])
        P = [simple(I.parts(it)) for it in its]
        if all(p[1] is not None for p in P):
            return Seq([("one", t) for t in zip(*[p[1] for p in P])])
        n = P[0][0]
        for p in P[1:]:
            m = p[0]
            if isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
            else:
                a, c = T.lift(n), T.lift(m)
                if a is c or I.entails(T.le(a, c)):
                    continue
                if I.entails(T.le(c, a)):
                    n = m
                else:
                    if I.decide(T.le(a, c)):
                        continue
                    n = m
        def at(p, i):
            if p[1] is not None:
                i2 = I.const_int(i)
                if i2 is not None:
                    return p[1][i2]
                return I.seq_index([("one", v) for v in p[1]], T.lift(i))
            return p[2](i)
        if isinstance(n, int):
            return Seq([("one", tuple(at(p, T.num(i)) for p in P)) for i in range(n)])
        return Seq([("comp", n, lambda i: T.TRUE, lambda i: (("one", tuple(at(p, i) for p in P)),))])

    @B("map")
    def map_(f, *its):
        it = its[0] if len(its) == 1 else zip_(*its)
        acc = I.newlist([])
        def cb(v):
            I.list_append(acc, I.call(f, [v] if len(its) == 1 else list(v), {}))
        I.iterate(it, cb, where="map")
        return acc

    @B("filter")
    def filter_(f, it):
        acc = I.newlist([])
        def cb(v):
            if I.truth(v if f is None else I.call(f, [v], {})):
                I.list_append(acc, v)
        I.iterate(it, cb, where="filter")
        return acc

    @B("sum")
    def sum_(it, start=0):
        return fold_sum(I, it, start)

    def minmax(name, less):
        def f(*a, **kw):
            key = kw.pop("key", None)
            default = kw.pop("default", UNBOUND)
            vals = I.concrete_list(a[0]) if len(a) == 1 else list(a)
            if not vals:
                if default is not UNBOUND:
                    return default
                raise VE("empty sequence")
            import ast
            r = vals[0]
            for v in vals[1:]:
                kv, kr = (v, r) if key is None else (I.call(key, [v], {}), I.call(key, [r], {}))
                c = I.scompare(ast.Lt, kv, kr) if less else I.scompare(ast.Lt, kr, kv)
                if c is True:
                    r = v
                elif c is False:
                    pass
                else:
                    r = I.scalar(I.vite(T.lift(c), v, r))
            return r
        b[name] = Builtin(name, f)
    minmax("min", True)
    minmax("max", False)

    @B("abs")
    def abs_(v):
        return I.ewise1(lambda x: sabs(I, x), v) if isinstance(v, (Arr,)) else I.scalar(sabs(I, v))

    @B("divmod")
    def divmod_(a, c):
        return (I.binop("//", a, c), I.binop("%", a, c))

    @B("pow")
    def pow_(a, c):
        return I.binop("**", a, c)

    def anyall(name, isany):
        def f(it):
            if isinstance(it, Gen):
                # short-circuiting evaluation, element by element
                res = {"v": not isany}

                class Stop(Exception):
                    pass
                acc = T.lift(not isany)
                ps = I.parts(it)
            else:
                ps = I.parts(it)
            return I.unb(quant(ps, isany))

        def quant(ps, isany):
            out = T.FALSE if isany else T.TRUE
            for p in ps:
                if p[0] == "one":
                    c = I.cond(p[1])
                elif p[0] == "comp":
                    k = T.fresh("k", "I")
                    c = quant(p[3](k), isany)
                    g = p[2](k)
                    if isany:
                        c = T.not_(T.forall(k, 0, T.lift(p[1]), T.not_(T.and_(g, c))))
                    else:
                        c = T.forall(k, 0, T.lift(p[1]), T.or_(T.not_(g), c))
                else:
                    raise Unsupported("any/all of loop-carried list")
                out = T.or_(out, c) if isany else T.and_(out, c)
            return out
        b[name] = Builtin(name, f)
    anyall("any", True)
    anyall("all", False)

    @B("sorted")
    def sorted_(it, key=None, reverse=False):
        vals = I.concrete_list(it)
        return I.newlist(sort_values(I, vals, key, reverse))

    @B("reversed")
    def reversed_(it):
        ps = I.parts(it)
        if all(p[0] == "one" for p in ps):
            return I.newlist([p[1] for p in reversed(ps)])
        n = I.length_parts(ps)
        return Seq([("comp", n, lambda i: T.TRUE, lambda i: (("one", I.seq_index(ps, T.sub(T.sub(T.lift(n), 1), i))),))])

    @B("isinstance")
    def isinstance_(v, c):
        return isinst(I, v, c)

    @B("issubclass")
    def issubclass_(v, c):
        cs = c if isinstance(c, tuple) else (c,)
        return any(x in v.mro for x in cs)

    @B("type")
    def type_(v, *rest):
        if rest:
            name, bases, d = v, rest[0], rest[1]
            attrs = dict(I.rec(d).items)
            return ClassVal(name, [x for x in bases], attrs, "dynamic:" + name)
        return typeof(I, v)
    # type must be usable in isinstance(x, type)
    @B("getattr")
    def getattr_(o, name, *d):
        if isinstance(name, Term):
            raise Unsupported("getattr with a symbolic name")
        return I.getattr(o, name, *(d if d else ()))

    @B("hasattr")
    def hasattr_(o, name):
        try:
            I.getattr(o, name)
            return True
        except PyExc as e:
            if e.cls is b["AttributeError"]:
                return False
            raise

    @B("setattr")
    def setattr_(o, name, v):
        I.setattr(o, name, v)

    @B("delattr")
    def delattr_(o, name):
        del I.rec(o).attrs[name]

    @B("callable")
    def callable_(v):
        if isinstance(v, (Func, Bound, Builtin, ClassVal, BuiltinClass, Ext, CtxFactory)):
            return True
        if isinstance(v, Obj):
            return I.rec(v).cls.lookup("__call__") is not None
        return False

    @B("print")
    def print_(*a, **k):
        return None

    @B("iter")
    def iter_(v):
        if isinstance(v, Obj) and I.rec(v).cls.lookup("__iter__"):
            return iter_(I.call(Bound(I.rec(v).cls.lookup("__iter__"), v), [], {}))
        if isinstance(v, IterV):
            return v
        if isinstance(v, Gen):
            return IterV(I, list(I.parts(v)))
        return IterV(I, list(I.parts(v)))

    @B("next")
    def next_(it, *d):
        if isinstance(it, Gen):
            if not hasattr(it, "buf"):
                it.buf = IterV(I, list(I.parts(it)))
            it = it.buf
        if not isinstance(it, IterV):
            raise TE("not an iterator")
        vals = it.rest
        if not vals:
            if d:
                return d[0]
            raise PyExc(b["StopIteration"], ())
        p = vals[0]
        if p[0] == "comp" and I.none_of([p]) is not None:
            x = I.first_of(p)
            if x is None:
                it.rest = vals[1:]
                return next_(it, *d)
            it.rest = [x[1]] + list(vals[1:])
            return x[0]
        if p[0] != "one":
            raise Unsupported("next() on a symbolic sequence")
        it.rest = vals[1:]
        return p[1]

    @B("round")
    def round_(v, n=0):
        if isinstance(v, int):
            return v
        t = T.lift(v)
        if t.op == "num" and n == 0:
            return round(t.args[0])
        return T.fn("round", (T.toreal(t), T.lift(n)), "I" if n == 0 else "R")

    @B("id")
    def id_(v):
        return T.fresh("id", "I")

    @B("hash")
    def hash_(v):
        return T.fresh("hash", "I")

    @B("repr")
    def repr_(v):
        return T.fresh("repr", "S")

    @B("ord")
    def ord_(c):
        return ord(c)

    @B("chr")
    def chr_(c):
        return chr(c)

    @B("format")
    def format_(*a):
        return T.fresh("str", "S")

    @B("eval")
    def eval_(fr, args, kw):
        import ast
        src = args[0]
        if not isinstance(src, str):
            raise Unsupported("eval of a symbolic string")
        from .interp import Frame
        return I.ev(ast.parse(src, mode="eval").body, fr)

    @B("locals")
    def locals_(fr, args, kw):
        return I.alloc(DictRec(dict(I.heap[fr.env].vars)), Dict)

    @B("globals")
    def globals_(fr, args, kw):
        return I.alloc(DictRec(dict(I.heap[fr.module.env].vars)), Dict)

    @B("vars")
    def vars_(fr, args, kw):
        return I.alloc(DictRec(dict(I.rec(args[0]).attrs)), Dict)

    @B("open")
    def open_(*a, **k):
        if "open" in I.overrides_ext:
            return I.overrides_ext["open"](*a, **k)
        raise Unsupported("open()")

    @B("__import__")
    def import__(*a):
        raise Unsupported("__import__")

    @B("input")
    def input_(*a):
        raise Unsupported("input()")
    return b


class IterV(object):
    def __init__(self, I, parts):
        self.I, self.rest = I, parts


def sabs(I, x):
    if isinstance(x, bool) or isinstance(x, int):
        return abs(x)
    if isinstance(x, Cx):
        return T.sqrt(T.add(T.mul(x.re, x.re), T.mul(x.im, x.im)))
    if isinstance(x, Term) and x.sort in "IR":
        if x in (T.INF, T.NINF):
            return T.INF
        return T.absv(x)
    if hasattr(x, "np_abs"):
        return x.np_abs(I)
    raise PyExc(I.builtins["TypeError"], ("bad operand type for abs()",))


def fold_sum(I, it, start=0):
    """sum(): a fold, in order, over the elements"""
    acc = {"v": start}
    if isinstance(it, Arr) and it.ndim == 1 and not isinstance(it.shape[0], int):
        pass
    ps = I.parts(it)

    def add_part(v, ps):
        for p in ps:
            if p[0] == "one":
                v = I.binop("+", v, p[1])
            elif p[0] == "comp":
                k = T.fresh("k", "I")
                tot = add_part(0, p[3](k))
                v = I.binop("+", v, sum_over(I, k, p[1], p[2](k), tot))
            else:
                raise Unsupported("sum of loop-carried list")
        return v
    return add_part(start, ps)


def sum_over(I, k, n, g, v):
    """value  sum_{0<=k<n, g(k)} v(k)"""
    n = T.lift(n)
    if isinstance(v, (bool, int, Term)):
        t = T.lift(v)
        if t.sort == "B":
            t = T._b2i(t)
        return I.py(T.summ(k, 0, n, T.ite(g, t, T.num(0, t.sort))))
    if isinstance(v, Cx):
        z = T.num(0, "R")
        return Cx(T.summ(k, 0, n, T.ite(g, v.re, z)), T.summ(k, 0, n, T.ite(g, v.im, z)))
    if isinstance(v, Arr):
        f = I.freeze_arr(v)
        if any(k in T.fv(T.lift(s)) for s in v.shape):
            raise Unsupported("sum of arrays of varying shape")

        def at(idx):
            k2 = T.fresh("k", "I")
            e = f(idx)
            gg = g
            if isinstance(e, Cx):
                return Cx(sum1(k, n, gg, e.re), sum1(k, n, gg, e.im))
            return sum1(k, n, gg, T.lift(e))
        return I.new_arr(v.shape, at, v.dtype if v.dtype != "B" else "I", v.mat)
    raise Unsupported("sum of %r" % (v,))


def sum1(k, n, g, t):
    if t.sort == "B":
        t = T._b2i(t)
    return T.summ(k, 0, n, T.ite(g, t, T.num(0, t.sort)))


def sort_values(I, vals, key=None, reverse=False):
    import ast
    keys = vals if key is None else [I.call(key, [v], {}) for v in vals]
    # insertion sort with decisions (stable)
    out = []
    for v, kv in zip(vals, keys):
        pos = len(out)
        while pos > 0:
            c = I.scompare(ast.Lt, kv, out[pos - 1][1]) if not reverse else I.scompare(ast.Lt, out[pos - 1][1], kv)
            if c is True or (not isinstance(c, bool) and I.decide(T.lift(c))):
                pos -= 1
            else:
                break
        out.insert(pos, (v, kv))
    return [v for v, _ in out]


def typeof(I, v):
    b = I.builtins
    if isinstance(v, bool):
        return b["bool"]
    if isinstance(v, int):
        return b["int"]
    if isinstance(v, str):
        return b["str"]
    if isinstance(v, tuple):
        return b["tuple"]
    if isinstance(v, List):
        return b["list"]
    if isinstance(v, Dict):
        return b["dict"]
    if isinstance(v, Set):
        return b["set"]
    if isinstance(v, Cx):
        return b["complex"]
    if isinstance(v, Term):
        if v.sort == "I":
            return b["int"]
        if v.sort == "R":
            return b["float"]
        if v.sort == "B":
            return b["bool"]
        if v.sort == "S" and v.op == "var":
            return b["str"]
    if isinstance(v, Obj):
        return I.rec(v).cls
    if isinstance(v, SymObj) and I.heap[v.fam].cls is not None:
        return I.heap[v.fam].cls
    if isinstance(v, Arr):
        return I.npclass("ndarray")
    if isinstance(v, ClassVal):
        return b["type"]
    raise Unsupported("type of %r" % (v,))


def isinst(I, v, c):
    if isinstance(c, tuple):
        return any(isinst(I, v, x) for x in c)
    if c is None:
        raise PyExc(I.builtins["TypeError"], ())
    if isinstance(c, Ext):
        nm = c.name
        if hasattr(v, "isinst"):
            return v.isinst(nm)
        if isinstance(v, (bool, int, str, tuple, List, Dict, Set, Arr, Obj, Term, Cx)) or v is None:
            return False
        raise Unsupported("isinstance(%r, %s)" % (v, nm))
    if c is I.builtins.get("type"):
        return isinstance(v, (ClassVal, BuiltinClass))
    if isinstance(c, (ClassVal, BuiltinClass)):
        if c.name == "object":
            return True
        if v is None:
            return False
        if isinstance(c, BuiltinClass) and c.name.startswith("numpy."):
            nm = c.name[6:]
            if nm in ("ndarray",):
                return isinstance(v, Arr)
            if nm == "matrix":
                return isinstance(v, Arr) and v.mat
            if nm in ("integer", "int64", "int32", "int_"):
                return isinstance(v, Term) and v.sort == "I"
            if nm in ("floating", "float64", "float32", "number"):
                return isinstance(v, Term) and v.sort in "R"
            return False
        if isinstance(v, PyExc):
            return c in getattr(v.cls, "mro", [v.cls])
        if isinstance(v, (Module, Func, Bound, Builtin, Gen, Seq)) or hasattr(v, "isinst"):
            return False
        if isinstance(v, (ClassVal, BuiltinClass)):
            return False
        if isinstance(v, Term) and v.op == "none":
            return False
        t = typeof(I, v)
        return c in t.mro
    if isinstance(c, Builtin) and c.name == "type":
        return isinstance(v, (ClassVal, BuiltinClass))
    raise Unsupported("isinstance with %r" % (c,))


# -------------------------------------------------------------------- methods
def list_method(I, l, name):
    b = I.builtins

    def append(v):
        I.list_append(l, v)

    def extend(it):
        I.list_extend(l, it)

    def pop(i=-1):
        vals = I.rec(l).parts
        if not all(p[0] == "one" for p in vals):
            if i == -1 and vals and vals[-1][0] == "one":
                I.heap[l.id] = ListRec(vals[:-1])
                return vals[-1][1]
            raise Unsupported("pop from a symbolic list")
        if not vals:
            raise PyExc(b["IndexError"], ("pop from empty list",))
        vs = [p[1] for p in vals]
        if isinstance(i, Term):
            i = I.py(i)
        if not isinstance(i, int):
            raise Unsupported("pop at symbolic index")
        if not -len(vs) <= i < len(vs):
            raise PyExc(b["IndexError"], ("pop index out of range",))
        v = vs.pop(i)
        I.heap[l.id] = ListRec([("one", x) for x in vs])
        return v

    def insert(i, v):
        vs = list(I.rec(l).parts)
        if i != 0 and not all(p[0] == "one" for p in vs):
            raise Unsupported("insert into a symbolic list")
        vs.insert(i, ("one", v))
        I.heap[l.id] = ListRec(vs)

    def index(v, *rest):
        import ast
        for k, p in enumerate(I.rec(l).parts):
            if p[0] != "one":
                raise Unsupported("index in a symbolic list")
            c = I.scompare(ast.Eq, p[1], v)
            if c is True or (not isinstance(c, bool) and I.decide(T.lift(c))):
                return k
        raise PyExc(b["ValueError"], ("not in list",))

    def count(v):
        import ast
        tot = 0
        for p in I.rec(l).parts:
            if p[0] != "one":
                raise Unsupported("count in a symbolic list")
            c = I.scompare(ast.Eq, p[1], v)
            tot = I.binop("+", tot, int(c) if isinstance(c, bool) else T._b2i(T.lift(c)))
        return tot

    def remove(v):
        k = index(v)
        pop(k)

    def reverse():
        ps = I.rec(l).parts
        I.heap[l.id] = ListRec(I.parts(b["reversed"].f(l)))

    def sort(key=None, reverse=False):
        vals = I.concrete_list(l)
        I.heap[l.id] = ListRec([("one", v) for v in sort_values(I, vals, key, reverse)])

    def copy():
        return I.alloc(ListRec(I.rec(l).parts), List)

    def clear():
        I.heap[l.id] = ListRec(())
    m = dict(append=append, extend=extend, pop=pop, insert=insert, index=index, count=count,
             remove=remove, reverse=reverse, sort=sort, copy=copy, clear=clear,
             __len__=lambda: I.length(l), __iter__=lambda: l, __getitem__=lambda k: I.getitem(l, k),
             __setitem__=lambda k, v: I.setitem(l, k, v), __contains__=lambda v: I.contains(l, v))
    if name in m:
        return Builtin("list." + name, m[name])
    raise PyExc(b["AttributeError"], (name,))


def dict_method(I, d, name):
    b = I.builtins

    def concrete():
        r = I.rec(d)
        if r.sym is not None:
            raise Unsupported("%s of a symbolic dict" % name)
        return r.items

    def get(k, default=None):
        r = I.rec(d)
        if r.sym is not None or isinstance(k, Term) and k.op not in ("num", "str"):
            has = symdict_has(I, d, k)
            if I.decide(T.lift(has)):
                return symdict_get(I, d, k)
            return default
        return r.items.get(I.dkey(k), default)

    def setdefault(k, default=None):
        items = concrete()
        return items.setdefault(I.dkey(k), default)

    def pop(k, *dflt):
        items = concrete()
        k = I.dkey(k)
        if k in items:
            return items.pop(k)
        if dflt:
            return dflt[0]
        raise PyExc(b["KeyError"], (k,))

    def update(o=None, **kw):
        items = concrete()
        if o is not None:
            if isinstance(o, Dict):
                items.update(I.rec(o).items)
            else:
                for v in I.concrete_list(o):
                    k, x = I.unpack(v, 2)
                    items[I.dkey(k)] = x
        items.update(kw)
    m = dict(get=get, setdefault=setdefault, pop=pop, update=update,
             keys=lambda: I.newlist(list(concrete().keys())),
             values=lambda: I.newlist(list(concrete().values())),
             items=lambda: I.newlist([(k, v) for k, v in concrete().items()]),
             copy=lambda: I.alloc(DictRec(dict(concrete())), Dict),
             clear=lambda: concrete().clear(),
             iteritems=None)
    if m.get(name):
        return Builtin("dict." + name, m[name])
    raise PyExc(b["AttributeError"], (name,))


def set_method(I, s, name):
    import ast
    items = I.rec(s).items

    def add(v):
        for w in items:
            c = I.scompare(ast.Eq, v, w)
            if c is True or (not isinstance(c, bool) and I.decide(T.lift(c))):
                return
        items.append(v)
    m = dict(add=add, update=lambda it: [add(v) for v in I.concrete_list(it)] and None,
             union=lambda o: I.sbinop("|", s, o), difference=lambda o: I.sbinop("-", s, o),
             remove=lambda v: items.remove(v), discard=lambda v: items.remove(v) if v in items else None)
    if name in m:
        return Builtin("set." + name, m[name])
    raise PyExc(I.builtins["AttributeError"], (name,))


STR_OK = {"strip", "rstrip", "lstrip", "split", "startswith", "endswith", "join", "replace", "lower", "upper",
          "index", "find", "count", "isdigit", "title", "zfill", "splitlines", "format", "isalpha", "rsplit", "partition", "center", "ljust", "rjust", "capitalize", "isspace", "isnumeric"}


def str_method(I, s, name):
    if name not in STR_OK:
        raise PyExc(I.builtins["AttributeError"], (name,))

    def f(*a, **k):
        if name == "join":
            vals = I.concrete_list(a[0])
            if all(isinstance(v, str) for v in vals):
                return s.join(vals)
            if any(isinstance(v, Term) and v.sort == "S" for v in vals):
                return T.fresh("str", "S")
            raise PyExc(I.builtins["TypeError"], ("join",))
        if name == "format":
            if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
                return s.format(*a, **k)
            return T.fresh("str", "S")
        if not all(isinstance(x, (str, int, tuple)) or x is None for x in a):
            raise Unsupported("str.%s with symbolic arguments" % name)
        try:
            r = getattr(s, name)(*a, **k)
        except ValueError:
            raise PyExc(I.builtins["ValueError"], ())
        if isinstance(r, list):
            return I.newlist(r)
        return r
    return Builtin("str." + name, f)


def attr(I, o, name):
    AE = I.builtins["AttributeError"]
    if name in ("__getitem__", "__len__", "__contains__") and isinstance(o, (str, tuple, List, Dict, Arr)):
        if name == "__getitem__":
            return Builtin(name, lambda k: I.getitem(o, k))
        if name == "__len__":
            return Builtin(name, lambda: I.length(o))
        if not isinstance(o, Arr):
            return Builtin(name, lambda k: I.contains(o, k))
    if isinstance(o, str):
        return str_method(I, o, name)
    if isinstance(o, List):
        return list_method(I, o, name)
    if isinstance(o, Dict):
        return dict_method(I, o, name)
    if isinstance(o, Set):
        return set_method(I, o, name)
    if isinstance(o, Arr):
        from .npmodel import arr_attr
        return arr_attr(I, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return list_method(I, I.newlist(list(o)), "index")
        if name == "count":
            return list_method(I, I.newlist(list(o)), "count")
        raise PyExc(AE, (name,))
    if isinstance(o, SliceV):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    if isinstance(o, (Term, Cx, int, bool)) and not (isinstance(o, Term) and o.sort == "S"):
        from .npmodel import scalar_attr
        return scalar_attr(I, o, name)
    if isinstance(o, Term) and o.sort == "S":
        if name in STR_OK:
            return Builtin("str." + name, lambda *a, **k: T.fn("str." + name, (o,), "S") if name not in ("startswith", "endswith") else T.fn("str.%s.%s" % (name, a[0]), (o,), "B"))
        raise PyExc(AE, (name,))
    if isinstance(o, (Builtin, BuiltinClass)):
        if name == "__name__":
            return o.name
        if isinstance(o, BuiltinClass) and o.name == "dict" and name == "fromkeys":
            return Builtin("fromkeys", lambda ks, v=None: I.alloc(DictRec({I.dkey(k): v for k in I.concrete_list(ks)}), Dict))
        if isinstance(o, BuiltinClass) and o.name == "list":
            def unbound(self_, *a, **k):
                l = I.rec(self_).attrs["__list__"] if isinstance(self_, Obj) and "__list__" in I.rec(self_).attrs else self_
                if not isinstance(l, List):
                    raise PyExc(I.builtins["TypeError"], ("descriptor requires a list",))
                if name == "__init__":
                    if a:
                        I.list_extend(l, a[0])
                    return None
                return I.call(list_method(I, l, name), list(a), k)
            return Builtin("list." + name, unbound)
        if isinstance(o, BuiltinClass) and o.name == "object" and name in ("__init__", "__new__"):
            return Builtin(name, lambda *a, **k: None)
        if hasattr(o, "attrs") and name in o.attrs:
            return o.attrs[name]
        if isinstance(o, BuiltinClass) and o.name == "object" and name == "__setattr__":
            return Builtin(name, I.setattr)
        if isinstance(o, Builtin) and o.name == "ufunc":
            pass
        raise PyExc(AE, (name,))
    if isinstance(o, SliceV):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    if isinstance(o, Bound):
        if name == "__name__":
            return o.f.name
        if name == "__func__":
            return o.f
        if name == "__self__":
            return o.self_
    if isinstance(o, IterV):
        if name in ("next", "__next__"):
            return Builtin("next", lambda: I.builtins["next"].f(o))
    if hasattr(o, "np_getattr"):
        return o.np_getattr(I, name)
    if o is None or isinstance(o, Gen) or isinstance(o, Seq):
        raise PyExc(AE, ("NoneType" if o is None else type(o).__name__, name))
    raise PyExc(AE, ("%r has no %s" % (o, name),))


# -------------------------------------------------------------------- symbolic maps
def symdict_has(I, d, k):
    r = I.rec(d)
    key = T.lift(k)
    out = T.FALSE
    for kk in r.items:
        out = T.or_(out, T.eq(key, T.lift(kk)) if not isinstance(kk, tuple) else T.FALSE)
    if r.sym is not None:
        out = T.or_(out, r.sym[0](key))
    return out


def symdict_get(I, d, k):
    r = I.rec(d)
    key = T.lift(k)
    has = symdict_has(I, d, k)
    if not I.decide(has):
        raise PyExc(I.builtins["KeyError"], (k,))
    v = r.sym[1](key) if r.sym is not None else None
    first = r.sym is None
    for kk, vv in r.items.items():
        c = T.eq(key, T.lift(kk))
        if c is T.FALSE:
            continue
        if first:
            v, first = vv, False
        else:
            v = I.vmerge(c, vv, v)
    return v


def symdict_set(I, d, k, v):
    r = I.rec(d)
    key = T.lift(k)
    items, sym = dict(r.items), r.sym
    # later writes win: fold the concrete items into the symbolic part first
    def dom(q):
        out = sym[0](q) if sym is not None else T.FALSE
        for kk in items:
            out = T.or_(out, T.eq(q, T.lift(kk)))
        return T.or_(T.eq(q, key), out)

    def get(q):
        c = T.eq(q, key)
        if c is T.TRUE:
            return v
        rest = None
        have = False
        if sym is not None:
            rest, have = sym[1](q), True
        for kk, vv in items.items():
            cc = T.eq(q, T.lift(kk))
            if cc is T.FALSE:
                continue
            rest = vv if not have else I.vmerge(cc, vv, rest)
            have = True
        if not have:
            return v
        if c is T.FALSE:
            return rest
        return I.vmerge(c, v, rest)
    I.heap[d.id] = DictRec({}, (dom, get))
