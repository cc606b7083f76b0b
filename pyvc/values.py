"""Runtime values of the symbolic interpreter."""
from . import terms as T
from .terms import Term


class Unsupported(Exception):
    """the construct is outside the verified subset: the obligation is undecided"""


class PyExc(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, cls, args=()):
        Exception.__init__(self, "%s%r" % (cls, args))
        self.cls, self.pargs = cls, args


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Infeasible(Exception):
    """the current path condition is contradictory"""


class Cx(object):
    """complex number re + i im of terms"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = T.toreal(T.lift(re)), T.toreal(T.lift(im))

    def __repr__(self):
        return "Cx(%r,%r)" % (self.re, self.im)


def is_zero_const(t):
    return isinstance(t, Term) and t.op == "num" and t.args[0] == 0


class Func(object):
    """interpreted function"""
    def __init__(self, name, node, env, module, defaults, kwdefaults, qual, cls=None, isgen=False):
        self.name, self.node, self.env, self.module = name, node, env, module
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls
        self.isgen = isgen
        self.attrs = {}

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound(object):
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Builtin(object):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<builtin %s>" % self.name


class ClassVal(object):
    def __init__(self, name, bases, attrs, qual):
        self.name, self.bases, self.attrs, self.qual = name, bases, attrs, qual
        mro = [self]
        for b in bases:
            for c in (b.mro if isinstance(b, ClassVal) else [b]):
                if c not in mro:
                    mro.append(c)
        self.mro = mro

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassVal) and name in c.attrs:
                return c.attrs[name]
        return None

    def builtin_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassVal)]

    def __repr__(self):
        return "<class %s>" % self.name


class BuiltinClass(object):
    """list, dict, object, float, exceptions ..."""
    def __init__(self, name, f=None, bases=()):
        self.name, self.f, self.bases = name, f, bases
        mro = [self]
        for b in bases:
            for c in b.mro:
                if c not in mro:
                    mro.append(c)
        self.mro = mro

    def __repr__(self):
        return "<class %s>" % self.name


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClassMethod(object):
    def __init__(self, f):
        self.f = f


class StaticMethod(object):
    def __init__(self, f):
        self.f = f


class CtxFactory(object):
    """@contextmanager generator function"""
    def __init__(self, f):
        self.f = f


class Gen(object):
    """a started-on-iteration generator (call of a generator function or genexp)"""
    def __init__(self, run):
        self.run = run       # run(hook): executes body, calling hook(value) at each yield


class Module(object):
    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = {} if attrs is None else attrs

    def __repr__(self):
        return "<module %s>" % self.name


class Ext(object):
    """attribute of an unmodelled external module"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class Ref(object):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return type(o) is type(self) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self).__name__, self.id))


class List(Ref):
    def __repr__(self): return "List#%d" % self.id


class Dict(Ref):
    def __repr__(self): return "Dict#%d" % self.id


class Set(Ref):
    def __repr__(self): return "Set#%d" % self.id


class Obj(Ref):
    """instance of an interpreted class; heap record ObjRec"""
    def __repr__(self): return "Obj#%d" % self.id


class SymObj(object):
    """element `idx` of a symbolic family of objects; fields live in heap record FamRec"""
    __slots__ = ("fam", "idx")

    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx

    def __repr__(self):
        return "SymObj(%s,%r)" % (self.fam, self.idx)

    def __eq__(self, o):
        return isinstance(o, SymObj) and o.fam == self.fam and T.lift(o.idx) is T.lift(self.idx)

    def __hash__(self):
        return hash(("symobj", self.fam))


# heap records ------------------------------------------------------------------
class EnvRec(object):
    def __init__(self, vars=None, parent=None):
        self.vars = vars if vars is not None else {}
        self.parent = parent

    def copy(self):
        return EnvRec(dict(self.vars), self.parent)


class ListRec(object):
    def __init__(self, parts):
        self.parts = tuple(parts)

    def copy(self):
        return ListRec(self.parts)


class DictRec(object):
    def __init__(self, items=None, sym=None):
        self.items = items if items is not None else {}
        self.sym = sym          # symbolic map: (dom(key)->B, get(key)->value) or None

    def copy(self):
        return DictRec(dict(self.items), self.sym)


class SetRec(object):
    def __init__(self, items):
        self.items = list(items)

    def copy(self):
        return SetRec(self.items)


class ObjRec(object):
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def copy(self):
        return ObjRec(self.cls, dict(self.attrs))


class FamRec(object):
    def __init__(self, name, cls, fields, methods=None):
        self.name, self.cls, self.fields = name, cls, fields   # field -> callable(idx)->value
        self.methods = methods or {}                           # contracts of the methods of the objects

    def copy(self):
        return FamRec(self.name, self.cls, dict(self.fields), self.methods)


PCKEY = [lambda: ()]


class BufRec(object):
    """array buffer: shape (ints/terms), fn(idx tuple)->Term|Cx|object, dtype in I R B C O S"""
    def __init__(self, shape, fn, dtype):
        self.shape, self.dtype = tuple(shape), dtype
        self.cache = {}
        self.raw = fn

    def copy(self):
        return self            # immutable: writes replace the record

    def fn(self, idx):
        # an axis of length one has the single index 0
        k0 = tuple(T.num(0) if isinstance(n, int) and n == 1 else i if isinstance(i, Term) else T.num(i) for i, n in zip(idx, self.shape)) \
            if len(idx) == len(self.shape) else tuple(i if isinstance(i, Term) else T.num(i) for i in idx)
        k = (k0, PCKEY[0]())        # element functions may use the path condition
        r = self.cache.get(k)
        if r is None:
            r = self.raw(k0)
            if not isinstance(r, (Cx,)) and isinstance(r, (int, bool)) :
                r = T.lift(r)
            self.cache[k] = r
        return r


class Arr(object):
    """view on a buffer.  spec: per buffer axis ('fix', e) | ('ax', view axis, start, step) or None (read only)"""
    __slots__ = ("bid", "shape", "vmap", "spec", "dtype", "mat", "masked")

    def __init__(self, bid, shape, vmap, spec, dtype, mat=False):
        self.bid, self.shape, self.vmap, self.spec, self.dtype, self.mat = bid, tuple(shape), vmap, spec, dtype, mat
        self.masked = False

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return "Arr#%d%s" % (self.bid, self.shape)


class Seq(object):
    """an iterable given by parts:
       ('one', value) | ('comp', n, cond(i), parts(i))   for 0 <= i < n"""
    def __init__(self, parts):
        self.parts = tuple(parts)


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
