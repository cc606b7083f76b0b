"""numpy.ma by its documented meaning: data and mask kept side by side.  Division masks the elements whose denominator
is zero and keeps the numerator as their data; reductions skip masked elements; assigning a masked array to an ordinary
one takes its data.  In-place changes of masked arrays are not supported."""
from . import terms as T
from .values import Arr, Builtin, Module, Unsupported, PyExc


def false(i):
    return T.FALSE


class Masked(object):
    def __init__(self, data, mask=None, zeroed=False):
        self.data, self.mask, self.zeroed = data, mask, zeroed

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    def isinst(self, nm):
        return nm in ("ndarray", "MaskedArray")

    def np_asarray(self, I):
        return self.data

    def masks(self, I, sh):
        if self.mask is None:
            return false
        g = I.bcast_fn(self.mask, sh)
        return lambda i: I.cond(g(i))

    def np_binop(self, I, op, a, b):
        if op == "neg":
            f = I.freeze_arr(self.data)
            m = self.masks(I, self.shape)
            return Masked(I.new_arr(self.shape, lambda i: T.ite(m(i), T.lift(f(i)), T.lift(I.sneg(f(i)))), self.data.dtype), self.mask)
        A, B = [x if isinstance(x, Masked) else Masked(I.as_arr(x)) for x in (a, b)]
        sh = I.bcast_shape([A.shape, B.shape])
        if not sh:
            raise Unsupported("masked scalar")
        ma, mb = A.masks(I, sh), B.masks(I, sh)
        extra = false
        if op in ("+", "-", "*"):
            r = I.arr_binop(op, A.data, B.data)
        elif op == "/":
            fa, fb = I.bcast_fn(A.data, sh), I.bcast_fn(B.data, sh)

            def zero(i):
                d = T.toreal(T.lift(fb(i)))
                return T.eq(d, T.num(0, "R"))
            extra = zero
            # the quotient of a masked element is never formed: its data is the numerator
            # the numerators of masked elements are often zero themselves
            idx = tuple(T.fresh("i", "I") for _ in sh)
            from . import prover as P
            rng = [T.and_(T.le(0, i), T.lt(i, T.lift(n))) for i, n in zip(idx, sh)]
            try:
                nil = P.holds(T.eq(T.toreal(T.lift(fa(idx))), T.num(0, "R")), list(I.pc) + rng + [zero(idx)], 1, numeric=False).status == "proved"
            except Unsupported:
                nil = False

            def quot(i):
                a, z = T.num(0, "R") if nil else T.toreal(T.lift(fa(i))), zero(i)
                if nil:
                    return a if z is T.TRUE else T.ite(z, a, T.div(T.toreal(T.lift(fa(i))), T.toreal(T.lift(fb(i)))))
                return a if z is T.TRUE else T.ite(z, a, T.div(a, T.toreal(T.lift(fb(i)))))
            r = I.new_arr(sh, quot, "R")
        elif op == "**":
            e = b
            if isinstance(b, Masked) or isinstance(b, Arr) or not T.lift(b).op == "num" or not T.lift(b).args[0] > 0:
                raise Unsupported("power of masked arrays")
            idx = tuple(T.fresh("i", "I") for _ in sh)
            v = I.elem(A.data, idx)
            from . import prover as P
            rng = [T.and_(T.le(0, i), T.lt(i, T.lift(n))) for i, n in zip(idx, sh)]
            if T.lift(b).args[0].denominator != 1:
                r0 = P.holds(T.le(T.num(0, "R"), T.toreal(T.lift(v))), list(I.pc) + rng, 1)
                if r0.status != "proved":
                    raise Unsupported("power of masked array whose base may be negative")
            r = I.arr_binop("**", A.data, e)
        else:
            raise Unsupported("masked operator " + op)
        none = A.mask is None and B.mask is None and extra is false
        # masked elements keep the data of the first operand
        if not none and op in ("+", "-", "*") and (A.mask is not None or B.mask is not None):
            f, fa = I.freeze_arr(r), I.bcast_fn(A.data, sh)
            r = I.new_arr(sh, lambda i: T.ite(T.or_(ma(i), mb(i)), T.lift(fa(i)), T.lift(f(i))), r.dtype)
        return Masked(r, None if none else I.new_arr(sh, lambda i: T.or_(ma(i), mb(i), extra(i)), "B"))

    def both(self, I, f):
        return Masked(f(self.data), None if self.mask is None else f(self.mask), self.zeroed)

    def np_getitem(self, I, k):
        if isinstance(k, Masked):
            raise Unsupported("masked index")
        r = self.both(I, lambda a: I.getitem(a, k))
        if not isinstance(r.data, Arr):
            raise Unsupported("masked scalar")
        return r

    def np_parts(self, I):
        n = I.const_int(T.lift(self.shape[0]))
        if not isinstance(n, int):
            raise Unsupported("iteration over a masked array of symbolic length")
        return tuple(("one", self.np_getitem(I, i)) for i in range(n))

    def filled(self, I, v=None):
        if v is None:
            raise Unsupported("default fill value")
        if self.mask is None:
            return I.copy_arr(self.data)
        f, m = I.freeze_arr(self.data), I.freeze_arr(self.mask)
        z = T.lift(v)
        if self.zeroed and z.op == "num" and z.args[0] == 0:
            return I.copy_arr(self.data)
        return I.new_arr(self.shape, lambda i: T.ite(I.cond(m(i)), T.toreal(z), T.toreal(T.lift(f(i)))), "R")

    def reduce(self, I, axis=None, **kw):
        from .npmodel import np_sum, np_quant
        if kw:
            raise Unsupported("sum(%s)" % ", ".join(kw))
        if self.mask is None:
            d = np_sum(I, self.data, axis)
            return Masked(d) if isinstance(d, Arr) else d
        d = np_sum(I, self.filled(I, 0), axis)
        if not isinstance(d, Arr):
            raise Unsupported("total of a masked array")
        # all elements of a sum masked: masked, with data 0
        return Masked(d, np_quant(I, self.mask, axis, False), True)

    def np_getattr(self, I, name):
        def meth(f):
            return Builtin("MaskedArray." + name, f)
        if name in ("shape", "ndim", "size", "dtype"):
            return I.getattr(self.data, name)
        if name == "T":
            return self.both(I, lambda a: I.getattr(a, "T"))
        if name in ("transpose", "reshape", "ravel", "flatten", "copy", "swapaxes"):
            return meth(lambda *p, **kw: self.both(I, lambda a: I.call(I.getattr(a, name), list(p), kw)))
        if name == "data":
            return self.data
        if name == "filled":
            return meth(lambda fill_value=None: self.filled(I, fill_value))
        if name == "sum":
            return meth(lambda axis=None, **kw: self.reduce(I, axis, **kw))
        raise Unsupported("masked array attribute " + name)


def module(I):
    def array(data, dtype=None, copy=False, mask=None):
        if isinstance(data, Masked):
            return data
        m = None if mask is None or mask is False else I.as_arr(mask, "B")
        return Masked(I.as_arr(data, copy=True), m)

    def filled(a, fill_value=None):
        return a.filled(I, fill_value) if isinstance(a, Masked) else I.as_arr(a)

    def total(a, axis=None, **kw):
        return a.reduce(I, axis, **kw) if isinstance(a, Masked) else I.call(I.getattr(I.as_arr(a), "sum"), [axis])
    ext = dict(array=array, asarray=lambda a: array(a), asanyarray=lambda a: array(a), filled=filled, sum=total,
               masked_array=array)
    return Module("numpy.ma", {k: Builtin("np.ma." + k, v) for k, v in ext.items()})
