"""NumPy layer for symbolic runs.

Installs, into the globals of the (real, unmodified) viscid modules, a proxy
for ``np`` whose float arrays are object arrays of exact symbolic reals, plus
shadows for the builtins ``float`` / ``int`` / ``isinstance`` targets and a
numexpr stub.  The code that runs is /repo's own code.
"""
import builtins
import math
import numbers
import sys
import types
from fractions import Fraction

import numpy as np

from . import engine as E
from .engine import (SymInt, SymReal, SymBool, SymComplex, Sym, Unsupported, wrap, rv,
                     int_of, is_num)

numbers.Number.register(SymReal)
numbers.Number.register(SymInt)
numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)

F8 = np.dtype('f8')


_EX = {}


def exact(x):
    """element conversion: python/numpy float -> exact real"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        return E.const(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        r = _EX.get(f)
        if r is not None:
            return r
        if math.isfinite(f):
            r = _EX[f] = E.const(Fraction(f))
            return r
        return f
    if isinstance(x, (int, np.integer)):
        return E.const(int(x))
    if isinstance(x, Fraction):
        return E.const(x)
    return x


def real_of(x):
    """any numeric -> SymReal"""
    if isinstance(x, SymInt):
        return SymReal(E.z3.ToReal(x.t))
    if isinstance(x, SymBool):
        return real_of(x._n())
    return exact(x)


_real_of_arr = np.frompyfunc(real_of, 1, 1)


def _int_el(x):
    return int_of(x) if isinstance(x, Sym) else int(x)


class SymArray(np.ndarray):
    __array_priority__ = 2000.0

    @property
    def dtype(self):
        d = np.ndarray.dtype.__get__(self)
        if d != object:
            return d
        kind = _kind(self)
        return {'f': F8, 'i': np.dtype('i8'), 'b': np.dtype('?'), 'O': d, 'c': np.dtype('c16')}[kind]

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("set dtype")

    @property
    def real(self):
        if np.ndarray.dtype.__get__(self) == object and _kind(self) == 'c':
            return _ret(np.frompyfunc(lambda x: exact(x.real), 1, 1)(self.view(np.ndarray)), self.shape).view(SymArray)
        return self

    @property
    def imag(self):
        if np.ndarray.dtype.__get__(self) == object and _kind(self) == 'c':
            return _ret(np.frompyfunc(lambda x: exact(x.imag), 1, 1)(self.view(np.ndarray)), self.shape).view(SymArray)
        return zeros(self.shape)

    def astype(self, dtype, *a, **kw):
        if np.ndarray.dtype.__get__(self) != object:
            k = dt_kind(dtype) or 'f'
            if k == 'f':
                return symarr(np.ndarray.astype(self.view(np.ndarray), object))
            return np.ndarray.astype(self, _cleandt(dtype), *a, **kw)
        k = dt_kind(dtype) or 'f'
        if k == 'f':
            r = symarr(_real_of_arr(self.view(np.ndarray)))
            return _ret(r, self.shape)
        if k == 'c':
            if _kind(self) == 'c':
                return self
            raise Unsupported("complex")
        if k in 'iu':
            fl = [_int_el(x) for x in self.view(np.ndarray).ravel().tolist()]
            if any(isinstance(x, Sym) for x in fl):
                r = np.empty(len(fl), object)
                for i, x in enumerate(fl):
                    r[i] = x
                return r.reshape(self.shape).view(SymArray)
            return np.array(fl, dtype=_cleandt(dtype)).reshape(self.shape)
        if k == 'b':
            fl = [bool(x) for x in self.view(np.ndarray).ravel().tolist()]
            return np.array(fl, dtype='?').reshape(self.shape)
        if k == 'O':
            return self.copy()
        raise Unsupported("astype %s" % (dtype,))

    def view(self, *a, **kw):
        d = kw['dtype'] if 'dtype' in kw else (a[0] if a else None)
        if d is Float64P and np.ndarray.dtype.__get__(self) == object and _kind(self) == 'f':
            return np.ndarray.view(self)
        return np.ndarray.view(self, *a, **kw)

    def __getitem__(self, idx):
        return np.ndarray.__getitem__(self, _fix_idx(idx))

    def __setitem__(self, idx, val):
        if np.ndarray.dtype.__get__(self) == object:
            val = _to_objval(val)
        np.ndarray.__setitem__(self, _fix_idx(idx), val)

    def __array_wrap__(self, out, context=None):
        if context is not None:
            # an argument that is not an array but knows how to wrap results goes first, as with plain arrays
            for a in context[1]:
                if not isinstance(a, (np.ndarray, np.generic, Sym)) and hasattr(a, '__array_wrap__'):
                    return a.__array_wrap__(np.asarray(out).view(SymArray))
        if np.ndarray.ndim.__get__(out) == 0 and context is not None:
            return np.ndarray.__getitem__(out, ())
        return np.ndarray.__array_wrap__(self, out, context) if context is not None else np.ndarray.__array_wrap__(self, out)

    # array division by zero gives inf / nan
    def __truediv__(self, o):
        return _arrdiv(self, o)

    def __rtruediv__(self, o):
        return _arrdiv(o, self)

    def __itruediv__(self, o):
        self[...] = _arrdiv(self, o)
        return self

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported("round decimals")
        r = np.frompyfunc(lambda x: x.rint() if isinstance(x, Sym) else round(x), 1, 1)(self.view(np.ndarray))
        return _ret(np.asarray(r, dtype=object).view(SymArray), self.shape)

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def __reduce__(self):
        raise Unsupported("pickle of symbolic array")

    def __str__(self):
        return '<symarray %s>' % (self.shape,)
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def mean(self, axis=None, dtype=None, out=None, **kw):
        s = np.ndarray.sum(self, axis=axis, **kw)
        n = self.size if axis is None else (
            self.shape[axis] if not isinstance(axis, tuple) else int(np.prod([self.shape[i] for i in axis])))
        return s / n

    def std(self, *a, **kw):
        raise Unsupported("std")
    var = std

    def min(self, axis=None, out=None, **kw):
        return _extreme(self, axis, False)

    def max(self, axis=None, out=None, **kw):
        return _extreme(self, axis, True)


def _eldiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    a, b = float(a) if not isinstance(a, Fraction) else a, float(b) if not isinstance(b, Fraction) else b
    if b == 0:
        if a == 0 or a != a:
            return float('nan')
        return float('inf') if (a > 0) == (math.copysign(1, b) > 0) else float('-inf')
    return exact(a / b)


_eldiv_arr = np.frompyfunc(_eldiv, 2, 1)


def _arrdiv(a, b):
    e = E.ENG
    for x, y in ((a, b), (b, a)):
        if isinstance(x, np.ndarray) and not isinstance(y, (np.ndarray, np.generic, Sym)) and hasattr(y, '__array_wrap__'):
            r = _arrdiv(*((x, y.__array__()) if x is a else (y.__array__(), x)))
            return y.__array_wrap__(r)
    old = e.float_div if e else False
    if e:
        e.float_div = True
    try:
        if not (isinstance(a, (np.ndarray, list, tuple, Sym)) or is_num(a)) or \
                not (isinstance(b, (np.ndarray, list, tuple, Sym)) or is_num(b)):
            return NotImplemented
        p, q = (x.view(np.ndarray) if isinstance(x, np.ndarray) else
                (array(x).view(np.ndarray) if isinstance(x, (list, tuple)) else x) for x in (a, b))
        r = _eldiv_arr(p, q)
        if not isinstance(r, np.ndarray):
            return r
        return r.view(SymArray)
    finally:
        if e:
            e.float_div = old


def _extreme(a, axis, mx):
    if np.ndarray.dtype.__get__(a) != object:
        b = a.view(np.ndarray)
        return b.max(axis=axis) if mx else b.min(axis=axis)
    if axis is None:
        fl = a.view(np.ndarray).ravel().tolist()
        if not fl:
            raise ValueError("zero-size array to reduction operation")
        r = fl[0]
        for x in fl[1:]:
            r = sym_ext(r, x, mx)
        return r
    b = np.moveaxis(a.view(np.ndarray), axis, 0)
    r = b[0]
    for x in b[1:]:
        r = np.frompyfunc(lambda p, q: sym_ext(p, q, mx), 2, 1)(r, x)
    return np.asarray(r, dtype=object).view(SymArray)


def sym_ext(a, b, mx):
    """max / min without forking"""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return (max if mx else min)(a, b)
    for x in (a, b):
        if E._nonfinite(x):
            if math.isnan(x):
                return x
            o = b if x is a else a
            return x if (x > 0) == mx else o
    if E.eng().hints:
        a, b = E.eng().canon(a), E.eng().canon(b)
    ta, tb = E._both(E._coerce(a), E._coerce(b))
    if E.eng().reduce:      # keep terms rational
        return a if E.eng().branch(ta >= tb) == mx else b
    return wrap(E.z3.If(ta >= tb, ta, tb) if mx else E.z3.If(ta <= tb, ta, tb))


def _ret(r, shape):
    return r if isinstance(r, np.ndarray) else symarr(np.array(r, dtype=object)).reshape(shape)


def _fix_idx(idx):
    if isinstance(idx, tuple):
        return tuple(_fix_idx(i) for i in idx)
    if isinstance(idx, list) and any(isinstance(x, Sym) for x in idx):
        return [int(x) if isinstance(x, (SymInt,)) else x for x in idx]
    if isinstance(idx, SymArray) and np.ndarray.dtype.__get__(idx) == object:
        k = _kind(idx)
        if k == 'i':
            return np.array([int(x) for x in idx.ravel().tolist()], dtype='i8').reshape(idx.shape)
        if k == 'b':
            return np.array([bool(x) for x in idx.ravel().tolist()], dtype='?').reshape(idx.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(idx, SymBool):
        return bool(idx)
    return idx


def _to_objval(v):
    if isinstance(v, (float, np.floating)):
        return exact(v)
    if isinstance(v, np.ndarray):
        d = np.ndarray.dtype.__get__(v)
        if d.kind == 'f':
            return _exact_arr(v)
        if d.kind in 'iub':
            return v.astype(object) if not isinstance(v, SymArray) else np.asarray(v.view(np.ndarray).astype(object))
        return v
    if isinstance(v, (list, tuple)):
        return array(v)
    return v


_exact_fn = np.frompyfunc(exact, 1, 1)


def _exact_arr(a):
    r = _exact_fn(np.asarray(a).view(np.ndarray).astype(object))
    if not isinstance(r, np.ndarray):
        r0 = np.empty((), dtype=object)
        r0[()] = r
        r = r0
    return r.view(SymArray)


def symarr(a):
    """make a SymArray from object (or numeric) ndarray"""
    if isinstance(a, SymArray):
        return a
    if a.dtype.kind in 'f':
        return _exact_arr(a)
    return a.view(SymArray)


def _kind(a):
    k = 'b'
    fl = a.view(np.ndarray).ravel().tolist()
    if not fl:
        return 'f'
    for x in fl:
        if isinstance(x, (SymReal, float, Fraction, np.floating)):
            k = 'f'
        elif isinstance(x, (SymBool, bool, np.bool_)):
            pass
        elif isinstance(x, (SymComplex, complex, np.complexfloating)):
            return 'c'
        elif isinstance(x, (SymInt, int, np.integer)):
            k = 'i' if k == 'b' else k
        else:
            return 'O'
    return k


def has_sym(a):
    return any(isinstance(x, Sym) for x in a.view(np.ndarray).ravel().tolist())


# --------------------------------------------------------------- dtypes
class _MetaF(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or isinstance(o, SymReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float) or issubclass(c, SymReal)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class sfloat(metaclass=_MetaF):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return real_of(x)
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == F8:
            v = x.view(np.ndarray).ravel().tolist()[0]
            if isinstance(v, Sym):
                return sfloat(v)
        return builtins.float(x)


class _MetaI(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or isinstance(o, SymInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int) or issubclass(c, SymInt)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class sint(metaclass=_MetaI):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return int_of(x)
        if isinstance(x, np.ndarray) and x.size == 1 and isinstance(x, SymArray):
            v = x.view(np.ndarray).ravel().tolist()[0]
            if isinstance(v, Sym):
                return int_of(v)
            return builtins.int(v)
        return builtins.int(x, *a)


class _MetaC(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.complex) or isinstance(o, SymComplex)

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.complex, SymComplex))

    def __eq__(cls, o):
        return o is cls or o is builtins.complex

    def __hash__(cls):
        return hash(builtins.complex)


class scomplex(metaclass=_MetaC):
    def __new__(cls, *a):
        return a[0] if isinstance(a[0], SymComplex) else builtins.complex(*a)


def _cleandt(d):
    if d is scomplex or d is ComplexP:
        return np.dtype('c16')
    if d is sfloat or d is FloatingP or d is Float64P or d is Float32P:
        return F8
    if d is sint or d is IntegerP:
        return np.dtype('i8')
    if d is None:
        return None
    return np.dtype(d)


def dt_kind(d):
    if d is None:
        return None
    return _cleandt(d).kind


def _mkmeta(real, syms):
    class M(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or isinstance(o, syms)

        def __subclasscheck__(cls, c):
            return issubclass(c, real) or issubclass(c, syms)

        def __call__(cls, x=0.0):
            if isinstance(x, Sym):
                return real_of(x) if real is not np.integer else int_of(x)
            if isinstance(x, np.ndarray) and isinstance(x, SymArray):
                return x.astype('f8')
            return real(x)

        def __getattr__(cls, n):
            return getattr(real, n)
    return M('P_' + real.__name__, (), {})


FloatingP = _mkmeta(np.floating, (SymReal,))
IntegerP = _mkmeta(np.integer, (SymInt,))
NumberP = _mkmeta(np.number, (SymReal, SymInt))
ComplexP = _mkmeta(np.complexfloating, (SymComplex,))
Float64P = _mkmeta(np.float64, (SymReal,))
Float32P = _mkmeta(np.float32, (SymReal,))


# ------------------------------------------------------- array creation
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    k = dt_kind(dtype)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        a = a.view(SymArray)
    elif isinstance(x, SymArray):
        a = x
    elif isinstance(x, np.ndarray):
        if x.dtype.kind == 'f' and k in (None, 'f'):
            return _nd(_exact_arr(x), ndmin)
        return np.array(x, dtype=_cleandt(dtype), copy=copy, order=order, ndmin=ndmin)
    elif hasattr(x, '__array__') and not isinstance(x, type):
        d = x.__array__()
        return array(d, dtype=dtype, copy=copy, ndmin=ndmin)
    else:
        if k is not None and k not in 'fiubO':
            return np.array(x, dtype=_cleandt(dtype), copy=copy, order=order, ndmin=ndmin)
        a = _from_seq(x)
        if a is None:
            return np.array(x, dtype=_cleandt(dtype), copy=copy, order=order, ndmin=ndmin)
        copy = False
    d = np.ndarray.dtype.__get__(a)
    if k is None:
        if d == object and isinstance(a, SymArray):
            kk = _kind(a)
            if kk == 'i' and not has_sym(a):
                a = np.array(a.tolist(), dtype='i8').reshape(a.shape)
        elif d.kind == 'f':
            a = _exact_arr(a)
    elif k == 'f':
        if d != object:
            a = _exact_arr(a.astype('f8'))
            copy = False
        elif _kind(a) != 'f':
            a = a.view(SymArray).astype('f8')
            copy = False
    elif k in 'iub':
        if isinstance(a, SymArray):
            a = a.astype(dtype)
        else:
            a = np.array(a, dtype=_cleandt(dtype))
        copy = False
    elif k == 'O':
        pass
    else:
        raise Unsupported("array dtype %r" % (dtype,))
    if copy:
        a = a.copy(order='K' if order in (None, 'K', 'A') else order)
    elif order in ('C', 'F'):
        a = np.asanyarray(a, order=order)
    return _nd(a, ndmin)


def _nd(a, ndmin):
    while a.ndim < ndmin:
        a = a[np.newaxis]
    return a


def _from_seq(x):
    """nested sequences -> ndarray (SymArray when it holds symbolic or float)"""
    if isinstance(x, (str, bytes)) or x is None:
        return None
    if isinstance(x, (float, int, bool, np.number)):
        return np.array(x)
    try:
        if isinstance(x, (list, tuple)) and any(isinstance(e, np.ndarray) or
                                                hasattr(e, '__array__') for e in x):
            x = [np.asanyarray(e.__array__() if not isinstance(e, np.ndarray) else e)
                 if hasattr(e, '__array__') and not isinstance(e, (np.generic,)) else e for e in x]
            if any(isinstance(e, SymArray) and np.ndarray.dtype.__get__(e) == object for e in x):
                x = [np.ndarray.tolist(e.view(np.ndarray)) if isinstance(e, np.ndarray) else e for e in x]
        elif isinstance(x, (list, tuple)):
            x = [_deep(e) for e in x]
        with np.testing.suppress_warnings() as sup:
            sup.filter(np.VisibleDeprecationWarning)
            a = np.array(x)
    except Unsupported:
        raise
    if a.dtype == object:
        if a.size and not has_sym(a):
            return None
        return a.view(SymArray)
    if a.dtype.kind in 'fiub':
        return a
    return None


def _deep(e):
    if isinstance(e, (list, tuple)):
        return [_deep(i) for i in e]
    if isinstance(e, SymArray):
        return e.tolist()
    return e


def asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, SymArray) and np.ndarray.dtype.__get__(x) == object and \
            dt_kind(dtype) in (None, 'f', 'O') and (_kind(x) == 'f' or dtype is None):
        return x if order in (None, 'K', 'A') else np.asanyarray(x, order=order)
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind != 'f':
        if dt_kind(dtype) != 'f':
            return np.asarray(x, dtype=_cleandt(dtype), order=order)
    return array(x, dtype=dtype, copy=False, order=order or 'K')


def ascontiguousarray(x, dtype=None):
    a = asarray(x, dtype=dtype)
    return np.asanyarray(a, order='C') if a.ndim else a.reshape(1)


def _shape(s):
    if isinstance(s, (Sym, int, np.integer)):
        return (int(s),)
    return tuple(int(i) for i in s)


INT_SYM = False     # integer arrays made by the code hold symbolic integers


def empty(shape, dtype=float, order='C', **kw):
    if INT_SYM and dt_kind(dtype) in ('i', 'u'):
        return np.zeros(_shape(shape), dtype='i8', order=order).astype(object).view(SymArray)
    if dt_kind(dtype) in (None, 'f'):
        a = np.empty(_shape(shape), dtype=object, order=order)
        f = a.reshape(-1)
        v = None
        if E.ENG is not None:
            v = [SymReal(E.ENG.fresh('r', 'uninit')) for _ in range(f.size)]
        it = np.nditer(a, flags=['multi_index', 'refs_ok', 'zerosize_ok'])
        for i, _ in enumerate(it):
            a[it.multi_index] = v[i] if v else 0.0
        return a.view(SymArray)
    return np.empty(_shape(shape), dtype=_cleandt(dtype), order=order)


def full(shape, val, dtype=None, order='C', **kw):
    if dt_kind(dtype) == 'f' or (dtype is None and (
            isinstance(val, (Sym, float, np.floating)) or isinstance(val, SymArray))):
        a = np.empty(_shape(shape), dtype=object, order=order)
        a[...] = exact(val) if not isinstance(val, np.ndarray) else val
        return a.view(SymArray)
    return np.full(_shape(shape), val, dtype=_cleandt(dtype), order=order)


def zeros(shape, dtype=float, order='C', **kw):
    if dt_kind(dtype) in (None, 'f'):
        return full(shape, 0.0, 'f8', order)
    if INT_SYM and dt_kind(dtype) in ('i', 'u'):
        return np.zeros(_shape(shape), dtype='i8', order=order).astype(object).view(SymArray)
    return np.zeros(_shape(shape), dtype=_cleandt(dtype), order=order)


def ones(shape, dtype=float, order='C', **kw):
    if dt_kind(dtype) in (None, 'f'):
        return full(shape, 1.0, 'f8', order)
    if INT_SYM and dt_kind(dtype) in ('i', 'u'):
        return np.ones(_shape(shape), dtype='i8', order=order).astype(object).view(SymArray)
    return np.ones(_shape(shape), dtype=_cleandt(dtype), order=order)


def _like(fn):
    def like(a, dtype=None, **kw):
        b = a if isinstance(a, np.ndarray) else asarray(a)
        d = dtype if dtype is not None else b.dtype
        if fn is empty and d == object:
            return np.empty_like(b)
        return fn(b.shape, dtype=d)
    return like


def full_like(a, val, dtype=None, **kw):
    b = asarray(a)
    return full(b.shape, val, dtype if dtype is not None else b.dtype)


def arange(*a, **kw):
    dtype = kw.get('dtype')
    if dt_kind(dtype) == 'f' or any(isinstance(x, (float, SymReal, np.floating)) for x in a):
        if len(a) == 1:
            start, stop, step = 0, a[0], 1
        else:
            start, stop, step = a[0], a[1], (a[2] if len(a) > 2 else 1)
        n = (exact(stop) - exact(start)) / exact(step)
        n = int(n.__ceil__())
        return array([exact(start) + i * exact(step) for i in range(max(n, 0))], dtype='f8') \
            if n > 0 else empty((0,))
    a = [int(x) if isinstance(x, Sym) else x for x in a]
    if dtype is not None:
        kw['dtype'] = _cleandt(dtype)
    return np.arange(*a, **kw)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if num < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % num)
    arr = any(isinstance(x, (np.ndarray, list, tuple)) for x in (start, stop))
    div = (num - 1) if endpoint else num
    if arr:
        start, stop = asarray(start, 'f8'), asarray(stop, 'f8')
        delta = stop - start
    else:
        start, stop = real_of(_scalar(start)), real_of(_scalar(stop))
        delta = stop - start
    rows = []
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            rows.append(stop)
        elif div > 0:
            rows.append(start + delta * Fraction(i, div))
        else:
            rows.append(start + delta * 0)
    step = delta / div if div > 0 else float('nan')
    if arr:
        r = np.array([x.tolist() for x in rows], dtype=object).view(SymArray) if rows else empty((0,) + start.shape)
        if axis not in (0,):
            r = np.moveaxis(r, 0, axis)
    else:
        r = np.empty(num, dtype=object)
        for i, x in enumerate(rows):
            r[i] = x
        r = r.view(SymArray)
    if dt_kind(dtype) in ('i', 'u'):
        r = np.floor(r).astype(dtype)
    return (r, step) if retstep else r


def _scalar(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.view(np.ndarray)[()]
    return x


def eye(n, m=None, k=0, dtype=float, **kw):
    return asarray(np.eye(int(n), m, k), dtype=dtype)


# -------------------------------------------------------- functions
def _is_close(a, b, rtol=1e-5, atol=1e-8):
    for x in (a, b):
        if E._nonfinite(x):
            return (not isinstance(a, Sym) and not isinstance(b, Sym)) and a == b
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return bool(np.isclose(float(a), float(b), rtol, atol))
    return abs(a - b) <= exact(atol) + exact(rtol) * abs(b)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarray(a), asarray(b)
    r = np.frompyfunc(lambda x, y: bool(_is_close(x, y, rtol, atol)), 2, 1)(
        a.view(np.ndarray), b.view(np.ndarray))
    return np.asarray(r).astype(bool) if isinstance(r, np.ndarray) else r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol)))


def _elem(fn, out='?'):
    def f(x, *a, **kw):
        if isinstance(x, Sym):
            return fn(x)
        if isinstance(x, (list, tuple)):
            x = asarray(x)
        if isinstance(x, SymArray) and np.ndarray.dtype.__get__(x) == object:
            r = np.frompyfunc(fn, 1, 1)(x.view(np.ndarray))
            if not isinstance(r, np.ndarray):
                return r
            return r.astype(out) if out else r.view(SymArray)
        return None
    return f


_isnan_e = _elem(lambda e: isinstance(e, float) and math.isnan(e))
_isinf_e = _elem(lambda e: isinstance(e, float) and math.isinf(e))
_isfin_e = _elem(lambda e: not (isinstance(e, float) and not math.isfinite(e)))


def isnan(x):
    r = _isnan_e(x)
    return np.isnan(x) if r is None else r


def isinf(x):
    r = _isinf_e(x)
    return np.isinf(x) if r is None else r


def isfinite(x):
    r = _isfin_e(x)
    return np.isfinite(x) if r is None else r


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = asarray(a), asarray(b)
    if not (isinstance(a, SymArray) or isinstance(b, SymArray)):
        return np.cross(a, b, axisa, axisb, axisc)
    a = np.moveaxis(a, axisa, -1)
    b = np.moveaxis(b, axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross of 2-vectors")
    c = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
         a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
         a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
    c = np.stack([np.asarray(x, dtype=object) for x in c], axis=-1).view(SymArray)
    return np.moveaxis(c, -1, axisc) if c.ndim > 1 else c


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if not isinstance(x, SymArray):
        return np.linalg.norm(x, ord, axis, keepdims)
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    s = np.sum(x * x, axis=axis, keepdims=keepdims)
    if isinstance(s, np.ndarray):
        return np.sqrt(s)
    return E.sym_sqrt(s)


def det(a):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.linalg.det(a)
    n = a.shape[-1]
    if n == 2:
        return a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
    if n == 3:
        return (a[..., 0, 0] * (a[..., 1, 1] * a[..., 2, 2] - a[..., 1, 2] * a[..., 2, 1]) -
                a[..., 0, 1] * (a[..., 1, 0] * a[..., 2, 2] - a[..., 1, 2] * a[..., 2, 0]) +
                a[..., 0, 2] * (a[..., 1, 0] * a[..., 2, 1] - a[..., 1, 1] * a[..., 2, 0]))
    raise Unsupported("det")


def interp(x, xp, fp, left=None, right=None, period=None):
    """np.interp for ascending xp"""
    x, xp, fp = asarray(x), asarray(xp), asarray(fp)
    if not any(isinstance(i, SymArray) for i in (x, xp, fp)):
        return np.interp(x, xp, fp, left, right, period)
    n = len(xp)

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v >= xp[n - 1]):
            if bool(v > xp[n - 1]):
                return fp[n - 1] if right is None else right
            return fp[n - 1]
        for i in range(n - 1):
            if bool(v < xp[i + 1]):
                break
        return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
    if x.ndim == 0:
        return one(_scalar(x))
    return array([one(v) for v in x.ravel()]).reshape(x.shape)


def insert(arr, obj, values, axis=None):
    arr = asarray(arr)
    if not isinstance(arr, SymArray):
        return np.insert(arr, obj, values, axis)
    b = arr.view(np.ndarray)
    return np.insert(b, obj, np.asarray(values, dtype=object) if not isinstance(values, np.ndarray)
                     else values.view(np.ndarray), axis).view(SymArray)


def clip(a, lo, hi, out=None, **kw):
    r = asarray(a) if isinstance(a, (list, tuple)) else a
    if not isinstance(r, (SymArray, Sym)) and not any(isinstance(x, (Sym, SymArray)) for x in (lo, hi)):
        return np.clip(a, lo, hi, out=out, **kw)
    f = r
    if lo is not None:
        f = maximum(f, lo)
    if hi is not None:
        f = minimum(f, hi)
    if out is not None:
        out[...] = f
        return out
    return f


def maximum(a, b, **kw):
    r = np.frompyfunc(lambda p, q: sym_ext(p, q, True), 2, 1)(_u(a), _u(b))
    return r.view(SymArray) if isinstance(r, np.ndarray) and has_sym(r) else (
        np.maximum(a, b) if not isinstance(r, Sym) else r)


def minimum(a, b, **kw):
    r = np.frompyfunc(lambda p, q: sym_ext(p, q, False), 2, 1)(_u(a), _u(b))
    return r.view(SymArray) if isinstance(r, np.ndarray) and has_sym(r) else (
        np.minimum(a, b) if not isinstance(r, Sym) else r)


def _u(a):
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    return a.view(np.ndarray) if isinstance(a, SymArray) else a


def amax(a, axis=None, **kw):
    a = asarray(a)
    return a.max(axis=axis)


def amin(a, axis=None, **kw):
    a = asarray(a)
    return a.min(axis=axis)


def sabs(x, *a, **kw):
    if isinstance(x, (Sym, Masked)):
        return abs(x)
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    return np.abs(x, *a, **kw)


def _unary(name):
    rf = getattr(np, name)

    def f(x, *a, **kw):
        if isinstance(x, Sym):
            return getattr(real_of(x), name)()
        if isinstance(x, (list, tuple)):
            x = asarray(x)
        if hasattr(x, '__array__') and not isinstance(x, (np.ndarray, np.generic)):
            return rf(x, *a, **kw)
        if isinstance(x, (int, float, np.number)) and not isinstance(x, bool):
            if name in ('sin', 'cos', 'tan', 'sqrt', 'arccos', 'arcsin'):
                return getattr(exact(float(x)), name)() if math.isfinite(x) else rf(x)
        return rf(x, *a, **kw)
    return f


def arctan2(y, x, *a, **kw):
    if isinstance(y, Sym) or isinstance(x, Sym):
        if not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray):
            return E.eng().arctan2(real_of(y), real_of(x))
    y = asarray(y) if isinstance(y, (list, tuple)) else y
    x = asarray(x) if isinstance(x, (list, tuple)) else x
    if any(isinstance(v, np.ndarray) and np.ndarray.dtype.__get__(v) == object for v in (y, x)):
        def one(v, u):
            if isinstance(v, Sym) or isinstance(u, Sym):
                return E.eng().arctan2(real_of(v), real_of(u))
            return math.atan2(v, u)
        if a or kw:
            raise Unsupported('arctan2 with out= or where=')
        yy, xx = np.broadcast_arrays(*[v.view(np.ndarray) if isinstance(v, np.ndarray) else np.asarray(v, dtype=object) for v in (y, x)])
        out = np.empty(yy.shape, dtype=object)
        for i in np.ndindex(*yy.shape):
            out[i] = one(yy[i], xx[i])
        return symarr(out)
    return np.arctan2(y, x, *a, **kw)


def sign(x, *a, **kw):
    def one(v):
        if isinstance(v, Sym):
            return real_of(1 if bool(v > 0) else (-1 if bool(v < 0) else 0)) if isinstance(v, SymReal) \
                else (1 if bool(v > 0) else (-1 if bool(v < 0) else 0))
        return float(np.sign(v))
    if isinstance(x, Sym):
        return one(x)
    if isinstance(x, SymArray) and np.ndarray.dtype.__get__(x) == object:
        r = np.frompyfunc(one, 1, 1)(x.view(np.ndarray))
        return r.view(SymArray) if isinstance(r, np.ndarray) else r
    return np.sign(x, *a, **kw)


def sround(x, decimals=0, out=None):
    if isinstance(x, Sym):
        return x.rint() if not decimals else x.__round__(decimals)
    if isinstance(x, SymArray):
        return x.round(decimals)
    return np.round(x, decimals)


def argmin(a, axis=None, **kw):
    if isinstance(a, Masked):
        return a.argmin()
    a = asarray(a)
    return np.argmin(a.view(np.ndarray), axis=axis, **kw)


def argmax(a, axis=None, **kw):
    if isinstance(a, Masked):
        return a.argmax()
    a = asarray(a)
    return np.argmax(a.view(np.ndarray), axis=axis, **kw)


def issubdtype(a, b):
    if b is FloatingP:
        b = np.floating
    if b is IntegerP:
        b = np.integer
    if b is NumberP:
        b = np.number
    if isinstance(a, type) and a in (SymReal, sfloat):
        a = np.float64
    if isinstance(a, type) and a in (SymInt, sint):
        a = np.int64
    return np.issubdtype(a, b)


def finfo(d):
    if isinstance(d, Sym) or d is SymReal or d is sfloat or isinstance(d, SymArray):
        return np.finfo('f8')
    return np.finfo(_cleandt(d) if isinstance(d, type) else d)


class _MetaDtype(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.dtype)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.dtype)

    def __call__(cls, d, *a, **kw):
        if isinstance(d, type) and d in (SymReal, sfloat):
            return F8
        if isinstance(d, type) and d in (SymInt, sint):
            return np.dtype('i8')
        return np.dtype(d, *a, **kw)


class dtype_(metaclass=_MetaDtype):
    pass



def mean(a, axis=None, **kw):
    a = asarray(a)
    return a.mean(axis=axis)


def average(a, axis=None, weights=None, **kw):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.average(a, axis, weights, **kw)
    if weights is None:
        return a.mean(axis=axis)
    w = asarray(weights)
    return np.sum(a * w, axis=axis) / np.sum(w)


def common_type(*a):
    return np.float64


def result_type(*a):
    return np.result_type(*[F8 if isinstance(x, (SymArray, SymReal)) else x for x in a])


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def searchsorted(a, v, side='left', sorter=None):
    a = asarray(a)

    def one(x):
        n = 0
        for e in a.tolist():
            if bool(e < x) if side == 'left' else bool(e <= x):
                n += 1
            else:
                break
        return n
    v = asarray(v)
    if v.ndim == 0:
        return one(_scalar(v))
    return np.array([one(x) for x in v.ravel()], dtype='i8').reshape(v.shape)


def fromstring(s, dtype=float, sep='', count=-1):
    return np.fromstring(s, dtype=_cleandt(dtype), sep=sep, count=count)


def fsum(a, axis=None, *args, **kw):
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    return np.sum(a, axis, *args, **kw)


def _seqwrap(name):
    rf = getattr(np, name)

    def f(seq, *a, **kw):
        kw.pop('dtype', None) if dt_kind(kw.get('dtype')) == 'f' else None
        if isinstance(seq, np.ndarray):
            return rf(seq, *a, **kw)
        seq = [asarray(s) for s in seq]
        r = rf(seq, *a, **kw)
        if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
            r = r.view(SymArray)
        return r
    return f


def _argwrap(name):
    rf = getattr(np, name)

    def f(*args, **kw):
        args = [asarray(a) if isinstance(a, (list, tuple)) and i == 0 else a
                for i, a in enumerate(args)]
        return rf(*args, **kw)
    return f


def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    r = np.dot(a.view(np.ndarray), b.view(np.ndarray))
    if isinstance(r, np.ndarray):
        return symarr(r)
    return r


def matmul(a, b, **kw):
    a, b = asarray(a), asarray(b)
    r = np.matmul(a.view(np.ndarray), b.view(np.ndarray))
    return symarr(r) if isinstance(r, np.ndarray) else r


def _einsum(expr, ops):
    if '.' in expr or '->' not in expr:
        raise Unsupported('einsum ' + expr)
    ins, out = expr.split('->')
    ins = ins.split(',')
    size = {}
    for sub, o in zip(ins, ops):
        if len(sub) != o.ndim:
            raise ValueError('einstein sum subscripts do not match the operand')
        for c, n in zip(sub, o.shape):
            if size.get(c, 1) != 1 and n != 1 and size[c] != n:
                raise ValueError('operands could not be broadcast together')
            size[c] = max(size.get(c, 1), n) if n else 0
    rest = [c for c in size if c not in out]
    r = np.empty([size[c] for c in out], dtype=object)
    for io in np.ndindex(*r.shape):
        at = dict(zip(out, io))
        tot = 0
        for ir in np.ndindex(*[size[c] for c in rest]):
            at.update(zip(rest, ir))
            t = 1
            for sub, o in zip(ins, ops):
                t = t * o[tuple(at[c] if n > 1 else 0 for c, n in zip(sub, o.shape))]
            tot = tot + t
        r[io] = tot
    return symarr(r) if r.ndim else r[()]


def einsum(expr, *ops, **kw):
    if not isinstance(expr, str):
        raise Unsupported("einsum form")
    ops = [asarray(o) for o in ops]
    if any(isinstance(o, SymArray) or np.ndarray.dtype.__get__(o) == object for o in ops):
        return _einsum(expr.replace(' ', ''), [np.asarray(o.view(np.ndarray), dtype=object) for o in ops])
    return np.einsum(expr, *ops, **kw)


def where(cond, *a):
    if isinstance(cond, SymArray) and np.ndarray.dtype.__get__(cond) == object:
        cond = cond.astype('?')
    if isinstance(cond, SymBool):
        cond = bool(cond)
    if not a:
        return np.where(cond)
    a = [asarray(x) if isinstance(x, (Sym, float, list, tuple)) or hasattr(x, '__array__') else x for x in a]
    r = np.where(cond, *[x.view(np.ndarray) if isinstance(x, SymArray) else x for x in a])
    return r.view(SymArray) if r.dtype == object else r


def choose(a, choices, out=None, mode='raise'):
    ch = [asarray(c) for c in choices]
    if any(isinstance(c, SymArray) for c in ch):
        a = np.asarray(a)
        sh = np.broadcast_shapes(a.shape, *[c.shape for c in ch])
        A = np.broadcast_to(a, sh)
        C = [np.broadcast_to(c.view(np.ndarray), sh) for c in ch]
        r = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            r[i] = C[int(A[i])][i]
        r = r.view(SymArray)
        if out is not None:
            out[...] = r
            return out
        return r
    return np.choose(a, ch, out=out, mode=mode)


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if x is None:
        d = dx
    else:
        x = asarray(x)
        d = np.diff(x) if x.ndim == 1 else np.diff(x, axis=axis)
        if x.ndim == 1:
            sh = [1] * y.ndim
            sh[axis] = d.shape[0]
            d = d.reshape(sh)
    nd = y.ndim
    s1 = [slice(None)] * nd
    s2 = [slice(None)] * nd
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    return np.sum(d * (y[tuple(s1)] + y[tuple(s2)]) / 2, axis=axis)


class _Linalg(object):
    norm = staticmethod(norm)
    det = staticmethod(det)

    @staticmethod
    def eig(A):
        """eigenvalues and vectors of a matrix with orthonormal eigenvectors that the harness knows (engine
        attribute eig_basis: (vectors, values)), confirmed here, in any order and with any signs; vectors of
        a repeated value are those of the hint"""
        if not isinstance(A, SymArray):
            return np.linalg.eig(A)
        e = E.eng()
        M = A.view(np.ndarray)
        n = len(M)
        for vs, a in getattr(e, 'eig_basis', []):
            if all(e.is_zero(sum(M[i, j] * v[j] for j in range(n)) - x * v[i]) for v, x in zip(vs, a) for i in range(n)):
                W, V = np.empty(n, dtype=object), np.empty((n, n), dtype=object)
                left = list(range(n))
                for k in range(n):
                    pick = 0
                    while pick < len(left) - 1 and bool(wrap(e.z3bool('eigorder'))):
                        pick += 1
                    q = left.pop(pick)
                    sg = -1 if bool(wrap(e.z3bool('eigsign'))) else 1
                    W[k] = exact(a[q])
                    for i in range(n):
                        V[i, k] = exact(sg * vs[q][i])
                return W.view(SymArray), V.view(SymArray)
        raise Unsupported('eigenvectors of an unknown matrix')

    @staticmethod
    def eigh(A):
        """eigenvalues (ascending) and vectors of symmetric matrices a v v' + b 1, with v, a, b known to the
        harness (engine attribute eig_hints: (v, a, b), v of unit length) and confirmed here; anything else
        gives arbitrary eigenvectors.  Like LAPACK it reads the lower triangle only."""
        if not isinstance(A, SymArray):
            return np.linalg.eigh(A)
        e = E.eng()
        sh = A.shape
        n = sh[-1]
        M = A.view(np.ndarray).reshape(-1, n, n)
        W = np.empty((len(M), n), dtype=object)
        V = np.empty((len(M), n, n), dtype=object)
        for k, m in enumerate(M):
            hit = None
            for v, a, b in getattr(e, 'eig_hints', []):
                if len(v) == n and all(e.is_zero(m[i, j] - a * v[i] * v[j] - (b if i == j else 0))
                                       for i in range(n) for j in range(i + 1)):
                    hit = (v, a, b)
            for i in range(n):
                W[k, i] = wrap(e.fresh('r', 'eigval'))
                for j in range(n):
                    V[k, i, j] = wrap(e.fresh('r', 'eigvec'))
            if hit:
                v, a, b = hit
                top = n - 1 if a > 0 else 0
                for i in range(n):
                    W[k, i] = exact(b)
                W[k, top] = exact(a + b)
                sg = 1 if bool(wrap(e.z3bool('eigsign'))) else -1
                for i in range(n):
                    V[k, i, top] = sg * v[i]
        return W.reshape(sh[:-1]).view(SymArray), V.reshape(sh).view(SymArray)

    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **kw):
            if any(isinstance(x, SymArray) for x in a):
                raise Unsupported("linalg." + n)
            return f(*a, **kw)
        return g


class Masked(object):
    """masked symbolic array: data and a concrete mask (decided by the solver)"""

    def __init__(self, data, mask):
        self.data = data
        self.mask = mask

    def __abs__(self):
        return Masked(abs(self.data), self.mask)

    @property
    def shape(self):
        return self.data.shape

    @property
    def size(self):
        return self.data.size

    def count(self):
        return int((~self.mask).sum())

    def argmin(self, mx=False):
        best = None
        fl = self.data.ravel().tolist()
        for i, v in enumerate(fl):
            if self.mask.ravel()[i]:
                continue
            if best is None or (bool(v > fl[best]) if mx else bool(v < fl[best])):
                best = i
        return np.int64(0 if best is None else best)

    def argmax(self):
        return self.argmin(True)


class _MA(object):
    def __getattr__(self, n):
        return getattr(np.ma, n)

    @staticmethod
    def _mk(op, name):
        def f(x, value, copy=True):
            x = x if isinstance(x, Masked) else asarray(x)
            d = x.data if isinstance(x, Masked) else x
            if not isinstance(d, SymArray):
                return getattr(np.ma, name)(x, value)
            m = np.array([bool(op(v, value)) for v in d.ravel().tolist()], dtype=bool).reshape(d.shape)
            if isinstance(x, Masked):
                m = m | x.mask
            return Masked(d, m)
        return f

    def masked_values(self, x, value, *a, **k):
        if isinstance(x, np.ma.MaskedArray):
            x = x.data
        x = asarray(x)
        if not isinstance(x, SymArray):
            return np.ma.masked_values(x, value, *a, **k)
        m = np.array([bool(_is_close(v, value)) for v in x.ravel().tolist()], dtype=bool).reshape(x.shape)
        if not m.any():
            return x
        return np.ma.masked_array(x.view(np.ndarray), mask=m)

    @staticmethod
    def count(x, *a):
        return x.count() if isinstance(x, Masked) else np.ma.count(x, *a)


MA = _MA()
for _n, _f in (('masked_less', lambda a, b: a < b), ('masked_greater', lambda a, b: a > b),
               ('masked_less_equal', lambda a, b: a <= b), ('masked_greater_equal', lambda a, b: a >= b),
               ('masked_equal', lambda a, b: a == b), ('masked_not_equal', lambda a, b: a != b)):
    setattr(MA, _n, _MA._mk(_f, _n))


class NP(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        d = self.__dict__
        d.update(array=array, asarray=asarray, asanyarray=asarray, copy=lambda a, *x, **k: array(a, copy=True),
                 ascontiguousarray=ascontiguousarray, empty=empty, zeros=zeros,
                 ones=ones, full=full, empty_like=_like(empty), zeros_like=_like(zeros),
                 ones_like=_like(ones), full_like=full_like, arange=arange,
                 linspace=linspace, eye=eye, isclose=isclose, allclose=allclose,
                 isnan=isnan, isinf=isinf, isfinite=isfinite, cross=cross,
                 linalg=_Linalg(), interp=interp, insert=insert, clip=clip,
                 maximum=maximum, minimum=minimum, max=amax, min=amin, amax=amax,
                 amin=amin, abs=sabs, absolute=sabs, fabs=sabs, arctan2=arctan2, sign=sign,
                 round=sround, around=sround, argmin=argmin, argmax=argmax,
                 issubdtype=issubdtype, finfo=finfo, dtype=dtype_, mean=mean,
                 average=average, common_type=common_type, result_type=result_type,
                 array_equal=array_equal, searchsorted=searchsorted,
                 fromstring=fromstring, sum=fsum, dot=dot, matmul=matmul,
                 einsum=einsum, where=where, choose=choose, trapz=trapz,
                 complex=scomplex, complexfloating=ComplexP, ma=MA,
                 float=sfloat, int=sint,
                 floating=FloatingP, integer=IntegerP, number=NumberP,
                 float64=Float64P, float32=Float32P, double=Float64P)
        for n in ('concatenate', 'vstack', 'hstack', 'stack', 'dstack', 'column_stack'):
            d[n] = _seqwrap(n)
        for n in ('sqrt', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'deg2rad', 'rad2deg',
                  'radians', 'degrees', 'floor', 'ceil', 'rint'):
            d[n] = _unary(n)
        for n in ('prod', 'cumsum', 'diff', 'atleast_2d', 'transpose', 'tile',
                  'repeat', 'roll', 'reshape', 'squeeze', 'ravel', 'argsort', 'sort',
                  'any', 'all', 'diag', 'expand_dims', 'atleast_1d', 'atleast_3d', 'swapaxes'):
            d[n] = _argwrap(n)

    def __getattr__(self, n):
        return getattr(np, n)


SNP = NP()


# ------------------------------------------------------------- numexpr
class NumexprStub(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numexpr')
        self.__version__ = '2.8'

    @staticmethod
    def evaluate(ex, local_dict=None, global_dict=None, **kw):
        fr = sys._getframe(1)
        ns = dict(sqrt=SNP.sqrt, sin=SNP.sin, cos=SNP.cos, tan=SNP.tan, where=where,
                  arctan2=arctan2, arccos=SNP.arccos, arcsin=SNP.arcsin, abs=sabs)
        if local_dict is None:
            ns2 = dict(fr.f_globals)
            ns2.update(ns)
            ns2.update(fr.f_locals)
        else:
            ns2 = dict(ns)
            if global_dict is not None:
                ns2.update(global_dict)
            else:
                ns2.update({k: v for k, v in fr.f_globals.items() if k not in ns2})
            ns2.update(local_dict)
        for k in ns:
            ns2.setdefault(k, ns[k])
        code = compile(ex, '<numexpr>', 'eval')
        ns2 = {k: ns2[k] for k in code.co_names if k in ns2}
        for k, v in ns2.items():
            if hasattr(v, '__array__') and not isinstance(v, (np.ndarray, np.generic, type)):
                try:
                    ns2[k] = v.__array__()
                except Exception:
                    pass
        # constants become exact arrays / reals
        for c in __import__('ast').walk(__import__('ast').parse(ex, mode='eval')):
            if type(c).__name__ == 'Call' and c.func.id not in ns:
                raise TypeError("'VariableNode' object is not callable")
        r = eval(code, {'__builtins__': {}}, ns2)
        return asarray(r) if not isinstance(r, np.ndarray) else r

    @staticmethod
    def set_num_threads(n):
        return 1

    @staticmethod
    def set_vml_num_threads(n):
        return 1


NE = NumexprStub()


def srange(*a):
    return range(*[int(x) if isinstance(x, Sym) else x for x in a])


class SMath(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, Sym) for x in a):
                if n in ('sqrt', 'sin', 'cos', 'tan'):
                    return getattr(real_of(a[0]), n)()
                if n in ('acos', 'asin'):
                    return getattr(E.eng(), 'arc' + n[1:])(real_of(a[0]))
                if n == 'atan2':
                    return arctan2(*a)
                if n == 'ceil':
                    return a[0].__ceil__()
                if n == 'floor':
                    return a[0].__floor__()
                if n == 'fabs':
                    return abs(a[0])
                if n == 'isnan':
                    return False
                if n == 'radians':
                    return a[0].deg2rad()
                if n == 'degrees':
                    return a[0].rad2deg()
                raise Unsupported("math." + n)
            return f(*a)
        return g


SM = SMath()


def install(extra=None):
    """inject the shims into all loaded viscid modules (symbolic process only)"""
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == 'viscid' or name.startswith('viscid.')):
            continue
        inject(mod)


def inject(mod):
    d = mod.__dict__
    for k, v in list(d.items()):
        if v is np:
            d[k] = SNP
        elif v is math:
            d[k] = SM
        elif isinstance(v, types.ModuleType) and v.__name__ == 'numexpr':
            d[k] = NE
    d.setdefault('float', sfloat)
    d.setdefault('int', sint)
    d.setdefault('complex', scomplex)
