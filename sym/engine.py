"""Symbolic execution engine for real Python code.

The code under test is executed as is; inputs are proxy objects carrying Z3
terms.  Every branch on a symbolic condition is decided by the solver: both
outcomes that are feasible are explored (by re-execution with a recorded
decision prefix), and every checked assertion is discharged by the solver for
all values of the inputs on that path.

Model: Python ints are mathematical integers, floats are exact reals.
"""
import math
import operator
import signal
import sys
import os
import time
from fractions import Fraction

_Z3P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _import_z3():
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    import importlib.util
    import os
    # load only z3 from the tooling venv (do not expose its numpy etc.)
    for pkg in ('z3',):
        d = os.path.join(_Z3P, pkg)
        spec = importlib.util.spec_from_file_location(
            pkg, os.path.join(d, '__init__.py'), submodule_search_locations=[d])
        mod = importlib.util.module_from_spec(spec)
        sys.modules[pkg] = mod
        try:
            spec.loader.exec_module(mod)
        except ImportError:
            sys.path.append(_Z3P)
            try:
                spec.loader.exec_module(mod)
            finally:
                sys.path.remove(_Z3P)
    return sys.modules['z3']


z3 = _import_z3()


class PathAbort(BaseException):
    """infeasible / cut path"""


class Unsupported(BaseException):
    """operation the engine cannot represent"""


class Budget(BaseException):
    pass


class PathTimeout(BaseException):
    pass


class CheckFailed(BaseException):
    """raised in concrete mode when a check fails"""


ENG = None      # current engine (symbolic mode)


def eng():
    if ENG is None:
        raise Unsupported("symbolic value used outside a run")
    return ENG


# ----------------------------------------------------------------- numbers
_DEG = {math.pi / 180: Fraction(math.pi) / 180, 180 / math.pi: 180 / Fraction(math.pi)}


def frac(x):
    """python / numpy number -> Fraction (exact)"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float) and abs(x) in _DEG:      # a degree, unrounded
        return _DEG[abs(x)] * (1 if x > 0 else -1)
    return Fraction(float(x)) if not hasattr(x, 'item') else frac(x.item())


def is_num(x):
    if isinstance(x, (int, float, Fraction)):
        return True
    import numpy as np
    return isinstance(x, (np.number, np.bool_))


def rv(x):
    f = frac(x)
    return z3.RealVal(str(f.numerator)) if f.denominator == 1 else \
        z3.Q(f.numerator, f.denominator)


def _nonfinite(x):
    try:
        return isinstance(x, float) and (math.isinf(x) or math.isnan(x)) or \
            (hasattr(x, 'dtype') and not isinstance(x, Sym) and getattr(x, 'ndim', 1) == 0
             and x.dtype.kind == 'f' and not math.isfinite(float(x)))
    except TypeError:
        return False


class Sym(object):
    __slots__ = ()
    # make numpy ufuncs with a scalar on the left go through object loops
    __array_priority__ = 1000.0


def _coerce(x):
    """to z3 term or None"""
    if isinstance(x, (SymReal, SymInt)):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return rv(x)
    if isinstance(x, float):
        return rv(x)
    import numpy as np
    if isinstance(x, (np.integer, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, np.floating):
        return rv(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _coerce(x.item())
    return None


def wrap(t):
    t = z3.simplify(t)
    if z3.is_bool(t):
        return SymBool(t)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return t.as_long()
        return SymInt(t)
    return SymReal(t)


def _num(t):
    """concrete value of literal term, or None"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def _isarr(o):
    import numpy as np
    return isinstance(o, np.ndarray) and o.ndim > 0


def _arrmap(op, s, arr):
    import numpy as np
    r = np.empty(arr.shape, dtype=object)
    b = arr.view(np.ndarray)
    for i in np.ndindex(*arr.shape):
        r[i] = op(s, b[i])
    from . import shim
    return r.view(shim.SymArray)


def _cval(x):
    """exact value of a finite concrete number, or None"""
    if type(x) is SymReal:
        return x.c
    if type(x) is float:
        return Fraction(x) if math.isfinite(x) else None
    if type(x) in (int, Fraction):
        return x
    return None


def const(c):
    """concrete real kept exactly; its solver term is made when needed"""
    return SymReal(None, c if type(c) is Fraction else Fraction(c))


def _binop(fn, rev=False, name=None, nonfin=None, cfn=None):
    def op(self, other):
        if cfn is not None and self.c is not None:
            oc = _cval(other)
            if oc is not None:
                r = cfn(oc, self.c) if rev else cfn(self.c, oc)
                if r is not None:
                    return const(r)
        if isinstance(other, complex):
            a, b = SymComplex.of(self), SymComplex.of(other)
            return a._arith(name, b, rev)
        if isinstance(other, SymComplex):
            return NotImplemented
        if _isarr(other):
            return _arrmap(op, self, other)
        if _nonfinite(other):
            return nonfin(self, float(other), rev) if nonfin else _nf_unsup()
        o = _coerce(other)
        if o is None:
            return NotImplemented
        return fn(o, self.t) if rev else fn(self.t, o)
    return op


def _nf_unsup():
    raise Unsupported("arithmetic with non-finite constant")


def _real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def _both(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return _real(a), _real(b)


def _norm(t):
    """with the case option norm: sums of monomials, so that terms cancel"""
    if eng().norm and z3.is_real(t):
        t = z3.simplify(t, som=True)
        v = _num(t)
        if v is not None:
            return const(v)
    return wrap(t)


def _add(a, b):
    a, b = _both(a, b)
    return _norm(a + b)


def _sub(a, b):
    a, b = _both(a, b)
    return _norm(a - b)


def _mul(a, b):
    a, b = _both(a, b)
    return _norm(a * b)


def _nonzero(b, what='division by zero'):
    """decide b != 0 on this path; returns False if zero"""
    v = _num(z3.simplify(b))
    if v is not None:
        return v != 0
    return eng().branch(z3.Not(b == (z3.IntVal(0) if z3.is_int(b) else z3.RealVal(0))))


def _truediv(a, b):
    a, b = _real(a), _real(b)
    if not _nonzero(b):
        if eng().float_div:        # C / numpy semantics: inf or nan
            return eng().div0(a)
        raise ZeroDivisionError("float division by zero")
    if eng().norm:
        return _norm(a / b)
    return SymReal(z3.simplify(a / b))


def _floordiv(a, b):
    if z3.is_int(a) and z3.is_int(b):
        if not _nonzero(b):
            raise ZeroDivisionError("integer division or modulo by zero")
        # python floor division from SMT-LIB div (euclidean)
        v = _num(z3.simplify(b))
        if v is not None and v > 0:
            return wrap(a / b)
        q = a / b
        return wrap(z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1)))
    a, b = _real(a), _real(b)
    if not _nonzero(b):
        if eng().float_div:
            return eng().div0(a)
        raise ZeroDivisionError("float floor division by zero")
    return SymReal(z3.ToReal(z3.ToInt(a / b)))


def _mod(a, b):
    q = _floordiv(a, b)
    qt = _coerce(q)
    a, b = _both(a, b)
    qt, b2 = _both(qt, b)
    a, m = _both(a, qt * b2)
    return wrap(a - m)


def _pow(a, b):
    v = _num(z3.simplify(b))
    if v is None:
        vb = _num(z3.simplify(a))
        raise Unsupported("symbolic exponent")
    v = Fraction(v)
    if v.denominator == 1:
        n = int(v)
        if n == 0:
            return 1 if z3.is_int(a) else SymReal(z3.RealVal(1))
        if n < 0:
            p = _pow(_real(a), z3.IntVal(-n))
            return _truediv(z3.RealVal(1), _coerce(p))
        r = a
        for _ in range(n - 1):
            r = r * a
        if z3.is_real(b):
            r = _real(r)
        return wrap(r)
    if v.denominator == 2:
        s = sym_sqrt(SymReal(_real(a)))
        n = v.numerator
        if isinstance(s, float):
            return s ** n
        return s ** n if n != 1 else s
    raise Unsupported("fractional power %s" % v)


def _cmp(fn, name):
    cfn = getattr(operator, name)

    def op(self, other):
        if eng() is not None and eng().hints:
            self = eng().canon(self)
            other = eng().canon(other)
        if self.c is not None:
            oc = _cval(other)
            if oc is not None:
                return cfn(self.c, oc)
        if _isarr(other):
            return _arrmap(op, self, other).astype(bool)
        if _nonfinite(other):
            o = float(other)
            return getattr(0.0, name)(o)
        o = _coerce(other)
        if o is None:
            return NotImplemented
        a, b = _both(self.t, o)
        return mkbool(fn(a, b))
    return op


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _nf_add(self, o, rev):
    return o


def _nf_sub(self, o, rev):
    return o if rev else -o


def _nf_mul(self, o, rev):
    if math.isnan(o):
        return o
    if bool(self > 0):
        return o
    if bool(self < 0):
        return -o
    return float('nan')


def _nf_div(self, o, rev):
    if math.isnan(o):
        return o
    if not rev:
        return 0.0
    return _nf_mul(self, o, rev)


def _cdiv(a, b):
    return Fraction(a) / b if b else None


class _Num(Sym):
    __slots__ = ()

    __add__ = _binop(_add, name='add', nonfin=_nf_add, cfn=operator.add)
    __radd__ = _binop(_add, True, name='add', nonfin=_nf_add, cfn=operator.add)
    __sub__ = _binop(_sub, name='sub', nonfin=_nf_sub, cfn=operator.sub)
    __rsub__ = _binop(_sub, True, name='sub', nonfin=_nf_sub, cfn=operator.sub)
    __mul__ = _binop(_mul, name='mul', nonfin=_nf_mul, cfn=operator.mul)
    __rmul__ = _binop(_mul, True, name='mul', nonfin=_nf_mul, cfn=operator.mul)
    __truediv__ = _binop(_truediv, nonfin=_nf_div, cfn=_cdiv)
    __rtruediv__ = _binop(_truediv, True, nonfin=_nf_div, cfn=_cdiv)
    __div__ = __truediv__
    __rdiv__ = __rtruediv__
    __floordiv__ = _binop(_floordiv)
    __rfloordiv__ = _binop(_floordiv, True)
    __mod__ = _binop(_mod)
    __rmod__ = _binop(_mod, True)
    __pow__ = _binop(_pow)
    __rpow__ = _binop(_pow, True)
    __lt__ = _cmp(lambda a, b: a < b, '__lt__')
    __le__ = _cmp(lambda a, b: a <= b, '__le__')
    __gt__ = _cmp(lambda a, b: a > b, '__gt__')
    __ge__ = _cmp(lambda a, b: a >= b, '__ge__')
    __eq__ = _cmp(lambda a, b: a == b, '__eq__')
    __ne__ = _cmp(lambda a, b: a != b, '__ne__')

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        if self.c is not None:
            return const(-self.c)
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return const(abs(self.c))
        if eng().abs_fork:
            return self if bool(self >= 0) else -self
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return bool(self != 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'

    # ---- numpy method protocol for object arrays
    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    def __getitem__(self, i):
        if i == ():
            return self
        raise IndexError('invalid index to scalar variable.')

    def item(self):
        return self

    def sqrt(self):
        return sym_sqrt(self)

    def sin(self):
        return eng().trig(self)[0]

    def cos(self):
        return eng().trig(self)[1]

    def tan(self):
        s, c = eng().trig(self)
        return s / c

    def arccos(self):
        return eng().arccos(self)

    def arcsin(self):
        return eng().arcsin(self)

    def arctan2(self, x):
        return eng().arctan2(self, x)

    def deg2rad(self):
        return self * Fraction(math.pi) / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / Fraction(math.pi)

    degrees = rad2deg

    def isnan(self):
        return False

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('f8' if isinstance(self, SymReal) else 'i8')

    def astype(self, d, *a, **k):
        import numpy as np
        from . import shim
        k = shim.dt_kind(d)
        if k == 'f':
            return shim.real_of(self)
        if k in ('i', 'u'):
            return int_of(self)
        if k == 'b':
            return bool(self)
        raise Unsupported("scalar astype %s" % (d,))

    def tolist(self):
        return self

    def copy(self):
        return self

    def reshape(self, *sh):
        from . import shim
        return shim.array(self).reshape(*sh)

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        return self.rint() if n is not None else int_of(self.rint())

    def round(self, n=0):
        return self.__round__(n)


class SymInt(_Num):
    __slots__ = ('t',)
    c = None

    def __init__(self, t):
        self.t = t

    def __index__(self):
        return eng().concretize(self.t)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def rint(self):
        return self

    def __and__(self, o):
        return self.__index__() & _ci(o)
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | _ci(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ _ci(o)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (2 ** _ci(o))

    def __rshift__(self, o):
        return self // (2 ** _ci(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return -self - 1

    def is_integer(self):
        return True


def _ci(o):
    return o.__index__()


class SymReal(_Num):
    __slots__ = ('_t', 'c')

    def __init__(self, t, c=None):
        self._t = t
        self.c = c

    @property
    def t(self):
        if self._t is None:
            self._t = rv(self.c)
        return self._t

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        v = _num(z3.simplify(self.t))
        if v is not None:
            return float(v)
        raise Unsupported("float() of symbolic real")

    def __int__(self):
        return int_of(self).__index__()

    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        v = _num(z3.simplify(self.t))
        if v is not None:
            return hash(v)
        raise Unsupported("hash of symbolic real")

    def __trunc__(self):
        if bool(self >= 0):
            return wrap(z3.ToInt(self.t))
        return wrap(-z3.ToInt(-self.t))

    def __floor__(self):
        return wrap(z3.ToInt(self.t))

    def __ceil__(self):
        return wrap(-z3.ToInt(-self.t))

    def floor(self):
        return wrap(z3.ToReal(z3.ToInt(self.t)))

    def ceil(self):
        return wrap(z3.ToReal(-z3.ToInt(-self.t)))

    def rint(self):
        f = z3.ToInt(self.t + z3.Q(1, 2))
        # half to even
        tie = z3.ToReal(f) == self.t + z3.Q(1, 2)
        return wrap(z3.ToReal(z3.If(z3.And(tie, f % 2 == 1), f - 1, f)))

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))


class SymComplex(Sym):
    """complex number with symbolic parts (only what value selections need)"""
    __slots__ = ('real', 'imag')
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, re, im):
        self.real = re
        self.imag = im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, complex):
            return SymComplex(x.real, x.imag)
        return SymComplex(x, 0)

    def _arith(self, name, o, rev):
        a, b = (o, self) if rev else (self, o)
        if name == 'add':
            return SymComplex(a.real + b.real, a.imag + b.imag)
        if name == 'sub':
            return SymComplex(a.real - b.real, a.imag - b.imag)
        if name == 'mul':
            def m(p, q):
                if not isinstance(p, Sym) and p == 0 or not isinstance(q, Sym) and q == 0:
                    return 0.0
                return p * q
            return SymComplex(m(a.real, b.real) - m(a.imag, b.imag),
                              m(a.real, b.imag) + m(a.imag, b.real))
        raise Unsupported("complex " + str(name))

    def _op(name, rev=False):
        def op(self, o):
            if isinstance(o, (SymComplex, complex, SymReal, SymInt)) or is_num(o):
                return self._arith(name, SymComplex.of(o), rev)
            return NotImplemented
        return op
    __add__, __radd__ = _op('add'), _op('add')
    __mul__, __rmul__ = _op('mul'), _op('mul')
    __sub__, __rsub__ = _op('sub'), _op('sub', True)

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __eq__(self, o):
        if not (isinstance(o, (complex, Sym)) or is_num(o)) or isinstance(o, bool):
            return False
        o = SymComplex.of(o)
        return bool(self.real == o.real) and bool(self.imag == o.imag)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.real, self.imag))

    def __repr__(self):
        return '<symc>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<symc>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('c16')


def int_of(x):
    if isinstance(x, SymReal):
        return x.__trunc__()
    if isinstance(x, SymBool):
        return wrap(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SymInt):
        return x
    return int(x)


def sym_sqrt(x):
    t = x.t if isinstance(x, _Num) else _coerce(x)
    return eng().sqrt(_real(t))


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __and__(self, o):
        o = boolterm(o)
        return NotImplemented if o is None else mkbool(z3.And(self.t, o))
    __rand__ = __and__

    def __or__(self, o):
        o = boolterm(o)
        return NotImplemented if o is None else mkbool(z3.Or(self.t, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = boolterm(o)
        return NotImplemented if o is None else mkbool(z3.Xor(self.t, o))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def logical_not(self):
        return mkbool(z3.Not(self.t))

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def __eq__(self, o):
        o = boolterm(o)
        return False if o is None else mkbool(self.t == o)

    def __ne__(self, o):
        o = boolterm(o)
        return True if o is None else mkbool(self.t != o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return wrap(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<symbool>'
    __str__ = __repr__


def boolterm(o):
    import numpy as np
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, (_Num,)):
        return o.t != 0
    if isinstance(o, (int, np.integer)) and o in (0, 1):
        return z3.BoolVal(bool(o))
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return boolterm(o.item())
    return None


# ------------------------------------------------------ rational normal form
class _NotRational(Exception):
    pass


_ONE = {(): Fraction(1)}
SLOWQ = float(os.environ.get('VERIF_SLOWQ', 0))


def _padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pmul(p, q):
    r = {}
    if len(p) * len(q) > 400000:
        raise _NotRational()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def ratnf(t, cache=None):
    """z3 arithmetic term -> (num, den) polynomials over atoms {mono: coef}"""
    if cache is None:
        cache = {'atoms': {}}
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    v = _num(t)
    if v is not None:
        r = ({(): Fraction(v)} if v else {}, _ONE)
    else:
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
            r = ratnf(ch[0], cache)
            for c in ch[1:]:
                n2, d2 = ratnf(c, cache)
                sg = 1 if d == z3.Z3_OP_ADD else -1
                if r[1] == d2:
                    r = (_padd(r[0], n2, sg), r[1])
                else:
                    r = (_padd(_pmul(r[0], d2), _pmul(n2, r[1]), sg), _pmul(r[1], d2))
        elif d == z3.Z3_OP_UMINUS:
            n, dd = ratnf(ch[0], cache)
            r = ({m: -c for m, c in n.items()}, dd)
        elif d == z3.Z3_OP_MUL:
            r = ratnf(ch[0], cache)
            for c in ch[1:]:
                n2, d2 = ratnf(c, cache)
                r = (_pmul(r[0], n2), _pmul(r[1], d2))
        elif d == z3.Z3_OP_DIV:
            n1, d1 = ratnf(ch[0], cache)
            n2, d2 = ratnf(ch[1], cache)
            if not n2:
                raise _NotRational()
            r = (_pmul(n1, d2), _pmul(d1, n2))
        elif d == z3.Z3_OP_POWER and _num(ch[1]) is not None and \
                Fraction(_num(ch[1])).denominator == 1 and _num(ch[1]) >= 0:
            n, dd = ratnf(ch[0], cache)
            r = (_ONE, _ONE)
            for _ in range(int(_num(ch[1]))):
                r = (_pmul(r[0], n), _pmul(r[1], dd))
        elif d == z3.Z3_OP_TO_REAL and z3.is_int(ch[0]):
            try:
                r = ratnf(ch[0], cache)
            except _NotRational:
                r = ({(k,): Fraction(1)}, _ONE)
                cache['atoms'][k] = t
        elif cache.get('defs') and not ch and t.decl().name() in cache['defs']:
            r = ratnf(cache['defs'][t.decl().name()], cache)
        else:
            cache['atoms'][k] = t
            r = ({(k,): Fraction(1)}, _ONE)
            if cache.get('rules') and k in cache['rules']:
                cache['used'].add(k)
        if cache.get('used'):
            r = reduced(r, cache)
    cache[k] = (t, r)   # keep t alive so ids stay unique
    return r


def _reduce_poly(p, a, rule):
    """replace a*a by the rational function of rule: (poly, power of the denominator)"""
    n, d = rule
    split, K = [], 0
    for m, c in p.items():
        j = m.count(a)
        if j >= 2:
            K = max(K, j // 2)
        split.append((m, c, j // 2))
    if not K:
        return p, 0
    groups = {}
    for m, c, k in split:
        if k:
            m2, left = [], 2 * k
            for x in m:
                if x == a and left:
                    left -= 1
                else:
                    m2.append(x)
            m = tuple(m2)
        g = groups.setdefault(k, {})
        v = g.get(m, 0) + c
        if v:
            g[m] = v
        else:
            g.pop(m, None)
    r = {}
    for k, g in groups.items():
        for _ in range(k):
            g = _pmul(g, n)
        if d != _ONE:
            for _ in range(K - k):
                g = _pmul(g, d)
        r = _padd(r, g)
    return r, K


def reduced(nd, cache):
    """apply the rules (square of an atom -> rational function), latest atom first"""
    n, d = nd
    for a in reversed(cache['order']):
        if a not in cache['used']:
            continue
        rule = cache['rules'][a]
        n, i = _reduce_poly(n, a, rule)
        d, j = _reduce_poly(d, a, rule)
        if rule[1] != _ONE:
            for _ in range(j - i):
                n = _pmul(n, rule[1])
            for _ in range(i - j):
                d = _pmul(d, rule[1])
    return n, d


def _poly_to_z3(p, atoms):
    if not p:
        return z3.RealVal(0)
    s = []
    for m, c in p.items():
        term = [rv(c)] if c != 1 or not m else []
        term += [_real(atoms[a]) for a in m]
        s.append(term[0] if len(term) == 1 else z3.Product(*term))
    return s[0] if len(s) == 1 else z3.Sum(*s)


def diff_normal(a, b):
    """(numerator term of a-b expanded, is_zero) or None"""
    try:
        cache = eng().nfcache if eng() is not None and eng().reduce else {'atoms': {}}
        n, d = ratnf(z3.simplify(_real(a) - _real(b)), cache)
        return _poly_to_z3(n, cache['atoms']), not n
    except (_NotRational, RecursionError):
        return None


def _fsqrt(f):
    f = Fraction(f)
    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    return Fraction(a, b) if a * a == f.numerator and b * b == f.denominator else None


def _pratio(p, q):
    """constant c with p == c*q, or None"""
    if not q or len(p) != len(q):
        return Fraction(0) if q and not p else None
    c = None
    for m, v in q.items():
        w = p.get(m)
        if w is None:
            return None
        if c is None:
            c = Fraction(w) / Fraction(v)
        elif w != c * v:
            return None
    return c


def _psqrt(p):
    """polynomial whose square is p, or None"""
    if not p:
        return {}
    key = lambda m: (len(m), m)

    def order(m):           # graded, then by exponents of the sorted atoms
        return (len(m), tuple(sorted(m, reverse=True)))
    lead = max(p, key=order)
    if any(lead.count(a) % 2 for a in set(lead)):
        return None
    c = _fsqrt(p[lead])
    if c is None:
        return None
    half = []
    for a in sorted(set(lead)):
        half += [a] * (lead.count(a) // 2)
    half = tuple(half)
    r = {half: c}
    for _ in range(200):
        rest = _padd(p, _pmul(r, r), -1)
        if not rest:
            return r
        m = max(rest, key=order)
        q = list(m)
        for a in half:
            if a not in q:
                return None
            q.remove(a)
        q = tuple(q)
        if q in r or order(q) >= order(half):
            return None
        r[q] = Fraction(rest[m]) / (2 * c)
    return None


# ----------------------------------------------------------------- engine
class Stats(object):
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.discharged = 0
        self.checks = 0
        self.unknown = 0
        self.unsupported = 0
        self.completed = 0
        self.reached = {}
        self.notes = []

    def merge(self, o):
        self.paths += o.paths
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.discharged += o.discharged
        self.checks += o.checks
        self.unknown += o.unknown
        self.unsupported += o.unsupported
        self.completed += o.completed
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        for n in o.notes:
            if n not in self.notes and len(self.notes) < 40:
                self.notes.append(n)


class Engine(object):
    """explores all paths of fn(ctx)"""
    symbolic = True

    def __init__(self, fn, timeout_ms=20000, max_paths=20000, budget_s=600.0,
                 stop_on_first=True):
        self.fn = fn
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.stats = Stats()
        self.failures = []        # dicts(label, inputs, kind)
        self.stop_on_first = stop_on_first
        self.abs_fork = False
        self.round_sqrt = False
        self.norm = False
        self.reduce = False
        self.hints = []
        self.float_div = True
        self.complete = False
        self.witnesses = []

    # -- solver helpers
    def _check(self, *extra):
        t0 = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        dt = time.time() - t0
        self.stats.solver_s += dt
        if SLOWQ and dt > SLOWQ:
            fr = sys._getframe()
            st = []
            while fr and len(st) < 40:
                fn = fr.f_code.co_filename
                if 'engine.py' not in fn and 'shim.py' not in fn or len(st) == 0:
                    st.append('%s:%d' % (fn.split('/')[-1], fr.f_lineno))
                fr = fr.f_back
            sys.stderr.write('SLOW %.1f %s %s %s\n' % (dt, r, ' '.join(st[1:5]), str(extra)[:300]))
        return r

    def _new_path(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.vars = {}
        self.order = []
        self.aux = 0
        self._sqrt = {}
        self._trig = {}
        self._angles = {}
        self._roots = []
        self.eig_hints = []
        self.eig_basis = []
        self.hints = []
        self._canon = {}
        self.nfcache = {'atoms': {}, 'defs': {}, 'rules': {}, 'used': set(), 'order': []}
        self.obs = []

    def add(self, t):
        self.solver.add(t)

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            c, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((c, forced))
            if not forced:
                self.solver.add(cond if c else z3.Not(cond))
            return c
        if time.time() > self.deadline:
            raise Budget()
        self.pos += 1
        rt = self._check(cond)
        if rt == z3.unsat:
            self.trace.append((False, True))
            return False
        rf = self._check(z3.Not(cond))
        if rf == z3.unsat:
            self.trace.append((True, True))
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.stats.unknown += 1
            self._note("feasibility unknown (both sides explored)")
        # both feasible
        self.work.append(self.trace + [(False, False)])
        self.trace.append((True, False))
        self.solver.add(cond)
        return True

    def concretize(self, t):
        t = z3.simplify(t)
        v = _num(t)
        if v is not None:
            return int(v)
        # replay recorded value
        if self.pos < len(self.prefix):
            c, forced = self.prefix[self.pos]
            if isinstance(c, tuple):
                self.pos += 1
                self.trace.append((c, forced))
                kind, val = c
                if kind == 'eq':
                    self.solver.add(t == val)
                    return val
                # 'ne': exclude and continue
                for x in val:
                    self.solver.add(t != x)
                return self._conc_new(t, list(val))
        return self._conc_new(t, [])

    def _conc_new(self, t, excluded):
        if self.pos < len(self.prefix):
            # nested record following an exclusion
            c, forced = self.prefix[self.pos]
            if isinstance(c, tuple) and c[0] == 'eq':
                self.pos += 1
                self.trace.append((c, forced))
                self.solver.add(t == c[1])
                return c[1]
        if time.time() > self.deadline:
            raise Budget()
        r = self._check()
        if r != z3.sat:
            if r == z3.unknown:
                raise Unsupported("concretize: solver unknown")
            raise PathAbort()
        v = self.solver.model().eval(t, model_completion=True)
        if not z3.is_int_value(v):       # floor of an algebraic number
            k = self.fresh('i', 'conc')
            if self._check(k == t) != z3.sat:
                raise Unsupported("concretize: no value")
            v = self.solver.model().eval(k, model_completion=True)
            if not z3.is_int_value(v):
                raise Unsupported("concretize: no value")
        v = v.as_long()
        if len(excluded) > 400:
            raise Unsupported("too many values to enumerate")
        # can it be something else?
        if self._check(t != v) != z3.unsat:
            ex = excluded + [v]
            base = self.trace[:]
            if excluded:
                base = base[:-1]
            self.work.append(base + [(('ne', tuple(ex)), False)])
        self.trace.append((('eq', v), False))
        self.pos += 1
        self.solver.add(t == v)
        return v

    # -- uninterpreted math
    def fresh(self, kind, hint):
        self.aux += 1
        nm = "%s!%d" % (hint, self.aux)
        return z3.Real(nm) if kind == 'r' else z3.Int(nm)

    def sqrt(self, t):
        t = z3.simplify(t)
        v = _num(t)
        if v is not None and v >= 0:
            f = Fraction(v)
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return SymReal(rv(Fraction(a, b)))
            if self.round_sqrt:          # as a double
                return SymReal(rv(Fraction(math.sqrt(f))))
        if self.hints:
            t = z3.simplify(self.canon(SymReal(t)).t)
        k = t.sexpr()
        if k in self._sqrt:
            return SymReal(self._sqrt[k])
        nf = None
        if self.reduce:
            nf = self.nf(t)
            if nf is not None:
                c = _pratio(nf[0], nf[1])
                if c is not None and c >= 0 and _fsqrt(c) is not None:
                    return SymReal(rv(_fsqrt(c)))
                for (n0, d0), s0 in self._roots:
                    c = _pratio(_pmul(nf[0], d0), _pmul(n0, nf[1]))
                    if c is not None and c > 0 and _fsqrt(c) is not None:
                        return SymReal(rv(_fsqrt(c)) * s0)
                r = self._square_root(nf)
                if r is not None:
                    return r
        if not self.branch(t >= 0):
            return float('nan')
        s = self.fresh('r', 'sqrt')
        self.add(s >= 0)
        self.add(s * s == t)
        self._sqrt[k] = s
        if nf is not None:
            self._roots.append((nf, s))
            self.rule(s, nf)
        return SymReal(s)

    # -- case option reduce: squares of roots, sines are rewritten
    def nf(self, t):
        try:
            return ratnf(z3.simplify(t), self.nfcache)
        except (_NotRational, RecursionError):
            return None

    def rule(self, atom, nf):
        """atom*atom may be rewritten as the rational function nf"""
        k = atom.get_id()
        self.nfcache['atoms'][k] = atom
        self.nfcache['rules'][k] = nf
        self.nfcache['order'].append(k)

    def define(self, name, value, lo=None, hi=None):
        """a fresh variable standing for value; the solver is only told its range (a consequence of
        the definition that the caller vouches for), the definition is used when terms are compared"""
        if not self.reduce:
            raise ValueError('define needs the case option reduce')
        v = self.fresh('r', name)
        self.nfcache['defs'][v.decl().name()] = _real(_coerce(value))
        if lo is not None:
            self.add(v >= rv(lo))
        if hi is not None:
            self.add(v <= rv(hi))
        return SymReal(v)

    def _square_root(self, nf):
        n, d = _psqrt(nf[0]), _psqrt(nf[1])
        if n is None or d is None:
            return None
        at = self.nfcache['atoms']
        n, d = SymReal(_poly_to_z3(n, at)), SymReal(_poly_to_z3(d, at))
        r = n / d
        return -r if bool(r < 0) else r

    def is_zero(self, x):
        t = _coerce(x)
        if z3.is_true(z3.simplify(_real(t) == 0)):
            return True
        d = diff_normal(_real(t), z3.RealVal(0))
        return d is not None and d[1]

    def z3bool(self, hint):
        self.aux += 1
        return z3.Bool('%s!%d' % (hint, self.aux))

    def div0(self, a):
        v = _num(z3.simplify(a))
        a = SymReal(a)
        if bool(a > 0):
            return float('inf')
        if bool(a < 0):
            return float('-inf')
        return float('nan')

    def trig(self, x):
        """(sin, cos) of x"""
        t = z3.simplify(_real(x.t))
        k = t.sexpr()
        if k not in self._trig:
            v = _num(t)
            if v is not None:
                self._trig[k] = self._const_trig(Fraction(v))
                return self._trig[k]
            nk = z3.simplify(-t).sexpr()
            if nk in self._trig:
                s2, c2 = self._trig[nk]
                self._trig[k] = (wrap(-_coerce(s2)), c2)
                return self._trig[k]
            if self.reduce:
                # x + k pi/2
                cst = sum((Fraction(v) for v in map(_num, t.children()) if v is not None), Fraction(0)) if z3.is_add(t) else 0
                n = cst * 2 / Fraction(math.pi)
                if cst and round(n) != 0 and abs(n - round(n)) < Fraction(1, 10**12):
                    s2, c2 = self.trig(SymReal(z3.simplify(t - rv(cst))))
                    for _ in range(round(n) % 4):
                        s2, c2 = c2, wrap(-_coerce(s2))
                    self._trig[k] = (s2, c2)
                    return self._trig[k]
                for q, sg in ((t / 2, 1), (-t / 2, -1)):
                    hk = z3.simplify(q).sexpr()
                    if hk in self._trig:        # double angle
                        s2, c2 = self._trig[hk]
                        self._trig[k] = (sg * 2 * s2 * c2, c2 * c2 - s2 * s2)
                        return self._trig[k]
                for q, sg in ((2 * t, 1), (-2 * t, -1)):
                    dk = z3.simplify(q).sexpr()
                    if dk in self._trig:        # half angle, of an angle in [-pi, pi]
                        s2, c2 = self._trig[dk]
                        c = sym_sqrt((1 + c2) / 2)
                        if isinstance(c, Sym) and bool(c > 0):
                            self._trig[k] = (sg * s2 / (2 * c), c)
                            return self._trig[k]
            s, c = self.fresh('r', 'sin'), self.fresh('r', 'cos')
            self.add(s * s + c * c == 1)
            self._trig[k] = (SymReal(s), SymReal(c))
            if self.reduce:
                self.add(z3.Implies(t == 0, z3.And(s == 0, c == 1)))
                self.rule(s, self.nf(1 - c * c))
        return self._trig[k]

    def angle(self, name, unit='rad', half=False, lim=16):
        """an angle input: 2 atan(u), or 4 atan(u) with half, so that its sine and cosine are rational"""
        u = self.real(name, -lim, lim)
        s, c = 2 * u / (1 + u * u), (1 - u * u) / (1 + u * u)
        a = self.fresh('r', 'ang')
        fac = rv(1) if unit == 'rad' else rv(Fraction(math.pi) / 180)
        top = Fraction(math.pi) * (2 if half else 1) / (1 if unit == 'rad' else Fraction(math.pi) / 180)
        self.add(a < rv(top))
        self.add(a > rv(-top))
        self.add(z3.Implies(u.t > 0, a > 0))
        self.add(z3.Implies(u.t < 0, a < 0))
        self.add(z3.Implies(u.t == 0, a == 0))
        if half:
            self._trig[z3.simplify(a * fac / 2).sexpr()] = (s, c)
            s, c = 2 * s * c, c * c - s * s
        self._trig[z3.simplify(a * fac).sexpr()] = (s, c)
        return SymReal(a)

    def _const_trig(self, v):
        pi = Fraction(math.pi)
        q = v / pi
        q2 = q.limit_denominator(12)
        if abs(q - q2) < Fraction(1, 10**14) and q2.denominator in (1, 2, 3, 4, 6):
            n = int(q2 * 12) % 24        # multiples of 15 degrees
            half = SymReal(z3.Q(1, 2))

            def sn(n):
                n %= 24
                if n > 12:
                    return -sn(n - 12)
                if n > 6:
                    n = 12 - n
                return {0: SymReal(z3.RealVal(0)), 2: half,
                        3: sym_sqrt(half), 4: sym_sqrt(SymReal(z3.Q(3, 4))),
                        6: SymReal(z3.RealVal(1))}[n]
            return sn(n), sn(n + 6)
        f = float(v)
        s, c = self.fresh('r', 'sin'), self.fresh('r', 'cos')
        self.add(s * s + c * c == 1)
        for a, b in ((s, math.sin(f)), (c, math.cos(f))):
            self.add(a >= rv(b - 1e-12))
            self.add(a <= rv(b + 1e-12))
        return SymReal(s), SymReal(c)

    def new_angle(self, sin, cos, lo=None, hi=None, hint='ang'):
        key = (_coerce(sin).sexpr(), _coerce(cos).sexpr(), lo, hi) if self.reduce else None
        if key in self._angles:
            return self._angles[key]
        a = self.fresh('r', hint)
        if key is not None:
            self._angles[key] = SymReal(a)
        self._trig[z3.simplify(a).sexpr()] = (sin, cos)
        if lo is not None:
            self.add(a >= rv(lo))
        if hi is not None:
            self.add(a <= rv(hi))
        if self.reduce:
            n = [_num(z3.simplify(_real(_coerce(v)))) for v in (sin, cos)]
            if n[0] is not None and n[1] is not None:
                v = math.atan2(float(Fraction(n[0])), float(Fraction(n[1])))
                self.add(a >= rv(Fraction(v) - Fraction(1, 10**9)))
                self.add(a <= rv(Fraction(v) + Fraction(1, 10**9)))
        return SymReal(a)

    def canon(self, x):
        """x, or the term of self.hints it equals as a rational function (case option reduce)"""
        if not isinstance(x, SymReal) or not self.hints or _num(x.t) is not None:
            return x
        k = x.t.get_id()
        if k not in self._canon:
            r = x
            if any(x.t.eq(h.t) for h in self.hints):
                self._canon[k] = (x, x)
                return x
            for h in self.hints:
                for y in (h, -h):
                    d = diff_normal(x.t, y.t)
                    if d is not None and d[1]:
                        r = y
            self._canon[k] = (x, r)
        return self._canon[k][1]

    def arccos(self, x):
        x = self.canon(x)
        s = sym_sqrt(1 - x * x)
        if isinstance(s, float):
            return s
        if not self.reduce:
            return self.new_angle(s, x, 0, math.pi)
        xt = z3.simplify(_real(_coerce(x)))
        if _num(xt) == 0:
            return SymReal(rv(math.pi / 2))
        a = self.new_angle(s, x, 0, math.pi)
        if any(xt.eq(z3.simplify(_real(h.t))) for h in self.hints):
            self.add(z3.Implies(xt > 0, a.t < rv(math.pi / 2)))
            self.add(z3.Implies(xt < 0, a.t > rv(math.pi / 2)))
            self.add(z3.Implies(xt == 0, a.t == rv(math.pi / 2)))
        return a

    def arcsin(self, x):
        c = sym_sqrt(1 - x * x)
        if isinstance(c, float):
            return c
        return self.new_angle(x, c, -math.pi / 2, math.pi / 2)

    def arctan2(self, y, x):
        y, x = SymReal(_real(_coerce(y))), SymReal(_real(_coerce(x)))
        if self.hints:
            y, x = self.canon(y), self.canon(x)
        vy, vx = _num(z3.simplify(y.t)), _num(z3.simplify(x.t))
        if vy == 0 and vx is not None and vx != 0 and self.reduce:
            return SymReal(rv(Fraction(0.0 if vx > 0 else math.pi)))
        if vx == 0 and vy is not None and vy != 0 and self.reduce:
            return SymReal(rv(Fraction(math.pi / 2 if vy > 0 else -math.pi / 2)))
        r2 = x * x + y * y
        if self.reduce:
            nf = self.nf(r2.t)
            c = _pratio(nf[0], nf[1]) if nf is not None else None
            if c is not None:
                r2 = SymReal(rv(c))
        if not bool(r2 > 0):
            return 0.0
        r = sym_sqrt(r2)
        if self.reduce and isinstance(r, SymReal):
            self.add(r.t > 0)
        a = self.new_angle(y / r, x / r, -math.pi, math.pi)
        # sign of the angle is that of y
        self.add(z3.Implies(y.t > 0, a.t > 0))
        self.add(z3.Implies(y.t < 0, a.t < 0))
        if self.reduce:
            self.add(z3.Implies(a.t == 0, y.t == 0))
        return a

    # -- ctx API ---------------------------------------------------------
    def _var(self, name, term, meta):
        if name in self.vars:
            raise ValueError("duplicate input " + name)
        self.vars[name] = (term, meta)
        return term

    def real(self, name, lo=None, hi=None):
        t = self._var(name, z3.Real(name), 'r')
        if lo is not None:
            self.add(t >= rv(lo))
        if hi is not None:
            self.add(t <= rv(hi))
        return SymReal(t)

    def int(self, name, lo=None, hi=None):
        t = self._var(name, z3.Int(name), 'i')
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        if lo is not None and lo == hi:
            return lo
        return SymInt(t)

    def bool(self, name):
        t = self._var(name, z3.Bool(name), 'b')
        return SymBool(t)

    def choice(self, name, seq):
        """enumerate (solver driven) an element of a concrete sequence"""
        i = self.int(name, 0, len(seq) - 1)
        return seq[int(i)]

    def assume(self, cond):
        c = boolterm(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.solver.add(c)
        if self.pos >= len(self.prefix):
            if self._check() == z3.unsat:
                raise PathAbort()

    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    def _note(self, s):
        if s not in self.stats.notes and len(self.stats.notes) < 40:
            self.stats.notes.append(s)

    def check(self, cond, label):
        """assert cond for every value on this path"""
        c = boolterm(cond)
        if c is None:
            raise Unsupported("check of %r" % (cond,))
        self._prove(c, label)

    def _model_inputs(self, m):
        out = {}
        for nm, (t, meta) in self.vars.items():
            v = m.eval(t, model_completion=True)
            if meta == 'i':
                out[nm] = int(v.as_long())
            elif meta == 'b':
                out[nm] = bool(z3.is_true(v))
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                tr = self._trig.get(t.sexpr())
                if tr is not None:
                    sc = [_fl(m.eval(_coerce(x), model_completion=True)) for x in tr]
                    a = Fraction(math.atan2(*sc))
                    per = 2 * Fraction(math.pi)
                    v0 = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    a += per * round((v0 - a) / per)
                    out[nm] = [str(a.numerator), str(a.denominator)]
                    continue
                out[nm] = [str(v.numerator_as_long()), str(v.denominator_as_long())]
        return out

    def _rounded(self, model, bad):
        """more counterexamples next to this one, with inputs that are exact as doubles (away from
        the borders of assumptions, so that the real code takes the same path)"""
        out = []
        if len(self.failures) >= 2:
            return out
        t0 = time.time()
        self.solver.set('timeout', min(self.timeout_ms, 2000))
        try:
            self._rounded_to(model, bad, out, t0)
        finally:
            self.solver.set('timeout', self.timeout_ms)
        return out

    def _rounded_to(self, model, bad, out, t0):
        for den in (2, 8, 64, 4096):
            if time.time() - t0 > 4:
                break
            fix = []
            for t, meta in self.vars.values():
                v = model.eval(t, model_completion=True)
                if meta in 'ib':
                    fix.append(t == v)
                elif t.sexpr() in self._trig:
                    return
                else:
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    fix.append(t == rv(Fraction(round(f * den), den)))
            if fix and self._check(z3.And(bad, *fix)) == z3.sat:
                out.append(self._model_inputs(self.solver.model()))
                if len(out) == 2:
                    break

    def _prove(self, c, label, eqpair=None, margin=None):
        if self.pos < len(self.prefix):
            return      # decided on the parent path, under the same conditions
        self.stats.checks += 1
        self.reach(label)
        c = z3.simplify(c)
        if z3.is_true(c):
            self.stats.discharged += 1
            self.stats.queries += 1
            return
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown and eqpair is not None:
            d = diff_normal(*eqpair)
            if d is not None:
                r = self._check(d[0] != 0)
                if r == z3.unsat:
                    self.stats.discharged += 1
                    return
        if r == z3.unknown:
            self.stats.unknown += 1
            self._note("query unknown/timeout: " + label)
            return
        # prefer models that violate with a margin (robust to float rounding)
        model = None
        if margin is not None:
            for mg in margin:
                if self._check(mg) == z3.sat:
                    model = self.solver.model()
                    break
        if model is None:
            self._check(z3.Not(c))
            model = self.solver.model()
        self.failures.append(dict(kind='check', label=label,
                                  inputs=self._model_inputs(model), alt=self._rounded(model, z3.Not(c))))
        if self.stop_on_first:
            raise PathAbort()
        self.solver.add(c)
        if self._check() == z3.unsat:
            raise PathAbort()

    def eq(self, a, b, label, rtol=1e-6):
        """assert a == b exactly (reals)"""
        if self.pos < len(self.prefix) and len(self.obs) >= 400:
            return
        ta, tb = self._eqterm(a, label), self._eqterm(b, label)
        if ta is None or tb is None:     # non finite values
            same = (ta is None and tb is None and
                    (a == b or (a != a and b != b)))
            self._prove(z3.BoolVal(bool(same)), label)
            return
        if len(self.obs) < 400:
            self.obs.append((label, ta))
        if self.pos < len(self.prefix):
            return
        if ta.eq(tb):
            # one and the same term: the query t != t simplifies to false
            self.stats.checks += 1
            self.stats.queries += 1
            self.reach(label)
            self.stats.discharged += 1
            return
        ta, tb = _both(ta, tb)
        d = diff_normal(ta, tb)
        if d is not None and d[1]:
            # identical rational functions: solver sees 0 != 0
            self.stats.checks += 1
            self.reach(label)
            self._check(z3.BoolVal(False))
            self.stats.discharged += 1
            return
        df = _real(ta) - _real(tb)
        ad = z3.If(df >= 0, df, -df)
        mg = [ad >= rv(1), ad >= rv(Fraction(1, 20)), ad >= rv(Fraction(1, 1000))]
        if d is not None:
            self._prove(d[0] == 0, label, eqpair=(ta, tb), margin=mg)
        else:
            self._prove(ta == tb, label, eqpair=(ta, tb), margin=mg)

    def _eqterm(self, a, label):
        if _nonfinite(a):
            return None
        t = _coerce(a)
        if t is None:
            raise Unsupported("eq of %r (%s)" % (type(a), label))
        return t

    def le(self, a, b, label):
        if _nonfinite(a) or _nonfinite(b):
            self._prove(z3.BoolVal(bool(a <= b)), label)
            return
        ta, tb = _both(_coerce(a), _coerce(b))
        mg = [ta >= tb + 1, ta >= tb + rv(Fraction(1, 20)), ta >= tb + rv(Fraction(1, 1000))]
        self._prove(ta <= tb, label, margin=mg)

    def implies(self, a, b, label):
        self._prove(z3.Implies(boolterm(a), boolterm(b)), label)

    def fail(self, label):
        self._prove(z3.BoolVal(False), label)

    def mem_fail(self, label):
        """an access outside its array is feasible on this path"""
        self.stats.checks += 1
        self._concolic('exception', 'memory: ' + label)

    def value(self, x):
        """a concrete value x may have (for diagnostics only)"""
        return x

    # -- bulk inputs
    def reals(self, name, shape, lo=None, hi=None):
        from . import shim
        import numpy as np
        if not isinstance(shape, tuple):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.real("%s[%s]" % (name, ",".join(map(str, i))), lo, hi)
        return a.view(shim.SymArray)

    def consts(self, vals):
        from . import shim
        return shim.array(vals, dtype='f8')

    def ascending(self, name, n, lo=-4, hi=4, gmin=Fraction(1, 4), gmax=4):
        from . import shim
        import numpy as np
        a = np.empty(n, dtype=object)
        a[0] = self.real(name + '[0]', lo, hi)
        for i in range(1, n):
            a[i] = a[i - 1] + self.real("%s.gap[%d]" % (name, i), gmin, gmax)
        return a.view(shim.SymArray)

    def tick(self):
        pass

    def witness(self):
        """inputs that follow the path just executed, and the value every
        compared quantity takes there"""
        if self._check() != z3.sat:
            return None
        m = self.solver.model()
        obs = None
        if not self._trig:
            obs = []
            for lb, t in self.obs:
                try:
                    obs.append((lb, _fl(m.eval(t, model_completion=True))))
                except (AttributeError, z3.Z3Exception, ZeroDivisionError):
                    obs.append((lb, None))
        return dict(inputs=self._model_inputs(m), obs=obs)

    # -- exploration
    def run(self):
        global ENG
        self.t0 = time.time()
        self.deadline = self.t0 + self.budget_s
        self.work = [[]]
        self.complete = True
        seen_fail = set()
        while self.work:
            if self.stats.paths >= self.max_paths or time.time() > self.deadline:
                self.complete = False
                self._note("exploration budget exhausted, %d paths left" % len(self.work))
                break
            prefix = self.work.pop()
            self._new_path(prefix)
            self.stats.paths += 1
            ENG = self
            self.last_tb = ''
            try:
                if self.path_limit:
                    signal.setitimer(signal.ITIMER_REAL, self.path_limit)
                try:
                    self.fn(self)
                finally:
                    if self.path_limit:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                self.stats.completed += 1
                n = self.stats.completed
                if len(self.witnesses) < self.max_witness and (n <= 2 or n % 7 == 0):
                    w = self.witness()
                    if w:
                        self.witnesses.append(w)
            except PathAbort:
                pass
            except PathTimeout:
                self.complete = False
                self._concolic('hang', "path did not end within %ss" % self.path_limit)
            except Budget:
                self.complete = False
                self._note("time budget exhausted")
                break
            except Unsupported as e:
                self._concolic('unsupported', "unsupported: %s" % e)
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except z3.Z3Exception as e:
                self._concolic('unsupported', "z3: %s" % e)
            except Exception as e:     # an exception of the code under test
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                loc = "%s:%s" % (tb[-1].filename.split('/')[-1], tb[-1].lineno)
                self.last_tb = traceback.format_exc()
                self._concolic('exception', "%s: %s @%s" % (type(e).__name__, str(e)[:160], loc))
            finally:
                ENG = None
            if self.failures and self.stop_on_first and len(self.failures) >= self.max_fail:
                break
        self.wall = time.time() - self.t0
        return self

    max_fail = 3
    max_witness = 4
    path_limit = 0
    max_unsup_cand = 6
    unsup_cand = 0

    def _concolic(self, kind, msg):
        """the path ended in an exception: solve for inputs on this path; the
        replay decides whether the real code misbehaves there"""
        if kind == 'unsupported':
            self.stats.unsupported += 1
            self._note(msg)
            if self.unsup_cand >= self.max_unsup_cand:
                return
            self.unsup_cand += 1
        try:
            r = self._check()
        except Exception:
            return
        if r == z3.sat:
            self.failures.append(dict(kind=kind, label=msg,
                                      inputs=self._model_inputs(self.solver.model()),
                                      tb=getattr(self, 'last_tb', '') if kind == 'exception' else ''))


def _fl(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return float(v.as_long())
    return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))


# ----------------------------------------------------- concrete (replay) mode
class Concrete(object):
    """same API as Engine, inputs are concrete values, checks use tolerance"""
    symbolic = False

    def __init__(self, inputs, tol=1e-6):
        self.inputs = inputs
        self.tol = tol
        self.failed = []
        self.reached = {}
        self.assume_ok = True
        self.obs = []

    def real(self, name, lo=None, hi=None):
        v = self.inputs.get(name)
        if v is None:
            raise KeyError("replay input %s missing" % name)
        return float(Fraction(int(v[0]), int(v[1])))

    def int(self, name, lo=None, hi=None):
        return int(self.inputs.get(name, lo or 0))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def choice(self, name, seq):
        return seq[self.int(name, 0)]

    def angle(self, name, unit='rad', half=False, lim=16):
        a = (4 if half else 2) * math.atan(self.real(name))
        return a if unit == 'rad' else math.degrees(a)

    def define(self, name, value, lo=None, hi=None):
        return value

    def assume(self, cond):
        if not bool(cond):
            self.assume_ok = False
            raise PathAbort()

    def reach(self, label):
        self.reached[label] = 1

    def check(self, cond, label):
        self.reach(label)
        if not bool(cond):
            self.failed.append(label)
            raise CheckFailed(label)

    def eq(self, a, b, label, rtol=None):
        self.reach(label)
        a, b = float(a), float(b)
        self.obs.append((label, a))
        if a == b or (a != a and b != b):
            return
        tol = self.tol * (1.0 + abs(a) + abs(b))
        if not abs(a - b) <= tol:
            self.failed.append("%s: %r != %r" % (label, a, b))
            raise CheckFailed(label)

    def le(self, a, b, label):
        self.reach(label)
        a, b = float(a), float(b)
        if not a <= b + self.tol * (1.0 + abs(a) + abs(b)):
            self.failed.append("%s: %r > %r" % (label, a, b))
            raise CheckFailed(label)

    def implies(self, a, b, label):
        self.check((not bool(a)) or bool(b), label)

    def fail(self, label):
        self.check(False, label)

    def value(self, x):
        return x

    def reals(self, name, shape, lo=None, hi=None):
        import numpy as np
        if not isinstance(shape, tuple):
            shape = (shape,)
        a = np.empty(shape, dtype='f8')
        for i in np.ndindex(*shape):
            a[i] = self.real("%s[%s]" % (name, ",".join(map(str, i))), lo, hi)
        return a

    def consts(self, vals):
        import numpy as np
        return np.array(vals, dtype='f8')

    def ascending(self, name, n, lo=-4, hi=4, gmin=None, gmax=None):
        import numpy as np
        a = np.empty(n, dtype='f8')
        a[0] = self.real(name + '[0]', lo, hi)
        for i in range(1, n):
            a[i] = a[i - 1] + self.real("%s.gap[%d]" % (name, i))
        return a

    def tick(self):
        pass
