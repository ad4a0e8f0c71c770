"""Cython front end: parses the repository's .pyx/.pxd sources with Cython's own
parser and regenerates Python code with C semantics (typed locals, truncating
integer division and casts, C arrays, pointers, unchecked memoryviews,
uninitialised locals), which the symbolic engine then executes.

Every access outside a C array or memoryview is reported as a failure of the
check that runs the code.
"""
import io
import os
import sys
import types
from fractions import Fraction

from . import engine
from . import shim
from .engine import (SymReal, SymInt, SymBool, Sym, Unsupported, PathAbort, const, z3)

MODS = ['cyfield', 'cyamr', 'cycalc', 'integrate', 'streamline', 'null_tools']

INTS = {'int', 'long', 'short', 'char', 'bint', 'size_t', 'Py_ssize_t', 'ssize_t', 'unsigned',
        'int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t',
        'intp_t', 'npy_intp', 'int_t', 'time_t', 'clock_t', 'longlong', 'uint_t', 'float_int'}
REALS = {'float', 'double', 'float32_t', 'float64_t', 'float_t', 'double_t', 'longdouble'}


class CErr(Exception):
    pass


# ------------------------------------------------------------ runtime support
def mem_error(msg):
    e = engine.ENG
    if e is None:
        raise CErr(msg)
    e.reach('memory')
    e.mem_fail(msg)
    raise PathAbort()


def c_index(i, n, wrap, what):
    """C index into n elements; forks over the values of a symbolic index"""
    if isinstance(i, SymReal):
        raise TypeError("index is not an integer")
    if isinstance(i, SymBool):
        i = int(bool(i))
    if isinstance(i, SymInt):
        if wrap and bool(i < 0):
            i = i + n
        if bool(i < 0) or bool(i >= n):
            return None
        return i.__index__()
    i = i.__index__()
    if wrap and i < 0:
        i += n
    if i < 0 or i >= n:
        return None
    return i


class CArr(object):
    """C array (also used for the target of a pointer)"""
    __slots__ = ('v', 'base', 'off', 'name')

    def __init__(self, n, base, vals=None, name=''):
        self.base = base
        self.off = 0
        self.name = name
        if vals is None:
            self.v = [None] * n
        else:
            self.v = [conv(base, x) for x in vals]

    def at(self, off):
        p = CArr.__new__(CArr)
        p.v, p.base, p.off, p.name = self.v, self.base, self.off + off, self.name
        return p

    def _i(self, i):
        if isinstance(i, SymInt):
            i = i + self.off
        else:
            i = i.__index__() + self.off
        k = c_index(i, len(self.v), False, self.name)
        if k is None:
            mem_error("index outside C array %s[%d]" % (self.name, len(self.v)))
        return k

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(*i.indices(len(self.v) - self.off))]
        k = self._i(i)
        x = self.v[k]
        if x is None:
            x = self.v[k] = uninit(self.base, self.name)
        return x

    def __setitem__(self, i, val):
        if isinstance(i, slice):
            idx = list(range(*i.indices(len(self.v) - self.off)))
            val = list(val)
            if len(idx) != len(val):
                raise ValueError("Assignment to slice of wrong length, expected %d, got %d"
                                 % (len(idx), len(val)))
            for j, x in zip(idx, val):
                self[j] = x
            return
        self.v[self._i(i)] = conv(self.base, val)

    def __iter__(self):
        return iter([self[j] for j in range(len(self.v) - self.off)])

    def __len__(self):
        return len(self.v) - self.off

    def __eq__(self, o):
        return self is o

    __hash__ = None


class MV(object):
    """typed memoryview over an array, with C indexing"""
    __slots__ = ('arr', 'base', 'wrap', 'check')

    def __init__(self, arr, base, wrap, check):
        self.arr, self.base, self.wrap, self.check = arr, base, wrap, check

    def _idx(self, i):
        if not isinstance(i, tuple):
            i = (i,)
        sh = self.arr.shape
        if any(isinstance(x, slice) or x is Ellipsis or x is None for x in i):
            return None
        if len(i) != len(sh):
            return None
        out = []
        for d, x in enumerate(i):
            k = c_index(x, sh[d], self.wrap, '')
            if k is None:
                if self.check:
                    raise IndexError("Out of bounds on buffer access (axis %d)" % d)
                mem_error("memoryview access outside axis %d of shape %s" % (d, sh))
            out.append(k)
        return tuple(out)

    def __getitem__(self, i):
        k = self._idx(i)
        if k is None:
            r = self.arr[i]
            return MV(r, self.base, self.wrap, self.check) if hasattr(r, 'shape') and r.shape else r
        return self.arr[k]

    def __setitem__(self, i, v):
        k = self._idx(i)
        if k is None:
            self.arr[i] = v.arr if isinstance(v, MV) else v
            return
        self.arr[k] = conv(self.base, v)

    @property
    def shape(self):
        return self.arr.shape

    @property
    def T(self):
        return MV(self.arr.T, self.base, self.wrap, self.check)

    def copy(self):
        return MV(self.arr.copy(), self.base, self.wrap, self.check)

    @property
    def base_(self):
        return self.arr

    def __len__(self):
        return len(self.arr)

    def __iter__(self):
        for i in range(len(self.arr)):
            yield self[i]

    def __array__(self, dtype=None):
        return self.arr


def _unmv(x):
    return x.arr if isinstance(x, MV) else x


def mview(x, base, ndim, contig, wrap, check):
    import numpy as np
    if x is None:
        return None
    if isinstance(x, MV):
        x = x.arr
    if not isinstance(x, np.ndarray):
        raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
    if x.ndim != ndim:
        raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (ndim, x.ndim))
    if contig and not x.flags.c_contiguous:
        raise ValueError("ndarray is not C-contiguous")
    return MV(x, base, wrap, check)


def uninit(base, name):
    """uninitialised C variable: any value"""
    e = engine.ENG
    if e is None:
        return 0
    if base == 'int':
        return SymInt(e.fresh('i', 'uninit_' + name))
    if base == 'real':
        return SymReal(e.fresh('r', 'uninit_' + name))
    return None


def creal(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.t))
    if isinstance(x, SymBool):
        return SymReal(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, float) and x - x != 0:
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        return const(Fraction(x))
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return creal(x.ravel()[0])
    if hasattr(x, 'dtype'):
        return creal(x.item())
    raise TypeError("must be real number, not %s" % type(x).__name__)


def cint(x):
    if isinstance(x, (SymInt, SymBool)):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SymReal) or isinstance(x, float):
        raise TypeError("expected int, got float")
    if hasattr(x, '__index__'):
        return x.__index__()
    raise TypeError("an integer is required")


def ctrunc(x):
    """C cast to an integer type"""
    if isinstance(x, (SymInt, SymBool, int)):
        return x
    if isinstance(x, float):
        if x - x != 0:
            return -2 ** 31
        return int(x)
    # out of range conversions give INT_MIN (x86)
    if bool(x >= 2 ** 31) or bool(x <= -2 ** 31 - 1):
        return -2 ** 31
    return engine.int_of(x)


def conv(base, x):
    if base == 'real':
        return creal(x)
    if base == 'int':
        return cint(x)
    return x


def cdiv(a, b):
    """C division of two integers"""
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        q = abs(a) // abs(b)
        neg = bool(a < 0) != bool(b < 0)
        return -q if neg else q
    if b == 0:
        mem_error("integer division by zero")
    q = abs(int(a)) // abs(int(b))
    return -q if (a < 0) != (b < 0) else q


def cmod(a, b):
    return a - cdiv(a, b) * b


def c_sqrt(x):
    x = creal(x)
    if isinstance(x, float):
        return x if x > 0 else float('nan')
    return engine.sym_sqrt(x)


def c_fabs(x):
    return abs(creal(x))


def c_floor(x):
    x = creal(x)
    return x if isinstance(x, float) else x.floor()


def c_ceil(x):
    x = creal(x)
    return x if isinstance(x, float) else x.ceil()


def c_isnan(x):
    return isinstance(x, float) and x != x


def c_isinf(x):
    return isinstance(x, float) and x in (float('inf'), float('-inf'))


def c_pow(a, b):
    """a ** b for C reals; rational exponents with small denominators are
    defined exactly through the root they denote"""
    bb = b
    if isinstance(bb, SymReal):
        if bb.c is None:
            raise Unsupported("symbolic exponent")
        bb = bb.c
    bb = Fraction(bb).limit_denominator(1000) if not isinstance(bb, int) else Fraction(bb)
    if isinstance(a, float):
        return a ** float(bb)
    if bb.denominator <= 2:
        if bb.denominator == 1:
            return a ** int(bb)
        return a ** bb
    a = creal(a)
    if a.c is not None and a.c == 1:
        return a
    if not bool(a > 0):
        if bool(a == 0):
            return const(Fraction(0)) if bb > 0 else float('inf')
        return float('nan')
    e = engine.ENG
    key = ('pow', z3.simplify(a.t).sexpr(), bb)
    if key not in e._sqrt:
        y = e.fresh('r', 'pow')
        p, q = abs(bb.numerator), bb.denominator
        # y ** q == a ** p   (or its inverse), y > 0
        yq, ap = y, a.t
        for _ in range(q - 1):
            yq = yq * y
        for _ in range(p - 1):
            ap = ap * a.t
        e.add(y > 0)
        if bb > 0:
            e.add(yq == ap)
            e.add(z3.And(z3.Implies(a.t >= 1, y >= 1), z3.Implies(a.t <= 1, y <= 1)))
        else:
            e.add(yq * ap == 1)
            e.add(z3.And(z3.Implies(a.t >= 1, y <= 1), z3.Implies(a.t <= 1, y >= 1)))
        e._sqrt[key] = y
    return SymReal(e._sqrt[key])


def rdiv(a, b):
    """C real division (never raises)"""
    if isinstance(a, (int, float, Fraction)) and not isinstance(a, Sym):
        a = creal(a)
    if isinstance(b, (int, float, Fraction)) and not isinstance(b, Sym):
        b = creal(b)
    if isinstance(a, float) and isinstance(b, float):
        try:
            return a / b
        except ZeroDivisionError:
            return float('nan')
    return a / b


def deref(p):
    return p[0]


LIBC = {
    'libc.math': dict(sqrt=c_sqrt, fabs=c_fabs, floor=c_floor, ceil=c_ceil, isnan=c_isnan, isinf=c_isinf,
                      pow=c_pow, NAN=float('nan'), INFINITY=float('inf'),
                      fmin=lambda a, b: a if bool(a <= b) else b, fmax=lambda a, b: a if bool(a >= b) else b,
                      sin=lambda x: shim.SM.sin(creal(x)), cos=lambda x: shim.SM.cos(creal(x))),
    'libc.time': dict(time=lambda *a: 0, clock=lambda: 0, CLOCKS_PER_SEC=1),
    'libc.stdlib': dict(abs=lambda x: abs(x)),
    'cython.operator': dict(dereference=deref),
}
REALFUNCS = {'sqrt', 'fabs', 'floor', 'ceil', 'pow', 'NAN', 'INFINITY', 'fmin', 'fmax', 'sin', 'cos'}
INTFUNCS = {'isnan', 'isinf'}


class CObj(object):
    """base of translated cdef classes"""
    _types = {}

    def __init__(self, *a):
        d = self.__dict__
        for k, t in self._alltypes().items():
            if t[0] == 'int':
                d[k] = 0
            elif t[0] == 'real':
                d[k] = const(Fraction(0))
            elif t[0] == 'arr':
                z = 0
                d[k] = CArr(t[2], t[1], [z] * t[2], k)
            else:
                d[k] = None

    @classmethod
    def _alltypes(cls):
        if '_merged' not in cls.__dict__:
            m = {}
            for c in reversed(cls.__mro__):
                m.update(c.__dict__.get('_types', {}))
            cls._merged = m
        return cls._merged

    def __setattr__(self, k, v):
        t = self._alltypes().get(k)
        if t is None:
            raise AttributeError(k)
        if t[0] in ('int', 'real'):
            v = conv(t[0], v)
        elif t[0] == 'mv':
            v = mview(v, t[1], t[2], t[3], False, self._check)
        elif t[0] == 'arr':
            raise AttributeError("array attribute")
        self.__dict__[k] = v

    _check = False

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------- parsing
def parse_text(name, text, pxd):
    from Cython.Compiler import Parsing, Scanning, Main, Symtab
    opts = Main.CompilationOptions(Main.default_options, language_level=2)
    ctx = opts.create_context() if hasattr(opts, 'create_context') else Main.Context.from_options(opts)
    sd = Scanning.StringSourceDescriptor(name, text)
    scope = Symtab.ModuleScope(name, None, ctx)
    sc = Scanning.PyrexScanner(io.StringIO(text), sd, source_encoding='utf-8', scope=scope,
                               context=ctx, initial_pos=(sd, 1, 0))
    return Parsing.p_module(sc, pxd, name)


class Gen(object):
    """Cython AST -> Python source"""

    def __init__(self, mod, modtypes, directives):
        self.mod = mod
        self.mt = modtypes           # name -> type of module level C names
        self.lines = []
        self.ind = 0
        self.dir = dict(boundscheck=True, wraparound=True, cdivision=False)
        self.dir.update(directives)
        self.loc = None              # local types
        self.boxed = ()
        self.nk = 0
        self.consts = {}
        self.rettype = None

    # -- output helpers
    def put(self, s):
        self.lines.append('    ' * self.ind + s)

    def block(self, body):
        self.ind += 1
        n = len(self.lines)
        self.stat(body)
        if len(self.lines) == n:
            self.put('pass')
        self.ind -= 1

    # -- types
    def basetype(self, bt):
        n = type(bt).__name__
        if n == 'CSimpleBaseTypeNode':
            nm = bt.name
            if nm in INTS or (bt.is_basic_c_type and nm in ('int', 'char', 'short', 'long')):
                return ('int',)
            if nm in REALS:
                return ('real',)
            t = self.mt.get(nm)
            if t and t[0] == 'type':
                return t[1]
            if nm is None or nm == 'object':
                return ('obj',)
            if nm == 'void':
                return ('void',)
            return ('obj',)
        if n == 'MemoryViewSliceTypeNode':
            b = self.basetype(bt.base_type_node)
            contig = False
            for ax in bt.axes:
                if not type(ax.step).__name__ == 'NoneNode':
                    contig = True
            return ('mv', b[0], len(bt.axes), contig)
        if n == 'TemplatedTypeNode':
            # "real_t[3] x": C array declared through its type
            b = self.basetype(bt.base_type_node)
            try:
                k = self.cint_expr(bt.positional_args[0])
            except Unsupported:
                # cnp.float64_t[:] given as template: memoryview
                axes = bt.positional_args
                return ('mv', b[0], len(axes), False)
            return ('arr', b[0], k)
        if n == 'CNestedBaseTypeNode':
            return ('int',) if bt.name in INTS else ('real',) if bt.name in REALS else ('obj',)
        raise Unsupported("cython type node %s" % n)

    def cint_expr(self, e):
        if type(e).__name__ == 'IntNode':
            return int(str(e.value).rstrip('LUlu'), 0)
        raise Unsupported("array size")

    def decl(self, bt, d):
        """-> (name, type, default node)"""
        t = self.basetype(bt) if not isinstance(bt, tuple) else bt
        default = getattr(d, 'default', None)
        while True:
            n = type(d).__name__
            if n == 'CNameDeclaratorNode':
                return d.name, t, (d.default if d.default is not None else default)
            if n == 'CArrayDeclaratorNode':
                t = ('arr', t[0], self.cint_expr(d.dimension) if d.dimension is not None else None)
            elif n == 'CPtrDeclaratorNode':
                t = ('func',) if t[0] == 'func' else ('ptr', t[0])
            elif n == 'CFuncDeclaratorNode':
                t = ('func',)
            else:
                raise Unsupported("cython declarator %s" % n)
            if default is None:
                default = getattr(d, 'default', None)
            d = d.base

    # -- expressions
    def ty(self, e):
        """C type of an expression: 'int', 'real' or 'obj'"""
        n = type(e).__name__
        if n in ('IntNode', 'BoolNode'):
            return 'int'
        if n == 'FloatNode':
            return 'real'
        if n == 'NameNode':
            t = (self.loc or {}).get(e.name) or self.mt.get(e.name)
            if t is None:
                return 'obj'
            return t[0] if t[0] in ('int', 'real') else 'obj'
        if n == 'IndexNode':
            t = self.ctype(e.base)
            if t and t[0] in ('arr', 'ptr', 'mv') and t[1] in ('int', 'real'):
                if t[0] == 'mv' and isinstance(getattr(e, 'index', None), object) and \
                        type(e.index).__name__ == 'SliceNode':
                    return 'obj'
                return t[1]
            if t and t[0] == 'shape':
                return 'int'
            return 'obj'
        if n == 'AttributeNode':
            t = self.ctype(e)
            if t and t[0] in ('int', 'real'):
                return t[0]
            return 'obj'
        if n in ('AddNode', 'SubNode', 'MulNode', 'DivNode', 'ModNode', 'PowNode', 'IntBinopNode'):
            a, b = self.ty(e.operand1), self.ty(e.operand2)
            if 'obj' in (a, b):
                return 'obj'
            return 'real' if 'real' in (a, b) else 'int'
        if n in ('UnaryMinusNode', 'UnaryPlusNode', 'TildeNode'):
            return self.ty(e.operand)
        if n == 'TypecastNode':
            t = self.decl(e.base_type, e.declarator)[1]
            return t[0] if t[0] in ('int', 'real') else 'obj'
        if n == 'CondExprNode':
            a, b = self.ty(e.true_val), self.ty(e.false_val)
            return a if a == b else 'obj' if 'obj' in (a, b) else 'real'
        if n in ('PrimaryCmpNode', 'BoolBinopNode', 'NotNode'):
            return 'obj'
        if n in ('SimpleCallNode', 'GeneralCallNode'):
            t = self.ctype(e.function)
            if t and t[0] == 'cfunc' and t[1] in ('int', 'real'):
                return t[1]
            fn = getattr(e.function, 'name', None)
            if fn in REALFUNCS and t and t[0] == 'libc':
                return 'real'
            if fn in ('dereference', 'deref') or (t and t[0] == 'deref'):
                tt = self.ctype(e.args[0])
                if tt and tt[0] in ('ptr', 'arr'):
                    return tt[1]
            return 'obj'
        return 'obj'

    def ctype(self, e):
        """full C type of a name / attribute, or None"""
        n = type(e).__name__
        if n == 'NameNode':
            return (self.loc or {}).get(e.name) or self.mt.get(e.name)
        if n == 'AttributeNode':
            t = self.ctype(e.obj)
            if t and t[0] == 'cls':
                return FIELDS.get(t[1], {}).get(e.attribute)
            if t and t[0] == 'mv' and e.attribute == 'shape':
                return ('shape',)
            return None
        if n == 'IndexNode':
            t = self.ctype(e.base)
            if t and t[0] in ('cfunc', 'func'):
                return t
            return None
        if n == 'TypecastNode':
            return self.decl(e.base_type, e.declarator)[1]
        return None

    def k(self, text, kind):
        key = (kind, text)
        if key not in self.consts:
            self.consts[key] = '_k%d' % len(self.consts)
        return self.consts[key]

    def name(self, nm):
        if nm in self.boxed:
            return nm + '[0]'
        return nm

    def expr(self, e):
        n = type(e).__name__
        m = getattr(self, 'e_' + n, None)
        if m is None:
            raise Unsupported("cython expression %s at %s" % (n, e.pos[1:]))
        return m(e)

    def e_NameNode(self, e):
        return self.name(e.name)

    def e_IntNode(self, e):
        return str(int(str(e.value).rstrip('LUlu'), 0))

    def e_FloatNode(self, e):
        return self.k(str(e.value), 'f')

    def e_ImagNode(self, e):
        return '(%sj)' % e.value

    def e_BoolNode(self, e):
        return str(bool(e.value))

    def e_NoneNode(self, e):
        return 'None'

    def e_NullNode(self, e):
        return 'None'

    def e_EllipsisNode(self, e):
        return 'Ellipsis'

    def _str(self, e):
        v = e.value
        if isinstance(v, bytes):
            v = v.decode('utf-8')
        return repr(str(v))

    def e_StringNode(self, e):
        v = e.unicode_value if getattr(e, 'unicode_value', None) is not None else e.value
        if isinstance(v, bytes):
            v = v.decode('utf-8')
        return repr(str(v))
    e_UnicodeNode = e_IdentifierStringNode = e_StringNode

    def e_BytesNode(self, e):
        return repr(bytes(e.value))

    def e_TupleNode(self, e):
        a = [self.expr(x) for x in e.args]
        return '(' + ', '.join(a) + (',' if len(a) == 1 else '') + ')'

    def e_ListNode(self, e):
        return '[' + ', '.join(self.expr(x) for x in e.args) + ']'

    def e_SetNode(self, e):
        return '{' + ', '.join(self.expr(x) for x in e.args) + '}'

    def e_DictNode(self, e):
        return '{' + ', '.join('%s: %s' % (self.expr(i.key), self.expr(i.value))
                               for i in e.key_value_pairs) + '}'

    def e_MergedDictNode(self, e):
        return '{' + ', '.join('**' + self.expr(x) for x in e.keyword_args) + '}'

    def e_AsTupleNode(self, e):
        return 'tuple(%s)' % self.expr(e.arg)

    def e_AttributeNode(self, e):
        return '%s.%s' % (self.expr(e.obj), e.attribute)

    def e_IndexNode(self, e):
        t = self.ctype(e.base)
        if t and t[0] in ('cfunc', 'func'):       # fused specialization
            return self.expr(e.base)
        return '%s[%s]' % (self.expr(e.base), self.sub(e.index))

    def sub(self, i):
        if type(i).__name__ == 'TupleNode' and i.args:
            return ', '.join(self.sub(x) for x in i.args) + (',' if len(i.args) == 1 else '')
        return self.expr(i)

    def e_SliceNode(self, e):
        f = [None if type(x).__name__ == 'NoneNode' else self.expr(x) for x in (e.start, e.stop, e.step)]
        return 'slice(%s)' % ', '.join(x or 'None' for x in f)

    def e_SliceIndexNode(self, e):
        a = self.expr(e.start) if e.start is not None else ''
        b = self.expr(e.stop) if e.stop is not None else ''
        return '%s[%s:%s]' % (self.expr(e.base), a, b)

    def _bin(self, e, op):
        return '(%s %s %s)' % (self.expr(e.operand1), op, self.expr(e.operand2))

    def e_AddNode(self, e):
        return self._bin(e, '+')

    def e_SubNode(self, e):
        return self._bin(e, '-')

    def e_MulNode(self, e):
        return self._bin(e, '*')

    def e_MatMultNode(self, e):
        return self._bin(e, '@')

    def divs(self, op, a, b, ta, tb):
        if 'obj' in (ta, tb):
            return '(%s %s %s)' % (a, op, b)
        if ta == tb == 'int':
            if op == '%':
                return '_cmod(%s, %s)' % (a, b) if self.dir['cdivision'] else '(%s %% %s)' % (a, b)
            return '_cdiv(%s, %s)' % (a, b) if self.dir['cdivision'] else '(%s // %s)' % (a, b)
        if op == '/':
            return '_rdiv(%s, %s)' % (a, b) if self.dir['cdivision'] else '(%s / %s)' % (a, b)
        return '(%s %s %s)' % (a, op, b)

    def e_DivNode(self, e):
        return self.divs(e.operator, self.expr(e.operand1), self.expr(e.operand2),
                         self.ty(e.operand1), self.ty(e.operand2))
    e_ModNode = e_DivNode

    def e_PowNode(self, e):
        a, b = self.expr(e.operand1), self.expr(e.operand2)
        if 'obj' in (self.ty(e.operand1), self.ty(e.operand2)):
            return '(%s ** %s)' % (a, b)
        if type(e.operand2).__name__ == 'IntNode':
            return '(%s ** %s)' % (a, b)
        return '_cpow(%s, %s)' % (a, b)

    def e_IntBinopNode(self, e):
        return self._bin(e, e.operator)

    def e_UnaryMinusNode(self, e):
        return '(-%s)' % self.expr(e.operand)

    def e_UnaryPlusNode(self, e):
        return '(+%s)' % self.expr(e.operand)

    def e_TildeNode(self, e):
        return '(~%s)' % self.expr(e.operand)

    def e_NotNode(self, e):
        return '(not %s)' % self.expr(e.operand)

    def e_BoolBinopNode(self, e):
        return '(%s %s %s)' % (self.expr(e.operand1), e.operator, self.expr(e.operand2))

    def e_PrimaryCmpNode(self, e):
        op = e.operator.replace('_', ' ')
        b = e.operand2
        if type(b).__name__ == 'NullNode' or type(e.operand1).__name__ == 'NullNode':
            op = {'==': 'is', '!=': 'is not'}.get(op, op)
        s = '%s %s %s' % (self.expr(e.operand1), op, self.expr(b))
        c = e.cascade
        while c is not None:
            s += ' %s %s' % (c.operator.replace('_', ' '), self.expr(c.operand2))
            c = c.cascade
        return '(' + s + ')'

    def e_CondExprNode(self, e):
        return '(%s if %s else %s)' % (self.expr(e.true_val), self.expr(e.test), self.expr(e.false_val))

    def e_SimpleCallNode(self, e):
        return '%s(%s)' % (self.expr(e.function), ', '.join(self.expr(a) for a in e.args))

    def e_GeneralCallNode(self, e):
        pa = e.positional_args
        a = []
        if type(pa).__name__ == 'TupleNode':
            a = [self.expr(x) for x in pa.args]
        else:
            a = ['*' + self.expr(pa)]
        kw = e.keyword_args
        if kw is not None:
            a += self._kw(kw)
        return '%s(%s)' % (self.expr(e.function), ', '.join(a))

    def _kw(self, kw):
        if type(kw).__name__ == 'DictNode':
            out = []
            for i in kw.key_value_pairs:
                v = i.key.value
                v = v.decode() if isinstance(v, bytes) else str(v)
                out.append('%s=%s' % (v, self.expr(i.value)))
            return out
        if type(kw).__name__ == 'MergedDictNode':
            out = []
            for x in kw.keyword_args:
                out += self._kw(x)
            return out
        return ['**' + self.expr(kw)]

    def e_TypecastNode(self, e):
        t = self.decl(e.base_type, e.declarator)[1]
        s = self.expr(e.operand)
        if t[0] == 'int':
            return '_ctrunc(%s)' % s
        if t[0] == 'real':
            return '_creal(%s)' % s
        return s

    def e_AmpersandNode(self, e):
        o = e.operand
        n = type(o).__name__
        if n == 'NameNode':
            return o.name
        if n == 'IndexNode':
            return '%s.at(%s)' % (self.expr(o.base), self.expr(o.index))
        raise Unsupported("address of %s" % n)

    def e_ComprehensionNode(self, e):
        # [expr for t in seq if c]; only simple nesting
        parts = []
        node = e.loop
        while True:
            n = type(node).__name__
            if n == 'ForInStatNode':
                parts.append('for %s in %s' % (self.target(node.target), self.expr(node.iterator.sequence)))
                node = node.body
            elif n == 'IfStatNode':
                parts.append('if ' + self.expr(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif n == 'StatListNode' and len(node.stats) == 1:
                node = node.stats[0]
            elif n == 'ExprStatNode':
                node = node.expr
            elif n == 'ComprehensionAppendNode':
                s = self.expr(node.expr)
                break
            elif n == 'DictComprehensionAppendNode':
                s = '%s: %s' % (self.expr(node.key_expr), self.expr(node.value_expr))
                return '{%s %s}' % (s, ' '.join(parts))
            else:
                raise Unsupported("comprehension %s" % n)
        return '[%s %s]' % (s, ' '.join(parts))

    def e_LambdaNode(self, e):
        names = [self.argname(a)[0] for a in e.args]
        return '(lambda %s: %s)' % (', '.join(names), self.expr(e.result_expr))

    def e_StarredUnpackingNode(self, e):
        return '*' + self.expr(e.target)

    def e_ImportNode(self, e):
        raise Unsupported("import expression")

    def e_SizeofTypeNode(self, e):
        return '8'

    def target(self, e):
        return self.expr(e)

    # -- statements
    def stat(self, s):
        if s is None:
            return
        n = type(s).__name__
        m = getattr(self, 's_' + n, None)
        if m is None:
            raise Unsupported("cython statement %s at %s" % (n, s.pos[1:]))
        m(s)

    def s_StatListNode(self, s):
        for x in s.stats:
            self.stat(x)

    def s_PassStatNode(self, s):
        self.put('pass')

    def s_ExprStatNode(self, s):
        e = s.expr
        if type(e).__name__ in ('StringNode', 'UnicodeNode'):
            return
        self.put(self.expr(e))

    def conv(self, t, s, have):
        if t is None:
            return s
        if t[0] == 'int':
            return s if have == 'int' else '_cint(%s)' % s
        if t[0] == 'real':
            return s if have == 'real' else '_creal(%s)' % s
        if t[0] == 'mv':
            return '_mview(%s, %r, %d, %r, %r, %r)' % (s, t[1], t[2], t[3], self.dir['wraparound'],
                                                      self.dir['boundscheck'])
        if t[0] == 'ptr' and s.startswith('['):
            v = s
            return '_CArr(0, %r, %s)' % (t[1], v)
        return s

    def assign(self, lhs, rhs, have):
        n = type(lhs).__name__
        if n in ('TupleNode', 'ListNode'):
            self.nk += 1
            typed = any(type(a).__name__ == 'NameNode' and
                        ((self.loc or {}).get(a.name) or self.mt.get(a.name) or ('obj',))[0] in ('int', 'real', 'mv')
                        for a in lhs.args)
            if not typed and not any(type(a).__name__ == 'StarredUnpackingNode' for a in lhs.args) or not typed:
                self.put('%s = %s' % (self.expr(lhs), rhs))
                return
            tmp = ['_t%d_%d' % (self.nk, i) for i in range(len(lhs.args))]
            self.put('%s = %s' % (', '.join(tmp) + (',' if len(tmp) == 1 else ''), rhs))
            for a, t in zip(lhs.args, tmp):
                self.assign(a, t, 'obj')
            return
        if n == 'NameNode':
            t = (self.loc or {}).get(lhs.name)
            if t is None:
                t = self.mt.get(lhs.name) if self.loc is None or lhs.name in self.globals_ else None
            if t is not None and t[0] == 'arr':
                self.put('%s[:] = %s' % (lhs.name, rhs))
                return
            self.put('%s = %s' % (self.expr(lhs), self.conv(t, rhs, have)))
            return
        self.put('%s = %s' % (self.expr(lhs), rhs))

    globals_ = ()

    def s_SingleAssignmentNode(self, s):
        if type(s.rhs).__name__ == 'ImportNode':
            self.imp(s)
            return
        self.assign(s.lhs, self.expr(s.rhs), self.ty(s.rhs))

    def s_CascadedAssignmentNode(self, s):
        self.nk += 1
        t = '_c%d' % self.nk
        self.put('%s = %s' % (t, self.expr(s.rhs)))
        for l in s.lhs_list:
            self.assign(l, t, self.ty(s.rhs))

    def s_ParallelAssignmentNode(self, s):
        self.nk += 1
        names = []
        for i, x in enumerate(s.stats):
            names.append('_p%d_%d' % (self.nk, i))
        self.put('%s = %s' % (', '.join(names), ', '.join(self.expr(x.rhs) for x in s.stats)))
        for x, t in zip(s.stats, names):
            self.assign(x.lhs, t, self.ty(x.rhs))

    def s_InPlaceAssignmentNode(self, s):
        l, r = self.expr(s.lhs), self.expr(s.rhs)
        tl, tr = self.ty(s.lhs), self.ty(s.rhs)
        op = s.operator
        if op in ('/', '%', '//'):
            v = self.divs(op, l, r, tl, tr)
        elif op == '**' and 'obj' not in (tl, tr):
            v = '_cpow(%s, %s)' % (l, r)
        elif tl == 'obj':
            self.put('%s %s= %s' % (l, op, r))
            return
        else:
            v = '(%s %s %s)' % (l, op, r)
        if tl == 'int' and tr != 'int':
            v = '_ctrunc(%s)' % v
        elif tl == 'real' and tr != 'real':
            v = '_creal(%s)' % v
        self.put('%s = %s' % (l, v))

    def s_CVarDefNode(self, s):
        bt = self.basetype(s.base_type)
        for d in s.declarators:
            nm, t, default = self.decl(bt, d)
            (self.loc if self.loc is not None else self.mt)[nm] = t
            if default is not None:
                if t[0] == 'arr':
                    self.put('%s = _CArr(%d, %r, %s, %r)' % (nm, t[2], t[1], self.expr(default), nm))
                    continue
                v = self.conv(t, self.expr(default), self.ty(default))
                if nm in self.boxed:
                    self.put('%s = _CArr(1, %r, [%s], %r)' % (nm, t[0], v, nm))
                else:
                    self.put('%s = %s' % (nm, v))
            elif t[0] == 'arr':
                self.put('%s = _CArr(%d, %r, None, %r)' % (nm, t[2], t[1], nm))
            elif nm in self.boxed:
                self.put('%s = _CArr(1, %r, None, %r)' % (nm, t[0], nm))
            elif t[0] in ('int', 'real'):
                self.put('%s = _uninit(%r, %r)' % (nm, t[0], nm))
            elif self.loc is not None or t[0] != 'func':
                self.put('%s = None' % nm)

    def s_IfStatNode(self, s):
        for i, c in enumerate(s.if_clauses):
            self.put('%s %s:' % ('elif' if i else 'if', self.expr(c.condition)))
            self.block(c.body)
        if s.else_clause is not None:
            self.put('else:')
            self.block(s.else_clause)

    def s_ForInStatNode(self, s):
        seq = s.iterator.sequence
        tn = type(s.target).__name__
        t = (self.loc or {}).get(s.target.name) if tn == 'NameNode' else None
        if (tn == 'NameNode' and (t is None or t[0] not in ('real',)) and s.target.name not in self.boxed) or \
           (tn == 'TupleNode' and not any(type(a).__name__ == 'NameNode' and a.name in self.boxed for a in s.target.args)):
            typed = []
            for a in ([s.target] if tn == 'NameNode' else s.target.args):
                ta = (self.loc or {}).get(getattr(a, 'name', None))
                if ta and ta[0] in ('int', 'real', 'mv'):
                    typed.append((a, ta))
            self.put('for %s in %s:' % (self.expr(s.target), self.expr(seq)))
            self.ind += 1
            for a, ta in typed:
                self.put('%s = %s' % (a.name, self.conv(ta, a.name, 'obj')))
            self.ind -= 1
        else:
            self.nk += 1
            self.put('for _f%d in %s:' % (self.nk, self.expr(seq)))
            self.ind += 1
            self.assign(s.target, '_f%d' % self.nk, 'obj')
            self.ind -= 1
        self.block(s.body)
        if s.else_clause is not None:
            self.put('else:')
            self.block(s.else_clause)

    def s_ForFromStatNode(self, s):
        a, b = self.expr(s.bound1), self.expr(s.bound2)
        step = self.expr(s.step) if s.step is not None else '1'
        if s.relation1 == '<':
            a = '(%s) + %s' % (a, step)
        if s.relation2 == '<=':
            b = '(%s) + 1' % b
        if s.relation1.startswith('>'):
            raise Unsupported("descending for-from")
        self.put('for %s in range(%s, %s, %s):' % (self.expr(s.target), a, b, step))
        self.block(s.body)

    def s_WhileStatNode(self, s):
        self.put('while %s:' % self.expr(s.condition))
        self.ind += 1
        self.put('_tick()')
        self.ind -= 1
        self.block(s.body)
        if s.else_clause is not None:
            self.put('else:')
            self.block(s.else_clause)

    def s_BreakStatNode(self, s):
        self.put('break')

    def s_ContinueStatNode(self, s):
        self.put('continue')

    def s_ReturnStatNode(self, s):
        if s.value is None:
            self.put('return' + (' 0' if self.rettype and self.rettype[0] in ('int', 'real') else ''))
            return
        v = self.expr(s.value)
        if self.rettype:
            v = self.conv(self.rettype if self.rettype[0] != 'mv' else None, v, self.ty(s.value))
        if self.exc is not None:
            v = '_excval(%s, %s)' % (v, self.exc)
        self.put('return ' + v)

    exc = None

    def s_RaiseStatNode(self, s):
        self.put('raise ' + (self.expr(s.exc_type) if s.exc_type is not None else ''))

    def s_ReraiseStatNode(self, s):
        self.put('raise')

    def s_AssertStatNode(self, s):
        c = getattr(s, 'condition', None) or getattr(s, 'cond', None)
        self.put('assert %s%s' % (self.expr(c), '' if s.value is None else ', ' + self.expr(s.value)))

    def s_GlobalNode(self, s):
        self.globals_ = tuple(self.globals_) + tuple(s.names)
        self.put('global ' + ', '.join(s.names))

    def s_NonlocalNode(self, s):
        self.put('nonlocal ' + ', '.join(s.names))

    def s_DelStatNode(self, s):
        self.put('del ' + ', '.join(self.expr(a) for a in s.args))

    def s_PrintStatNode(self, s):
        self.put('pass')

    def s_GILStatNode(self, s):
        self.put('if True:')
        self.block(s.body)

    def s_GILExitNode(self, s):
        pass

    def s_TryExceptStatNode(self, s):
        self.put('try:')
        self.block(s.body)
        for c in s.except_clauses:
            p = ''
            if c.pattern:
                p = ' (%s,)' % ', '.join(self.expr(x) for x in c.pattern)
            if c.target is not None:
                p += ' as ' + self.expr(c.target)
            self.put('except%s:' % p)
            self.block(c.body)
        if s.else_clause is not None:
            self.put('else:')
            self.block(s.else_clause)

    def s_TryFinallyStatNode(self, s):
        if type(s.finally_clause).__name__ == 'GILExitNode':
            self.stat(s.body)
            return
        self.put('try:')
        self.block(s.body)
        self.put('finally:')
        self.block(s.finally_clause)

    def s_WithStatNode(self, s):
        self.put('with %s%s:' % (self.expr(s.manager), '' if s.target is None else ' as ' + self.expr(s.target)))
        self.block(s.body)

    def s_CDefExternNode(self, s):
        pass

    def s_CImportStatNode(self, s):
        if s.module_name == 'cython':
            self.put('import cython')

    def s_FromCImportStatNode(self, s):
        m = s.module_name
        for x in s.imported_names:
            nm, alias = x[1], x[2] or x[1]
            if m in LIBC:
                self.mt[alias] = ('deref',) if nm == 'dereference' else ('libc',)
                if nm in LIBC[m]:
                    self.put('%s = _LIBC[%r][%r]' % (alias, m, nm))
            elif m.startswith('viscid.cython'):
                src = m.rsplit('.', 1)[1]
                if nm == '*':
                    self.mt.update(TYPES.get(src, {}))
                    self.put('_star(globals(), %r)' % src)
                else:
                    t = TYPES.get(src, {}).get(nm)
                    if t is not None:
                        self.mt[alias] = t
                    if t is None or t[0] != 'type' or t[1][0] == 'cls':
                        self.put('%s = _cimp(%r, %r)' % (alias, src, nm))

    def s_FromImportStatNode(self, s):
        m = s.module.module_name.value
        m = m.decode() if isinstance(m, bytes) else str(m)
        if m == '__future__':
            return
        lvl = getattr(s.module, 'level', 0) or 0
        its = []
        for nm, tgt in s.items:
            t = tgt.name
            its.append(str(nm) if str(nm) == t else '%s as %s' % (nm, t))
        self.put('from %s%s import %s' % ('.' * max(lvl, 0), m, ', '.join(its)))

    def imp(self, s):
        m = s.rhs.module_name.value
        m = m.decode() if isinstance(m, bytes) else str(m)
        nm = s.lhs.name
        if nm == m:
            self.put('import %s' % m)
        elif m.split('.')[0] == nm:
            self.put('import %s' % m)
        else:
            self.put('import %s as %s' % (m, nm))

    def s_FusedTypeNode(self, s):
        base = [self.basetype(t)[0] for t in s.types]
        names = [getattr(t, 'name', None) for t in s.types]
        if all(b == 'real' for b in base):
            self.mt[s.name] = ('type', ('real',))
        elif all(b == 'int' for b in base):
            self.mt[s.name] = ('type', ('int',))
        else:
            self.mt[s.name] = ('type', ('cls', names[-1]))

    def s_CTypeDefNode(self, s):
        nm, t, _ = self.decl(s.base_type, s.declarator)
        self.mt[nm] = ('type', t)

    def s_CEnumDefNode(self, s):
        v = 0
        for it in s.items:
            if it.value is not None:
                self.put('%s = %s' % (it.name, self.expr(it.value)))
            else:
                self.put('%s = %d' % (it.name, v))
            v += 1
            self.mt[it.name] = ('int',)

    def s_CClassDefNode(self, s):
        base = s.bases.args[0].name if getattr(s, 'bases', None) is not None and s.bases.args else None
        nm = s.class_name
        f = dict(FIELDS.get(base, {})) if base else {}
        own = {}
        self.mt[nm] = ('type', ('cls', nm))
        if s.body is not None:
            for st in (s.body.stats if type(s.body).__name__ == 'StatListNode' else [s.body]):
                for x in (st.stats if type(st).__name__ == 'StatListNode' else [st]):
                    if type(x).__name__ == 'CVarDefNode':
                        for d in x.declarators:
                            bt = self.basetype(x.base_type)
                            a, t, _ = self.decl(bt, d)
                            own[a] = t
                    elif type(x).__name__ in ('PassStatNode', 'ExprStatNode'):
                        pass
                    else:
                        raise Unsupported("cdef class body %s" % type(x).__name__)
        f.update(own)
        FIELDS[nm] = f
        self.put('class %s(%s):' % (nm, base or '_CObj'))
        self.put('    _types = %r' % own)
        self.put('    _check = %r' % self.dir['boundscheck'])

    # -- functions
    def argname(self, a):
        """-> (name, type, default)"""
        d = a.declarator
        n = type(d).__name__
        if n == 'CNameDeclaratorNode' and d.name == '':
            return a.base_type.name, ('obj',), a.default
        nm, t, _ = self.decl(a.base_type, d)
        return nm, t, a.default

    def addr_taken(self, body):
        out = set()

        def walk(n):
            if type(n).__name__ == 'AmpersandNode' and type(n.operand).__name__ == 'NameNode':
                out.add(n.operand.name)
            for c in (n.child_attrs or []):
                v = getattr(n, c, None)
                if isinstance(v, list):
                    for x in v:
                        if x is not None:
                            walk(x)
                elif v is not None:
                    walk(v)
        walk(body)
        return out

    def func(self, name, args, star, starstar, body, ret, exc, decs):
        save = (self.loc, self.boxed, self.rettype, self.exc, dict(self.dir), self.globals_)
        outer = self.loc
        self.loc = dict(outer) if outer else {}
        self.globals_ = ()
        self.rettype, self.exc = ret, exc
        for d in decs or []:
            dn = d.decorator
            if type(dn).__name__ in ('SimpleCallNode',) and type(dn.function).__name__ == 'AttributeNode':
                if dn.function.attribute in self.dir:
                    self.dir[dn.function.attribute] = bool(dn.args[0].value)
        names = []
        al = [self.argname(a) for a in args]
        locs = dict(self.loc)
        for nm, t, default in al:
            locs[nm] = t
        kwonly = False
        for a, (nm, t, default) in zip(args, al):
            if getattr(a, 'kw_only', False) and not kwonly and not star:
                names.append('*')
                kwonly = True
            names.append(nm if default is None else '%s=%s' % (nm, self.expr(default)))
        if star is not None:
            names.append('*' + star.name)
        if starstar is not None:
            names.append('**' + starstar.name)
        self.loc = locs
        self.boxed = self.addr_taken(body)
        arrs = {nm for nm, t, _ in al if t[0] in ('arr', 'ptr')}
        self.boxed = frozenset(self.boxed - arrs - {k for k, t in locs.items() if t[0] == 'arr'})
        self.put('def %s(%s):' % (name, ', '.join(names)))
        self.ind += 1
        for nm, t, default in al:
            bx, self.boxed = self.boxed, ()
            if t[0] in ('int', 'real', 'mv'):
                self.put('%s = %s' % (nm, self.conv(t, nm, 'obj')))
            self.boxed = bx
            if nm in self.boxed:
                self.put('%s = _CArr(1, %r, [%s], %r)' % (nm, t[0], nm, nm))
        n = len(self.lines)
        self.stat(body)
        if ret and ret[0] in ('int', 'real'):
            self.put('return 0')
        if len(self.lines) == n:
            self.put('pass')
        self.ind -= 1
        self.loc, self.boxed, self.rettype, self.exc, self.dir, self.globals_ = save
        if self.loc is None:
            self.put('')

    def s_CFuncDefNode(self, s):
        d = s.declarator
        rt = self.basetype(s.base_type)
        while type(d).__name__ == 'CPtrDeclaratorNode':
            rt = ('ptr', rt[0])
            d = d.base
        name = d.base.name
        self.mt[name] = ('cfunc', rt[0])
        exc = None
        if d.exception_value is not None:
            exc = self.expr(d.exception_value)
        self.func(name, d.args, None, None, s.body, rt if rt[0] in ('int', 'real') else None, exc, s.decorators)

    def s_DefNode(self, s):
        if self.loc is None:
            self.mt.setdefault(s.name, ('cfunc', 'obj'))
        self.func(s.name, s.args, s.star_arg, s.starstar_arg, s.body, None, None, s.decorators)
        for d in reversed(s.decorators or []):
            dn = d.decorator
            f = dn.function if hasattr(dn, 'function') else dn
            if type(f).__name__ == 'AttributeNode' and getattr(f.obj, 'name', '') == 'cython':
                continue
            self.put('%s = %s(%s)' % (s.name, self.expr(dn), s.name))


FIELDS = {}       # cdef class name -> {attr: type}
TYPES = {}        # module -> C level names
SPACES = {}       # module -> namespace


def excval(v, bad):
    """a C function returning its exception value without an exception"""
    if isinstance(v, SymBool):
        return v
    if bool(v == bad):
        mem_error("error value returned without an exception set")
    return v


def _tick():
    e = engine.ENG
    if e is not None:
        e.tick()


def _cimp(src, nm):
    return SPACES[src].get(nm)


def _star(g, src):
    for k, v in SPACES[src].items():
        if not k.startswith('__') and k not in ('np',):
            g.setdefault(k, v)


def translate(name, pyx, pxd):
    """sources -> python source"""
    mt = TYPES.setdefault(name, {})
    pre = []
    gen = None
    body = []
    for text, isp in ((pxd, True), (pyx, False)):
        if text is None:
            continue
        tree = parse_text(name, text, isp)
        g = Gen(name, mt, tree.directive_comments or {})
        if gen is not None:
            g.consts = gen.consts
        # C names must be known before bodies are generated
        stats = tree.body.stats if type(tree.body).__name__ == 'StatListNode' else [tree.body]
        for s in stats:
            if type(s).__name__ == 'CFuncDefNode':
                d = s.declarator
                while type(d).__name__ == 'CPtrDeclaratorNode':
                    d = d.base
                if d.base.name not in mt:
                    mt[d.base.name] = ('cfunc', g.basetype(s.base_type)[0])
            elif type(s).__name__ == 'DefNode':
                mt.setdefault(s.name, ('cfunc', 'obj'))
        for s in stats:
            if isp and type(s).__name__ == 'CVarDefNode':
                for d in s.declarators:
                    # declarations of functions / variables
                    if type(d).__name__ == 'CFuncDeclaratorNode':
                        mt[d.base.name] = ('cfunc', g.basetype(s.base_type)[0])
                    else:
                        nm, t, _ = g.decl(g.basetype(s.base_type), d)
                        mt[nm] = t
                continue
            g.stat(s)
        body += g.lines
        gen = g
    for (kind, text), nm in gen.consts.items():
        pre.append('%s = _const(_Fr(%r))' % (nm, text))
    return '\n'.join(pre + body) + '\n'


def load_all(repo, names=None, probes=None, keep=None):
    """translate and execute the modules; returns {name: module}"""
    import linecache
    FIELDS.clear()
    TYPES.clear()
    SPACES.clear()
    d = os.path.join(repo, 'viscid', 'cython')

    def rd(fn):
        p = os.path.join(d, fn)
        if not os.path.exists(p):
            return None
        with open(p) as f:
            return f.read()
    mods = {}
    order = ['misc_inlines'] + (names or MODS)
    extra = [f[:-4] for f in sorted(os.listdir(d)) if f.endswith('.pxd')
             and f[:-4] not in order and f[:-4] not in MODS]
    for name in extra + order:
        pyx, pxd = rd(name + '.pyx'), rd(name + '.pxd')
        if name == 'cyfield' and 'misc_inlines' not in TYPES:
            pass
        if probes and name in probes:
            pyx = pyx + '\n' + probes[name]
        if name in ('misc_inlines',) or pyx is None:
            # pure pxd: needs real_t, declared the same way everywhere
            TYPES.setdefault('cyfield', {}).setdefault('real_t', ('type', ('real',)))
        src = translate(name, pyx, pxd)
        fn = '<cython %s>' % name
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
        if keep:
            with open(os.path.join(keep, name + '.py'), 'w') as f:
                f.write(src)
        m = types.ModuleType('viscid.cython.' + name)
        ns = m.__dict__
        ns.update(_CArr=CArr, _CObj=CObj, _mview=mview, _uninit=uninit, _creal=creal, _cint=cint,
                  _ctrunc=ctrunc, _cdiv=cdiv, _cmod=cmod, _cpow=c_pow, _rdiv=rdiv, _LIBC=LIBC,
                  _excval=excval, _tick=_tick, _cimp=_cimp, _star=_star, _const=const, _Fr=Fraction,
                  range=shim.srange, cython=types.SimpleNamespace(typeof=lambda x: None))
        SPACES[name] = ns
        exec(compile(src, fn, 'exec'), ns)
        shim.inject(m)
        mods[name] = m
    return mods


def install(repo, probes=None, keep=None):
    """replace the compiled modules in all loaded viscid modules"""
    mods = load_all(repo, probes=probes, keep=keep)
    swap = {}
    for name in MODS:
        old = sys.modules.get('viscid.cython.' + name)
        new = mods[name]
        if old is not None:
            swap[id(old)] = new
            for k, v in list(old.__dict__.items()):
                if k in new.__dict__ and (callable(v)) and not isinstance(v, (type, types.ModuleType)):
                    swap.setdefault(id(v), new.__dict__[k])
        sys.modules['viscid.cython.' + name] = new
    for mn, m in list(sys.modules.items()):
        if m is None or not (mn == 'viscid' or mn.startswith('viscid.')):
            continue
        if any(m is x for x in mods.values()):
            continue
        for k, v in list(m.__dict__.items()):
            if id(v) in swap:
                m.__dict__[k] = swap[id(v)]
    return mods
