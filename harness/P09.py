"""Field arithmetic is elementwise and keeps coordinates, centering and metadata; assignment touches the selection only."""
import itertools
import operator
import numpy as np
from sym.run import Case
from harness.common import raw, mkcrds

PROP = 'P09'
ENCODED = ['viscid.field.Field.__add__ ... __ge__ (all operators and reflected operators), wrap, __array_wrap__, __array__, _ow, '
           'set_slice, __setitem__, _FldSlcProxy.__setitem__, abs/neg/pos/invert, reductions (sum, mean, min, max, prod, any, all)',
           'viscid.field.VectorField._ow']
BOUNDS = ("1..3 axes of 2..3 points, symbolic values and symbolic scalar operands in [-4, 4] (divisors in [1/4, 4]), node and cell "
          "centers, scalar fields and 2/3 component vector fields in both layouts and mixed; assignment: every integer start/stop in "
          "[-n-1, n+1], strides +-1, 2, single index, location window, in each axis")
ASSUME = ["divisors are positive; integer exponents 0..3 and 1/2"]
OUTSIDE = "shift operators, divmod, complex fields; a result with one single value is returned as a number"


def mk(ctx, name, sh, kind, center, uniform=False, crds=None, nc=3, lo=-4, hi=4):
    """(field, values as array with leading component axis or None)"""
    import viscid
    if crds is None:
        crds = mkcrds(ctx, 'xyz'[:len(sh)], [s + (center == 'cell') for s in sh], uniform)
    if kind == 'scalar':
        v = ctx.reals(name, tuple(sh), lo, hi)
        return viscid.wrap_field(v, crds, name=name, center=center, time=3.5, tag='kept'), raw(v).copy()
    v = ctx.reals(name, (nc,) + tuple(sh), lo, hi)
    f = viscid.wrap_field(v, crds, fldtype='vector', name=name, center=center, time=3.5, tag='kept')
    c = raw(v).copy()
    if kind == 'interlaced':
        f = f.as_layout('interlaced')
    return f, c


def comps_of(f):
    """values with leading component axis"""
    d = raw(f.data)
    if not f.nr_comps:
        return d
    return d if f.layout == 'flat' else np.moveaxis(d, -1, 0)


def alleq(ctx, g, w, label):
    if tuple(g.shape) != tuple(w.shape):
        ctx.fail('%s: shape %s instead of %s' % (label, g.shape, w.shape))
        return
    for i in np.ndindex(*w.shape):
        ctx.eq(g[i], w[i], label)


def same_place(ctx, r, f, lbl):
    ctx.check(list(r.crds.axes) == list(f.crds.axes), lbl + ': axes')
    ctx.check(r.crds.crdtype == f.crds.crdtype, lbl + ': grid type')
    for ax in f.crds.axes:
        alleq(ctx, raw(r.crds.get_nc(ax)), raw(f.crds.get_nc(ax)), lbl + ': coordinates')
        alleq(ctx, raw(r.get_crd(ax)), raw(f.get_crd(ax)), lbl + ': coordinates')
    ctx.check(r.center == f.center, lbl + ': centering')
    ctx.check(float(r.time) == 3.5, lbl + ': time')
    ctx.check(r.meta.get('tag') == 'kept', lbl + ': metadata')


def bc(a, b):
    """broadcast a scalar field's values against a vector's"""
    nd = max(getattr(a, 'ndim', 0), getattr(b, 'ndim', 0))
    return nd


BIN = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv)
CMP = dict(lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge, eq=operator.eq, ne=operator.ne)


def apply(op, a, b):
    """elementwise reference on object / float arrays or numbers"""
    A = a if isinstance(a, np.ndarray) else None
    B = b if isinstance(b, np.ndarray) else None
    shp = max([x.shape for x in (A, B) if x is not None], key=len)
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        x = a if A is None else a[i[len(shp) - a.ndim:]]
        y = b if B is None else b[i[len(shp) - b.ndim:]]
        out[i] = op(x, y)
    return out


def flds(ctx, sh, ka, kb, center, div):
    fa, va = mk(ctx, 'a', sh, ka, center, lo=0.25 if div else -4)
    fb, vb = mk(ctx, 'b', sh, kb, center, crds=fa.crds, lo=0.25 if div else -4)
    return fa, va, fb, vb


def binary(ctx, sh, ka, kb, center):
    """field op field"""
    o = ctx.choice('op', list(BIN))
    fa, va, fb, vb = flds(ctx, sh, ka, kb, center, o == 'div')
    r = BIN[o](fa, fb)
    want = apply(BIN[o], va, vb)
    ctx.check(bool(r.nr_comps) == (ka != 'scalar' or kb != 'scalar'), 'scalar or vector result')
    alleq(ctx, comps_of(r), want, 'field %s field' % o)
    same_place(ctx, r, fa, 'field %s field' % o)
    alleq(ctx, comps_of(fa), va, 'operands are not changed')
    alleq(ctx, comps_of(fb), vb, 'operands are not changed')


def ufunc2(ctx, sh, k, center):
    """two argument ufuncs on fields"""
    o = ctx.choice('op', ['add', 'subtract', 'multiply', 'true_divide', 'maximum', 'minimum'])
    fa, va, fb, vb = flds(ctx, sh, k, k, center, o == 'true_divide')
    r = getattr(np, o)(fa, fb)
    fn = dict(add=operator.add, subtract=operator.sub, multiply=operator.mul, true_divide=operator.truediv,
              maximum=lambda x, y: x if bool(x >= y) else y, minimum=lambda x, y: x if bool(x <= y) else y)[o]
    alleq(ctx, comps_of(r), apply(fn, va, vb), 'ufunc ' + o)
    same_place(ctx, r, fa, 'ufunc ' + o)


def number(ctx, sh, k, center):
    """field op number and number op field; arrays in place of numbers"""
    o = ctx.choice('op', list(BIN))
    how = ctx.choice('how', ['f_num', 'num_f', 'f_arr', 'arr_f', 'f_npnum'])
    f, v = mk(ctx, 'a', sh, k, center, lo=0.25 if o == 'div' else -4)
    if how in ('f_num', 'num_f'):
        x = ctx.real('x', 0.25 if o == 'div' else -4, 4)
        r = BIN[o](f, x) if how == 'f_num' else BIN[o](x, f)
        want = apply(BIN[o], v, x) if how == 'f_num' else apply(BIN[o], x, v)
    elif how == 'f_npnum':
        r, want = BIN[o](f, np.float64(1.5)), apply(BIN[o], v, 1.5)
    else:
        a = ctx.reals('x', tuple(f.shape), 0.25 if o == 'div' else -4, 4)
        av = raw(a)
        if f.nr_comps and f.layout == 'interlaced':
            av = np.moveaxis(av, -1, 0)
        r = BIN[o](f, a) if how == 'f_arr' else BIN[o](a, f)
        want = apply(BIN[o], v, av) if how == 'f_arr' else apply(BIN[o], av, v)
    alleq(ctx, comps_of(r), want, '%s %s' % (how, o))
    same_place(ctx, r, f, '%s %s' % (how, o))
    if f.nr_comps:
        ctx.check(r.layout == f.layout, 'layout of a field is kept')


def whole(ctx, sh, k, center):
    """powers, floor division, remainder"""
    o = ctx.choice('op', ['pow0', 'pow1', 'pow2', 'pow3', 'floordiv', 'mod', 'rfloordiv', 'rmod', 'neg', 'pos', 'abs', 'npabs',
                          'negative', 'square'])
    f, v = mk(ctx, 'a', sh, k, center, lo=0.25 if o.startswith('r') else -4)
    if o.startswith('pow'):
        n = int(o[3:])
        r, want = f ** n, apply(lambda x, y: x ** y, v, n)
    elif o in ('floordiv', 'mod'):
        fn = operator.floordiv if o == 'floordiv' else operator.mod
        r, want = fn(f, 1.5), apply(fn, v, 1.5)
    elif o in ('rfloordiv', 'rmod'):
        return
    elif o == 'neg':
        r, want = -f, apply(lambda x, y: -x, v, 0)
    elif o == 'negative':
        r, want = np.negative(f), apply(lambda x, y: -x, v, 0)
    elif o == 'square':
        r, want = np.square(f), apply(lambda x, y: x * x, v, 0)
    elif o == 'pos':
        r, want = +f, v
    else:
        r, want = (abs(f) if o == 'abs' else np.abs(f)), apply(lambda x, y: x if bool(x >= 0) else -x, v, 0)
    alleq(ctx, comps_of(r), want, o)
    same_place(ctx, r, f, o)
    alleq(ctx, comps_of(f), v, 'operands are not changed')


def compare(ctx, sh, k, center):
    o = ctx.choice('op', list(CMP))
    how = ctx.choice('how', ['ff', 'fn', 'nf', 'uf'])
    f, v = mk(ctx, 'a', sh, k, center, nc=2)
    if how in ('ff', 'uf'):
        g, w = mk(ctx, 'b', sh, k, center, crds=f.crds, nc=2)
        if how == 'uf':
            r = dict(lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal, eq=np.equal, ne=np.not_equal)[o](f, g)
        else:
            r = CMP[o](f, g)
        want = apply(CMP[o], v, w)
    else:
        x = ctx.real('x', -4, 4)
        r = CMP[o](f, x) if how == 'fn' else CMP[o](x, f)
        want = apply(CMP[o], v, x) if how == 'fn' else apply(CMP[o], x, v)
    g = comps_of(r)
    if g.shape != want.shape:
        ctx.fail('comparison: shape')
        return
    for i in np.ndindex(*want.shape):
        ctx.check(bool(g[i]) == bool(want[i]), 'comparison %s' % o)
    same_place(ctx, r, f, 'comparison ' + o)


def masks(ctx, sh, center):
    import viscid
    f, v = mk(ctx, 'a', sh, 'scalar', center)
    n = int(np.prod(sh))
    bits = [[bool(ctx.choice('m%d_%d' % (q, i), [False, True])) for i in range(n)] for q in range(2)]
    m = [viscid.wrap_field(np.array(b).reshape(sh), f.crds, name='m', center=center, time=3.5, tag='kept') for b in bits]
    b = [np.array(x).reshape(sh) for x in bits]
    for nm, r, want in (('and', m[0] & m[1], b[0] & b[1]), ('or', m[0] | m[1], b[0] | b[1]), ('xor', m[0] ^ m[1], b[0] ^ b[1]),
                        ('not', ~m[0], ~b[0])):
        ctx.check(bool((raw(r.data) == want).all()), 'mask ' + nm)
        same_place(ctx, r, f, 'mask ' + nm)
    ctx.check(bool(m[0].any()) == bool(b[0].any()) and bool(m[0].all()) == bool(b[0].all()), 'any, all')


def chain(ctx, sh, k, center):
    """an expression of several operators"""
    f, v = mk(ctx, 'a', sh, k, center, nc=2)
    g, w = mk(ctx, 'b', sh, 'scalar', center, crds=f.crds)
    x = ctx.real('x', -4, 4)
    r = x * f - (f * g) / 2 + 1
    want = apply(operator.add, apply(operator.sub, apply(operator.mul, x, v), apply(operator.truediv, apply(operator.mul, v, w), 2)), 1)
    alleq(ctx, comps_of(r), want, 'expression')
    same_place(ctx, r, f, 'expression')
    h = f
    h += x
    alleq(ctx, comps_of(h), apply(operator.add, v, x), 'augmented assignment')
    alleq(ctx, comps_of(f), v, 'augmented assignment makes a new field')


def reduce_case(ctx, sh, k, center):
    """reductions along one axis and over everything"""
    f, v = mk(ctx, 'a', sh, k, center, nc=2)
    what = ctx.choice('what', ['sum', 'mean', 'max', 'min', 'prod'] if len(sh) == 1 else ['sum', 'mean', 'max'])
    names = list(f.crds.axes)

    def red(vals):
        r = vals[0]
        for y in vals[1:]:
            if what in ('sum', 'mean'):
                r = r + y
            elif what == 'prod':
                r = r * y
            elif what == 'max':
                r = y if bool(y > r) else r
            else:
                r = y if bool(y < r) else r
        return r / len(vals) if what == 'mean' else r
    if ctx.choice('all', [True, False]) or len(sh) == 1:
        ctx.eq(getattr(f, what)(), red(list(v.ravel())), 'reduction of everything')
        return
    ax = int(ctx.choice('axis', list(range(len(sh)))))
    fax = ax + (1 if k == 'flat' else 0)
    for r in (getattr(f, what)(axis=fax), getattr(np, what)(f, axis=fax)):
        vv = np.moveaxis(v, ax + (k != 'scalar'), 0)
        want = np.empty(vv.shape[1:], dtype=object)
        for i in np.ndindex(*want.shape):
            want[i] = red([vv[(j,) + i] for j in range(vv.shape[0])])
        g = comps_of(r)
        ctx.check(r.size == want.size, 'reduction: size')
        alleq(ctx, g.reshape(want.shape), want, 'reduction along an axis')
        left = [a for a in names if a != names[ax]]
        ctx.check([a for a in r.crds.axes if a != names[ax]] == left, 'reduction: axes left')
        for a in left:
            alleq(ctx, raw(r.get_crd(a)), raw(f.get_crd(a)), 'reduction: coordinates left')


def assign(ctx, sh, k, center, axis):
    """f[selection] = value"""
    import viscid
    f, v = mk(ctx, 'a', sh, k, center, nc=2)
    n = sh[axis]
    nm = f.crds.axes[axis]
    kind = ctx.choice('kind', ['slice', 'index', 'named', 'window', 'iloc'])
    st = 1
    if kind in ('slice', 'named', 'iloc'):
        a = int(ctx.int('a', -n - 1, n + 1)) if ctx.choice('a?', [True, False]) else None
        b = int(ctx.int('b', -n - 1, n + 1)) if ctx.choice('b?', [True, False]) else None
        st = ctx.choice('step', [1, 2, -1] if kind == 'slice' else [1])
        s = slice(a, b, st)
        idx = list(range(n))[s]
        one = False
    elif kind == 'index':
        i = int(ctx.int('i', -n, n - 1))
        s, idx, one = i, [i % n], True
    else:
        c = raw(f.get_crd(nm))
        i = int(ctx.int('i', 0, n - 1))
        s, idx, one = slice('%rj' % float(c[i]), None), list(range(i, n)), False
    sel = tuple([slice(None)] * axis + [s])
    sub = list(sh)
    if one:
        sub.pop(axis)
    else:
        sub[axis] = len(idx)
    use = ctx.choice('value', ['number', 'array', 'field'] if kind in ('slice', 'index') else ['number'])
    new = v.copy()
    full = [slice(None)] * (v.ndim)
    off = 1 if k != 'scalar' else 0
    x = ctx.real('x', -4, 4)
    if use == 'number':
        val = x
        w = None
    else:
        shp = ([2] if k == 'flat' else []) + sub + ([2] if k == 'interlaced' else [])
        if 0 in shp or not shp:
            val, w = x, None
        else:
            arr = ctx.reals('n', tuple(shp), -4, 4)
            w = raw(arr)
            if k == 'interlaced':
                w = np.moveaxis(w, -1, 0)
            val = arr
            if use == 'field':
                g, gv = mk(ctx, 'g', sh, k, center, crds=f.crds, nc=2)
                val = g[sel]
                ff = list(full)
                ff[axis + off] = idx[0] if one else (idx if idx else slice(0, 0))
                w = gv[tuple(ff)]
    if kind == 'named':
        f['%s=%s:%s' % (nm, '' if s.start is None else s.start, '' if s.stop is None else s.stop)] = val
    elif kind == 'iloc':
        f.iloc[sel] = val
    elif kind == 'window':
        f.loc[tuple([slice(None)] * axis + [slice(float(c[i]), None)])] = val
    else:
        f[sel] = val
    for q, j in enumerate(idx):
        full[axis + off] = j
        t = tuple(full)
        if w is None:
            if v.ndim == 1:
                new[t] = x
            else:
                for i in np.ndindex(*new[t].shape):
                    new[t][i] = x
        elif one:
            new[t] = w
        else:
            src = list([slice(None)] * v.ndim)
            src[axis + off] = q
            new[t] = w[tuple(src)]
    alleq(ctx, comps_of(f), new, 'assignment changes exactly the selected elements')


def cases(tier):
    out = []
    th = tier != 'quick'
    K = ('scalar', 'flat', 'interlaced')
    for center in ('node', 'cell'):
        for sh in ([2], [2, 3], [3, 3]) + (([3, 3, 3], [2, 3, 2]) if th else ()):
            nm = '%s_%s' % (center, 'x'.join(map(str, sh)))
            for ka, kb in itertools.product(K, K):
                out.append(Case('binary_%s_%s_%s' % (nm, ka, kb), lambda ctx, s=sh, a=ka, b=kb, c=center: binary(ctx, s, a, b, c),
                                weight=2))
            for k in K:
                out.append(Case('ufunc_%s_%s' % (nm, k), lambda ctx, s=sh if k == 'scalar' else [2], k=k, c=center: ufunc2(ctx, s, k, c),
                                weight=3))
                out.append(Case('number_%s_%s' % (nm, k), lambda ctx, s=sh, k=k, c=center: number(ctx, s, k, c), weight=2))
                out.append(Case('whole_%s_%s' % (nm, k), lambda ctx, s=[2], k=k, c=center: whole(ctx, s, k, c), weight=3))
                out.append(Case('chain_%s_%s' % (nm, k), lambda ctx, s=sh, k=k, c=center: chain(ctx, s, k, c)))
        for k in K:
            out.append(Case('compare_%s_%s' % (center, k), lambda ctx, k=k, c=center: compare(ctx, [2], k, c), weight=3))
            for sh in ([3], [2, 2]):
                out.append(Case('reduce_%s_%s_%s' % (center, k, 'x'.join(map(str, sh))),
                                lambda ctx, s=sh, k=k, c=center: reduce_case(ctx, s, k, c), weight=3))
            for sh, ax in (([3], 0), ([2, 3], 0), ([2, 3], 1)) + ((([4], 0), ([2, 3, 2], 1)) if th else ()):
                out.append(Case('assign_%s_%s_%s_%d' % (center, k, 'x'.join(map(str, sh)), ax),
                                lambda ctx, s=sh, k=k, c=center, a=ax: assign(ctx, s, k, c, a), weight=5))
        out.append(Case('masks_' + center, lambda ctx, c=center: masks(ctx, [3], c), weight=2))
    return out
