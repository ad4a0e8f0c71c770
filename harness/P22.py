"""Vector algebra obeys its identities and all backends agree."""
import numpy as np
from sym.run import Case
from harness.common import raw, rejects

PROP = 'P22'
ENCODED = ['viscid.calculator.calc: dot, cross, magnitude, project, normalize, project_vector, neg, scale, add, diff, mul, axpby, '
           'relative_diff, abs_diff, abs_val, abs_max, abs_min (numpy, native and numexpr backends), Operation dispatch',
           'viscid.calculator.necalc (numexpr expressions evaluated exactly)', 'viscid.field: component_views, wrap, as_flat, reductions']
BOUNDS = ("vector fields of 3 components on grids of 1 to 3 dimensions with 1 to 4 points per axis, every value symbolic, flat and interlaced "
          "layouts (also one of each where the backend accepts it), node and cell centered, uniform and uneven grids")
ASSUME = ["vectors divided by their length have length >= 1/16", "numexpr evaluates the written expression exactly"]
OUTSIDE = "rounding; integer data"


def grid(ctx, shape, center, uniform):
    import viscid
    n = [s + (1 if center == 'cell' else 0) for s in shape]
    if uniform:
        return viscid.wrap_crds('uniform_cartesian', [(ax, [-1.0, -1.0 + 0.5 * (k - 1), k]) for ax, k in zip('xyz', n)])
    return viscid.wrap_crds('nonuniform_cartesian', [(ax, ctx.consts([0.5 * i + 0.25 * i * i for i in range(k)])) for ax, k in zip('xyz', n)])


def vec(ctx, name, shape, crds, center, layout, bound=None):
    import viscid
    lo, hi = (None, None) if bound is None else (-bound, bound)
    v = ctx.reals(name, (3,) + tuple(shape), lo, hi)
    A = v if layout == 'flat' else np.ascontiguousarray(np.moveaxis(v, 0, -1)) if not ctx.symbolic else np.moveaxis(v, 0, -1).copy()
    return viscid.wrap_field(A, crds, name=name, fldtype='vector', center=center, layout=layout), raw(v)


def pts(shape):
    return list(np.ndindex(*shape))


def vals(ctx, r, shape, label, n=1):
    if n == 1 and not hasattr(r, 'crds') and int(np.prod(shape)) == 1:
        v = np.empty(shape, dtype=object)
        v[...] = raw(r).ravel()[0]
        return v
    c = [raw(r)] if n == 1 else [raw(x) for x in r.component_views()]
    if len(c) != n:
        ctx.fail(label + ': number of components')
        return None
    for x in c:
        if tuple(x.shape) != tuple(shape):
            ctx.fail('%s: shape %s' % (label, x.shape))
            return None
    return c[0] if n == 1 else c


def meta(ctx, r, f, label):
    if not hasattr(r, 'crds') and int(np.prod(f.sshape)) == 1:
        return
    ctx.check(r.center == f.center, label + ': centering')
    ctx.check(list(r.crds.axes) == list(f.crds.axes), label + ': axes')
    for a in f.crds.axes:
        x, y = raw(r.get_crd(a)), raw(f.get_crd(a))
        ctx.check(len(x) == len(y), label + ': coordinates')
        for p, q in zip(x, y):
            ctx.eq(p, q, label + ': coordinates')


def rt(x):
    return np.sqrt(x) if isinstance(x, (float, np.floating)) else x.sqrt()


def d3(a, b, i):
    return sum(a[(c,) + i] * b[(c,) + i] for c in range(3))


def ops(ctx, op, shape, center, la, lb, uniform, backend):
    import viscid
    crds = grid(ctx, shape, center, uniform)
    a, A = vec(ctx, 'a', shape, crds, center, la)
    b, B = vec(ctx, 'b', shape, crds, center, lb)
    kw = dict(preferred=backend, only=True) if backend else {}
    if op == 'dot':
        r = viscid.dot(a, b, **kw)
        v = vals(ctx, r, shape, op)
        if v is not None:
            for i in pts(shape):
                ctx.eq(v[i], d3(A, B, i), 'dot product')
    elif op == 'cross':
        r = viscid.cross(a, b, **kw)
        v = vals(ctx, r, shape, op, 3)
        if v is not None:
            for i in pts(shape):
                for c in range(3):
                    p, q = (c + 1) % 3, (c + 2) % 3
                    ctx.eq(v[c][i], A[(p,) + i] * B[(q,) + i] - A[(q,) + i] * B[(p,) + i], 'cross product')
    elif op == 'magnitude':
        r = viscid.magnitude(a, **kw)
        v = vals(ctx, r, shape, op)
        if v is not None:
            for i in pts(shape):
                ctx.check(v[i] >= 0, 'magnitude is not negative')
                ctx.eq(v[i] * v[i], d3(A, A, i), 'magnitude squared is the vector dotted with itself')
    elif op == 'project':
        for i in pts(shape):
            ctx.assume(d3(B, B, i) >= 0.004)
        r = viscid.project(a, b, **kw)
        v = vals(ctx, r, shape, op)
        if v is not None:
            for i in pts(shape):
                ctx.eq(v[i] * rt(d3(B, B, i)), d3(A, B, i), 'projection times magnitude is the dot product')
    elif op == 'normalize':
        for i in pts(shape):
            ctx.assume(d3(A, A, i) >= 0.004)
        r = viscid.normalize(a, **kw)
        v = vals(ctx, r, shape, op, 3)
        if v is not None:
            for i in pts(shape):
                m = rt(d3(A, A, i))
                for c in range(3):
                    ctx.eq(v[c][i] * m, A[(c,) + i], 'unit vector times magnitude is the vector')
    elif op == 'project_vector':
        for i in pts(shape):
            ctx.assume(d3(B, B, i) >= 0.004)
        r = viscid.project_vector(a, b)
        v = vals(ctx, r, shape, op, 3)
        if v is not None:
            for i in pts(shape):
                m = rt(d3(B, B, i))
                u = [B[(c,) + i] / m for c in range(3)]
                s = sum(A[(c,) + i] * u[c] for c in range(3)) / rt(sum(x * x for x in u))
                for c in range(3):
                    ctx.eq(v[c][i], s * u[c], 'vector projection')
    meta(ctx, r, a, op)


def orth(ctx, la, lb, backend):
    """a x b is orthogonal to a and b, computed with the library's own dot; cross is antisymmetric"""
    import viscid
    shape = (2,)
    crds = grid(ctx, shape, 'node', False)
    a, A = vec(ctx, 'a', shape, crds, 'node', la)
    b, B = vec(ctx, 'b', shape, crds, 'node', lb)
    kw = dict(preferred=backend, only=True)
    x = viscid.cross(a, b, **kw)
    y = viscid.cross(b, a, **kw)
    for i in range(2):
        X = [raw(v)[i] for v in x.component_views()]
        Y = [raw(v)[i] for v in y.component_views()]
        ctx.eq(sum(X[c] * A[c, i] for c in range(3)), 0.0, 'a x b orthogonal to a')
        ctx.eq(sum(X[c] * B[c, i] for c in range(3)), 0.0, 'a x b orthogonal to b')
        for c in range(3):
            ctx.eq(X[c], -Y[c], 'antisymmetric')


def scalar(ctx, op, backend, kind):
    """the scalar operations of every backend"""
    import viscid
    shape = (2, 2)
    center = kind[0]
    crds = grid(ctx, shape, center, kind[1])
    if kind[2]:
        a, A = vec(ctx, 'a', shape, crds, center, kind[2])
        b, B = vec(ctx, 'b', shape, crds, center, kind[2])
        A = A if kind[2] == 'flat' else np.moveaxis(A, 0, -1)
        B = B if kind[2] == 'flat' else np.moveaxis(B, 0, -1)
    else:
        A, B = ctx.reals('a', shape), ctx.reals('b', shape)
        a = viscid.wrap_field(A, crds, name='a', center=center)
        b = viscid.wrap_field(B, crds, name='b', center=center)
        A, B = raw(A), raw(B)
    kw = dict(preferred=backend, only=True)
    x, y = 2.5, -1.5
    f = getattr(viscid, op)
    one = lambda z: abs(z)
    if op in ('abs_val', 'abs_diff', 'abs_max', 'abs_min'):
        keep = 3 if op in ('abs_max', 'abs_min') else 4
        for k, e in enumerate(A.ravel()):
            if k >= keep:
                ctx.assume(e >= 1)
        for k, e in enumerate(B.ravel()):
            ctx.assume(e == 0.5)
    if op == 'relative_diff':
        for e in A.ravel():
            ctx.assume(e >= 0.0625)
    if op == 'scale':
        r, w = f(x, b, **kw), lambda i: x * B[i]
    elif op == 'axpby':
        r, w = f(x, a, y, b, **kw), lambda i: x * A[i] + y * B[i]
    elif op in ('neg', 'abs_val'):
        r, w = f(a, **kw), (lambda i: -A[i]) if op == 'neg' else (lambda i: abs(A[i]))
    elif op in ('abs_max', 'abs_min'):
        r = f(a, **kw)
        best = abs(A.ravel()[0])
        for e in A.ravel()[1:]:
            e = abs(e)
            if bool(e > best) if op == 'abs_max' else bool(e < best):
                best = e
        ctx.eq(r[()] if isinstance(r, np.ndarray) else r, best, op)
        return
    elif op == 'relative_diff':
        r, w = f(a, b, **kw), lambda i: (A[i] - B[i]) / A[i]
    else:
        r = f(a, b, **kw)
        w = dict(add=lambda i: A[i] + B[i], diff=lambda i: A[i] - B[i], mul=lambda i: A[i] * B[i], abs_diff=lambda i: abs(A[i] - B[i]))[op]
    R = raw(r)
    if R.shape != A.shape:
        ctx.fail('%s: shape %s' % (op, R.shape))
        return
    for i in np.ndindex(*A.shape):
        ctx.eq(R[i], w(i), op)
    meta(ctx, r, a, op)


def dispatch(ctx):
    """asking for a backend that does not exist is an error with only=True and falls back otherwise"""
    import viscid
    crds = grid(ctx, (2,), 'node', False)
    a, A = vec(ctx, 'a', (2,), crds, 'node', 'flat')
    rejects(ctx, lambda: viscid.dot(a, a, preferred='fortran', only=True), 'unknown backend')
    v = raw(viscid.dot(a, a, preferred='fortran'))
    for i in range(2):
        ctx.eq(v[i], d3(A, A, (i,)), 'fallback backend')


def cases(tier):
    th = tier != 'quick'
    out = []
    shapes = [(2,), (1,), (2, 2), (1, 2), (2, 1, 2), (4, 2)] if not th else [(2,), (1,), (4,), (2, 2), (1, 2), (2, 1, 2), (2, 2, 2), (4, 2), (5, 4), (1, 1, 1), (4, 2, 2)]
    for op, backends in (('dot', ('numpy', 'numexpr', None)), ('cross', ('numpy', 'numexpr', None)), ('magnitude', ('numpy', 'numexpr', 'native')),
                         ('project', ('numpy', 'numexpr')), ('normalize', ('numpy', 'numexpr')), ('project_vector', (None,))):
        for backend in backends:
            for la in ('flat', 'interlaced'):
                for lb in ('flat', 'interlaced'):
                    if la != lb and (op in ('magnitude', 'normalize') or backend == 'numpy' and op in ('dot',)):
                        continue
                    for k, shape in enumerate(shapes):
                        if backend == 'native' and len(shape) != 3:
                            continue
                        if op in ('project', 'normalize', 'project_vector') and not th and shape not in ((2,), (1,), (1, 2), (2, 1, 2)):
                            continue
                        if op == 'project_vector' and not th and shape != (2,):
                            continue
                        for center in ('node', 'cell'):
                            if op == 'project_vector' and not th and (center == 'cell') == (la == lb):
                                continue
                            u = (k + (center == 'cell')) % 2 == 0
                            out.append(Case('%s_%s_%s_%s_%s_%s' % (op, backend, la, lb, 'x'.join(map(str, shape)), center),
                                            lambda ctx, o=op, s=shape, c=center, a=la, b=lb, u=u, be=backend: ops(ctx, o, s, c, a, b, u, be)))
    for la in ('flat', 'interlaced'):
        for lb in ('flat', 'interlaced'):
            for backend in ('numpy', 'numexpr'):
                out.append(Case('orth_%s_%s_%s' % (la, lb, backend), lambda ctx, a=la, b=lb, be=backend: orth(ctx, a, b, be)))
    for op in ('neg', 'scale', 'add', 'diff', 'mul', 'axpby', 'relative_diff', 'abs_diff', 'abs_val', 'abs_max', 'abs_min'):
        for backend in ('numpy', 'numexpr'):
            for kind in (('node', False, None), ('cell', True, None), ('node', False, 'flat'), ('cell', False, 'interlaced')):
                out.append(Case('%s_%s_%s' % (op, backend, '_'.join(map(str, kind))), lambda ctx, o=op, b=backend, k=kind: scalar(ctx, o, b, k)))
    out.append(Case('dispatch', dispatch))
    return out
