"""Trilinear and nearest interpolation."""
import numpy as np
from sym.run import Case
from harness.common import raw, uni

PROP = 'P11'
CYTHON = ['cyfield', 'cyamr', 'cycalc']
ENCODED = ['viscid/cython/cycalc.pyx: interp, interp_trilin, interp_nearest, _py_interp_trilin, _py_interp_nearest, _c_interp_trilin, '
           '_c_interp_nearest, closest_preceeding_ind, closest_ind (translated from the Cython source)',
           'viscid/cython/cyfield.pyx: make_cyfield, _init_cyfield; viscid/cython/cyamr.pyx: make_cyamrfield',
           'viscid.seed: to_seeds, Point, wrap_field of grids; viscid.field: as_interlaced, atleast_3d, get_crds_vector']
BOUNDS = ("one and two query points with symbolic position (inside, on grid points and outside); grids of 1 to 5 points per axis, coordinates "
          "concrete (uneven and uniform) or symbolic along all axes; every data value symbolic; scalar and vector fields, node, cell and face "
          "centered, flat and interlaced, 1 to 3 dimensional, 4 and 8 byte integers and floats")
ASSUME = ["coordinates strictly ascending (reversed coordinates are rejected by the code)"]
OUTSIDE = "floating point rounding; more than 5 points per axis"


def grid(ctx, npts, kind):
    """coordinates; kind: uneven | uniform | symbolic | symuni"""
    import viscid
    axes = 'xyz'[:len(npts)]
    if kind == 'uniform':
        return uni(ctx, axes, npts)
    if kind == 'symuni':
        return uni(ctx, axes, npts, sym=True)
    vals = []
    for k, (ax, n) in enumerate(zip(axes, npts)):
        if kind == 'symbolic':
            vals.append((ax, ctx.ascending(ax, n)))
        else:
            vals.append((ax, ctx.consts([0.5 * k - 1 + i + 0.25 * i * i for i in range(n)])))
    return viscid.wrap_crds('nonuniform_cartesian', vals)


def cell(ctx, c, x):
    """(lower index, upper index, weight) of x, clamped to the ends"""
    n = len(c)
    if n == 1 or bool(x <= c[0]):
        return 0, 0, 0
    if bool(x >= c[n - 1]):
        return n - 1, n - 1, 0
    for i in range(n - 1):
        if bool(x < c[i + 1]):
            return i, i + 1, (x - c[i]) / (c[i + 1] - c[i])
    raise AssertionError


def tri(ctx, cs, V, x):
    loc = [cell(ctx, c, xi) for c, xi in zip(cs, x)]
    tot = 0
    for o in np.ndindex(2, 2, 2):
        idx, w = [], 1
        for k, (i0, i1, t) in zip(o, loc):
            idx.append(i1 if k else i0)
            w = w * (t if k else 1 - t)
        if isinstance(w, int) and w == 0:
            continue
        tot = tot + w * V[tuple(idx)]
    return tot


def crds_of(f, c):
    """coordinates of component c (own positions for staggered fields)"""
    cs = [raw(a) for a in f.get_crds_vector()[0:]] if False else None
    v = f.get_crds_vector()
    return [raw(v[ax][c]) for ax in range(len(v))]


def full(f, npts):
    """(coordinates per component, values per component) padded to 3D"""
    nc = max(f.nr_comps, 1)
    nd = len(npts)
    out = []
    views = [raw(w) for w in f.component_views()] if f.nr_comps else [raw(f)]
    for c in range(nc):
        vv = f.get_crds_vector()
        cs = [raw(vv[ax][c]) for ax in range(nd)] + [np.array([0.0])] * (3 - nd)
        out.append((cs, views[c].reshape(tuple(views[c].shape) + (1,) * (3 - nd))))
    return out


def query(ctx, nq, lim):
    if lim is None:
        return ctx.reals('p', (3, nq))
    return ctx.reals('p', (3, nq), lim[0], lim[1])


def mk(ctx, npts, kind, ftype='scalar', center='node', layout='flat', dtype=None):
    import viscid
    crds = grid(ctx, npts, kind)
    shape = tuple(n - (0 if center == 'node' else 1) for n in npts)
    if ftype == 'vector':
        v = ctx.reals('v', (3,) + shape)
        A = v if layout == 'flat' else np.moveaxis(v, 0, -1).copy()
        return viscid.wrap_field(A, crds, name='v', fldtype='vector', center=center, layout=layout)
    if dtype:
        n = int(np.prod(shape))
        A = np.array([(7 * i * i) % 11 - 3 for i in range(n)], dtype=dtype).reshape(shape)
    else:
        A = ctx.reals('v', shape)
    return viscid.wrap_field(A, crds, name='v', center=center)


def value(ctx, npts, kind, ftype, center, layout, nq=1, dtype=None, how='trilin', fixed=None):
    import viscid
    f = mk(ctx, npts, kind, ftype, center, layout, dtype)
    pts = query(ctx, nq, None)
    if fixed:
        for ax in fixed:
            ctx.assume(pts[ax, 0] == fixed[ax])
    fn = dict(trilin=viscid.interp_trilin, linear=viscid.interp_linear,
              kw=lambda *a, **k: viscid.interp(*a, kind='trilinear', **k))[how]
    r = raw(fn(f, pts, wrap=False))
    nc = f.nr_comps
    if tuple(r.shape) != ((nq, nc) if nc else (nq,)):
        ctx.fail('result shape %s' % (r.shape,))
        return
    for q in range(nq):
        x = [pts[k, q] for k in range(3)]
        for c, (cs, V) in enumerate(full(f, npts)):
            got = r[q, c] if nc else r[q]
            ctx.eq(got, tri(ctx, cs, V, x), 'trilinear combination of the surrounding values')


def weights(ctx, npts, kind, corner):
    """a unit value at one point: the result is its weight, between 0 and 1; all ones give one"""
    import viscid
    crds = grid(ctx, npts, kind)
    A = np.zeros(npts)
    A[corner] = 1.0
    one = np.ones(npts)
    pts = query(ctx, 1, None)
    f = viscid.wrap_field(ctx.consts(A), crds, name='w')
    g = viscid.wrap_field(ctx.consts(one), crds, name='o')
    w = raw(viscid.interp_trilin(f, pts, wrap=False))[0]
    ctx.le(0, w, 'never below the range of the surrounding values')
    ctx.le(w, 1, 'never above the range of the surrounding values')
    ctx.eq(raw(viscid.interp_trilin(g, pts, wrap=False))[0], 1, 'constant field')


def linear(ctx, npts, kind, center):
    import viscid
    crds = grid(ctx, npts, kind)
    a, b, c, d = [ctx.real(n, -4, 4) for n in 'abcd']
    xs = [raw(t) for t in (crds.get_crds_nc() if center == 'node' else crds.get_crds_cc())]
    shape = tuple(len(t) for t in xs)
    A = np.empty(shape, dtype=object) if ctx.symbolic else np.empty(shape)
    for i in np.ndindex(*shape):
        A[i] = a + b * xs[0][i[0]] + c * xs[1][i[1]] + d * xs[2][i[2]]
    if ctx.symbolic:
        from sym import shim
        A = A.view(shim.SymArray)
    f = viscid.wrap_field(A, crds, name='l', center=center)
    pts = query(ctx, 1, None)
    for k in range(3):
        ctx.assume(pts[k, 0] >= xs[k][0])
        ctx.assume(pts[k, 0] <= xs[k][-1])
    r = raw(viscid.interp_trilin(f, pts, wrap=False))[0]
    ctx.eq(r, a + b * pts[0, 0] + c * pts[1, 0] + d * pts[2, 0], 'linear function reproduced')


def onto(ctx, n1, n2, ftype, layout, center2):
    """interpolation onto the points of another grid keeps each value at its own point"""
    import viscid
    f = mk(ctx, n1, 'uneven', ftype, 'node', layout)
    offs = [ctx.real('o%d' % k) for k in range(3)]
    vals = []
    for k, n in enumerate(n2):
        base = ctx.consts([0.75 * i for i in range(n)])
        vals.append(('xyz'[k], base + offs[k]))
    crds2 = viscid.wrap_crds('nonuniform_cartesian', vals)
    to = viscid.wrap_field(ctx.consts(np.zeros([n - (center2 == 'cell') for n in n2])), crds2, name='t', center=center2)
    r = viscid.interp_trilin(f, to)
    t = [raw(a) for a in to.get_crds()]
    ctx.check(r.center.lower() == center2, 'result has the centering of the target')
    fu = full(f, n1)
    views = [raw(w) for w in r.component_views()] if f.nr_comps else [raw(r)]
    for c, (cs, V) in enumerate(fu):
        if tuple(views[c].shape) != tuple(len(a) for a in t):
            ctx.fail('shape on the target grid %s' % (views[c].shape,))
            return
        for i in np.ndindex(*views[c].shape):
            x = [t[k][i[k]] for k in range(3)]
            ctx.eq(views[c][i], tri(ctx, cs, V, x), 'value at its own target point')


def nearest(ctx, npts, kind, ftype, center):
    import viscid
    f = mk(ctx, npts, kind, ftype, center, 'flat')
    pts = query(ctx, 1, None)
    r = raw(viscid.interp_nearest(f, pts, wrap=False))
    for c, (cs, V) in enumerate(full(f, npts)):
        got = r[0, c] if f.nr_comps else r[0]
        idx = []
        ties = [[]]
        for k in range(3):
            n = len(cs[k])
            x = pts[k, 0]
            best = []
            for i in range(n):
                d = abs(x - cs[k][i])
                ok = True
                for j in range(n):
                    if j != i and bool(abs(x - cs[k][j]) < d):
                        ok = False
                        break
                if ok:
                    best.append(i)
            ties = [t + [b] for t in ties for b in best]
        hit = False
        for t in ties:
            e = got == V[tuple(t)]
            hit = e if hit is False else (hit | e)
        ctx.check(hit, 'nearest: value of a closest grid point')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        o = dict(weight=k.pop('weight', 1))
        if 'timeout_ms' in k:
            o['timeout_ms'] = k.pop('timeout_ms')
        out.append(Case(nm, lambda ctx: fn(ctx, *a, **k), **o))
    for npts in [(3, 2, 2), (2, 4, 1), (1, 1, 5), (3,), (2, 3)] + ([(3, 3, 3), (4, 3, 3), (2, 3, 4)] if T else []):
        for kind in ('uneven', 'uniform', 'symbolic', 'symuni'):
            add('scalar/%s/%s' % ('x'.join(map(str, npts)), kind), value, npts, kind, 'scalar', 'node', 'flat',
                weight=3 if len(npts) == 3 else 1)
    add('scalar/3x3x3/uneven', value, (3, 3, 3), 'uneven', 'scalar', 'node', 'flat', how='linear', weight=6) if not T else None
    for center in ('node', 'cell', 'face', 'edge'):
        for layout in ('flat', 'interlaced'):
            if center in ('face', 'edge') and layout == 'interlaced':
                continue
            npts = (3, 2, 2) if center == 'node' else (3, 3, 2)
            add('vector/%s/%s' % (center, layout), value, npts, 'uneven', 'vector', center, layout,
                weight=5, how='kw')
    add('vector/uniform', value, (2, 2, 2), 'uniform', 'vector', 'node', 'flat', weight=4)
    add('cell/uniform', value, (4, 3, 2), 'uniform', 'scalar', 'cell', 'flat', weight=4)
    add('cell/symbolic', value, (3, 3, 2), 'symbolic', 'scalar', 'cell', 'flat', weight=4)
    for dt in ('i4', 'i8', 'f4', 'f8'):
        add('dtype/%s' % dt, value, (3, 2, 2), 'uneven', 'scalar', 'node', 'flat', dtype=dt, weight=2)
    for kind in ('uneven', 'uniform'):
        for nq, npts, fx in ((2, (4, 1, 1), None), (2, (1, 3, 2), None)):
            add('two points/%s/%s' % (kind, 'x'.join(map(str, npts))), value, npts, kind, 'scalar', 'node', 'flat', nq=nq, weight=3)
    for corner in [(0, 0, 0), (1, 1, 0)] + ([(1, 0, 1), (2, 1, 1)] if T else []):
        for kind in ('uneven', 'uniform'):
            add('weight/%s/%s' % (kind, corner), weights, (3, 2, 2), kind, corner, weight=3)
    for center in ('node', 'cell'):
        for kind in ('symbolic', 'symuni'):
            add('linear/%s/%s' % (center, kind), linear, (3, 2, 2) if center == 'node' else (3, 3, 3), kind, center, weight=4)
    for ftype, layout in (('scalar', 'flat'), ('vector', 'flat'), ('vector', 'interlaced')):
        for c2 in ('node', 'cell'):
            n1 = (2, 2, 1)
            add('onto grid/%s/%s/%s' % (ftype, layout, c2), onto, n1, (2, 1, 1) if c2 == 'node' else (3, 2, 2), ftype, layout, c2, weight=4)
    for kind in ('uneven', 'uniform', 'symbolic'):
        add('nearest/scalar/%s' % kind, nearest, (3, 2, 1), kind, 'scalar', 'node', weight=3)
    add('nearest/cell', nearest, (3, 3, 2), 'uneven', 'scalar', 'cell', weight=3)
    add('nearest/vector', nearest, (3, 1, 2), 'uneven', 'vector', 'node', weight=3)
    return [c for c in out if c]
