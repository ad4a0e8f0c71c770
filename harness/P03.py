"""Selecting one location returns a nearest point."""
from sym.run import Case

PROP = 'P03'
ENCODED = ['viscid.sliceutil.std_sel2index', 'viscid.sliceutil._unify_sbv_types', 'viscid.sliceutil.standardize_value',
           'viscid.coordinate.StructuredCrds._make_slice / make_slice_keep', 'viscid.field.Field.__getitem__, slice_keep, loc']
BOUNDS = ("1..5 (thorough 7) points, ascending or descending, first point in [-4, 4], spacings in [1/4, 4], any real "
          "location in [-40, 40]; lists of 2 locations; fields of 3x2 points / cells with symbolic data")
ASSUME = []


def near(ctx, xs, i, v, label):
    for j in range(len(xs)):
        ctx.check(abs(xs[i] - v) <= abs(xs[j] - v) + (0 if ctx.symbolic else 1e-9), label)


def crd(ctx, n, direction):
    x = ctx.ascending('x', n)
    return x if direction > 0 else (-1 * x)


def single(ctx, n, direction):
    from viscid.sliceutil import standardize_sel, std_sel2index
    x = crd(ctx, n, direction)
    v = ctx.real('v', -40, 40)
    i = std_sel2index(standardize_sel(1j * v), x)
    ctx.check(0 <= int(i) < n, 'index in range')
    near(ctx, x, int(i), v, 'the point is a nearest one')


def several(ctx, n, direction):
    from viscid.sliceutil import std_sel2index
    import numpy as np
    x = crd(ctx, n, direction)
    v = [ctx.real('v%d' % k, -40, 40) for k in range(2)]
    if ctx.symbolic:
        from sym import shim
        arr = shim.array([1j * a for a in v])
    else:
        arr = np.array([1j * a for a in v])
    ii = std_sel2index(arr, x)
    ctx.check(len(ii) == 2, 'one index per location')
    for k in range(2):
        near(ctx, x, int(ii[k]), v[k], 'every listed location gives a nearest point')


def field(ctx, center, how, direction, uniform=False):
    import viscid
    n = 3 if center == 'node' else 4
    ny = 2
    if uniform:
        lo = ctx.real('lo', -4, 4)
        dx = ctx.real('dx', 0.25, 4)
        x = [lo + i * dx for i in range(n)]
        crds = viscid.wrap_crds('uniform_cartesian', [('x', [lo, lo + (n - 1) * dx, n]), ('y', [0.0, ny + 0.0, ny + 1] if center == 'cell' else [0.0, 1.0, 2])])
    else:
        x = crd(ctx, n, direction)
        crds = viscid.wrap_crds('nonuniform_cartesian', [('x', x), ('y', ctx.consts([0.0, 1.0] if center == 'node' else [0.0, 1.0, 2.0]))])
    xs = [x[i] for i in range(n)] if center == 'node' else [(x[i] + x[i + 1]) / 2 for i in range(n - 1)]
    d = ctx.reals('d', (len(xs), ny))
    f = viscid.wrap_field(d, crds, name='f', center=center)
    v = ctx.real('v', -40, 40)
    if how == 'j':
        r = f[1j * v, :]
    elif how == 'loc':
        r = f.loc[v, :]
    else:
        r = f.slice_and_keep((1j * v, slice(None)))
    # which point was it?
    i = None
    for k in range(len(xs)):
        ok = True
        for j in range(len(xs)):
            if bool(abs(xs[k] - v) > abs(xs[j] - v)):
                ok = False
                break
        if ok:
            i = k
            break
    ties = [k for k in range(len(xs)) if bool(abs(xs[k] - v) == abs(xs[i] - v))]
    vals = r
    if how == 'keep':
        ctx.check(tuple(r.shape) == (1, ny), 'kept dimension has one point')
        vals = r.data[0] if ny > 1 else [r.data[0, 0]]
        got = r.get_crd('x')[0]
        if len(ties) == 1:
            ctx.eq(got, xs[i], 'coordinate of the selected point')
        else:
            ctx.check((got == xs[ties[0]]) | (got == xs[ties[1]]) if ctx.symbolic else
                      min(abs(got - xs[t]) for t in ties) < 1e-9, 'coordinate of a nearest point')
    elif ny == 1:
        vals = [r]
    else:
        ctx.check(tuple(r.shape) == (ny,), 'dimension dropped')
        vals = r.data
    for j in range(ny):
        if len(ties) == 1:
            ctx.eq(vals[j], d[i, j], 'data of the nearest point')
        else:
            w = False
            for t in ties:
                w = (vals[j] == d[t, j]) | w
            ctx.check(w, 'data of a nearest point')


def cases(tier):
    ns = (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7)
    out = []
    for n in ns:
        for s in (1, -1):
            out.append(Case('single_n%d_%d' % (n, s), lambda ctx, n=n, s=s: single(ctx, n, s)))
            if n <= 4:
                out.append(Case('several_n%d_%d' % (n, s), lambda ctx, n=n, s=s: several(ctx, n, s)))
    for c in ('node', 'cell'):
        for how in ('j', 'loc', 'keep'):
            out.append(Case('field_%s_%s_uniform' % (c, how), lambda ctx, c=c, h=how: field(ctx, c, h, 1, True)))
            for s in (1, -1):
                out.append(Case('field_%s_%s_%d' % (c, how, s), lambda ctx, c=c, h=how, s=s: field(ctx, c, h, s)))
    return out
