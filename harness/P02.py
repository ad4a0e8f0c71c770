"""Slices by location select exactly the points of the interval."""
from fractions import Fraction
from sym.run import Case

PROP = 'P02'
ENCODED = ['viscid.sliceutil.standardize_sel', 'viscid.sliceutil.standardize_value', 'viscid.sliceutil.std_sel2index',
           'viscid.sliceutil._unify_sbv_types', 'viscid.sliceutil._interiorize_slice',
           'viscid.coordinate.StructuredCrds.make_slice', 'viscid.field.Field.__getitem__ / loc']
BOUNDS = ("ascending coordinates with 2..4 (thorough 2..6) points, first point in [-4, 4], every spacing in [1/4, 4]; "
          "each end absent, any real location in [-10, 40] or any integer index in [-n-1, n+1]; strides +-1, +-2, +-3")
ASSUME = ["no coordinate lies strictly outside an end by less than 2e-4 of the smallest spacing (the code's "
          "documented comparison tolerance); coordinates exactly on an end are included"]
OUTSIDE = "descending coordinate arrays, single point axes, date/time axes"


def smin(ctx, vals):
    if ctx.symbolic:
        from sym import shim
        r = vals[0]
        for v in vals[1:]:
            r = shim.sym_ext(r, v, False)
        return r
    return min(vals)


def setup(ctx, n):
    x = ctx.ascending('x', n)
    tol = Fraction(2, 10000)
    g = smin(ctx, [x[i + 1] - x[i] for i in range(n - 1)])
    return x, g * tol if ctx.symbolic else 0.99 * float(g) * float(tol)


def endpoint(ctx, name, n, kind):
    if kind == 'none':
        return None
    if kind == 'loc':
        return ctx.real(name, -10, 40)
    return int(ctx.int(name, -n - 1, n + 1))


def apart(ctx, x, v, tol, below):
    """no point within tol outside the end"""
    for c in x:
        if below:
            ctx.assume((c >= v) | (c <= v - tol) if ctx.symbolic else (c >= v or c <= v - tol))
        else:
            ctx.assume((c <= v) | (c >= v + tol) if ctx.symbolic else (c <= v or c >= v + tol))


def reference(x, start, stop, ks, kp, step, n, endp=True):
    """indices selected, from the meaning of the selection"""
    up = step > 0
    if ks == 'loc':
        if up:
            s = n
            for i in range(n - 1, -1, -1):
                if x[i] >= start:
                    s = i
                else:
                    break
        else:
            s = -1
            for i in range(n):
                if x[i] <= start:
                    s = i
                else:
                    break
            if s < 0:
                return []
    else:
        s = start
    if kp == 'loc':
        if up:
            e = 0
            for i in range(n):
                if x[i] <= stop:
                    e = i + 1
                else:
                    break
            if not endp and e > 0:
                e -= 1
        else:
            e = n
            for i in range(n - 1, -1, -1):
                if x[i] >= stop:
                    e = i
                else:
                    break
            if endp:
                e = e - 1 if e > 0 else None
    else:
        e = stop
    if not up and e == n:
        # nothing at or above the stop location
        return [] if kp == 'loc' else list(range(n))[s:e:step]
    return list(range(n))[s:e:step]


def std(ctx, n, ks, kp, steps, endp=True):
    from viscid.sliceutil import standardize_sel, std_sel2index
    step = ctx.choice('step', steps)
    x, tol = setup(ctx, n)
    start = endpoint(ctx, 'start', n, ks)
    stop = endpoint(ctx, 'stop', n, kp)
    up = (step or 1) > 0
    if ks == 'loc':
        apart(ctx, x, start, tol, up)
    if kp == 'loc':
        apart(ctx, x, stop, tol, not up)
    s = slice(1j * start if ks == 'loc' else start, 1j * stop if kp == 'loc' else stop, step)
    idx = std_sel2index(standardize_sel(s), x, val_endpoint=endp)
    got = list(range(n))[idx]
    want = reference(x, start, stop, ks, kp, step or 1, n, endp)
    ctx.check(got == want, 'exactly the points of the interval (%s : %s : %s)' % (ks, kp, step))


def interior(ctx, n, steps):
    """interior=True widens a slice so that both ends are bracketed"""
    from viscid.sliceutil import standardize_sel, std_sel2index
    step = ctx.choice('step', steps)
    x, tol = setup(ctx, n)
    lo = ctx.real('lo', -10, 40)
    hi = ctx.real('hi', -10, 40)
    ctx.assume(lo >= x[0])
    ctx.assume(hi <= x[n - 1])
    ctx.assume(lo <= hi)
    for v in (lo, hi):
        apart(ctx, x, v, tol, True)
        apart(ctx, x, v, tol, False)
    start, stop = (lo, hi) if step > 0 else (hi, lo)
    idx = std_sel2index(standardize_sel(slice(1j * start, 1j * stop, step)), x, interior=True)
    got = sorted(list(range(n))[idx])
    want = [i for i in range(n)]
    # smallest run of points that brackets both ends
    a = 0
    for i in range(n):
        if x[i] <= lo:
            a = i
    b = n - 1
    for i in range(n - 1, -1, -1):
        if x[i] >= hi:
            b = i
    ctx.check(got == want[a:b + 1], 'interior slice brackets both ends and nothing more')


def field(ctx, n, how):
    """the same selection through a field"""
    import viscid
    import numpy as np
    x, tol = setup(ctx, n)
    start = ctx.real('start', -10, 40)
    stop = ctx.real('stop', -10, 40)
    step = ctx.choice('step', [None, 2, -1])
    up = (step or 1) > 0
    apart(ctx, x, start, tol, up)
    apart(ctx, x, stop, tol, not up)
    d = ctx.reals('d', (n, 2))
    crds = viscid.wrap_crds('nonuniform_cartesian', [('x', x), ('y', ctx.consts([0.0, 1.0]))])
    f = viscid.wrap_field(d, crds, name='f', center='node')
    if how == 'j':
        r = f[1j * start:1j * stop:step]
    else:
        r = f.loc[start:stop:step]
    want = reference(x, start, stop, 'loc', 'loc', step or 1, n)
    ctx.check(tuple(r.shape) == (len(want), 2), 'number of points through a field')
    if not want:
        return
    xs = r.get_crd('x')
    for k, i in enumerate(want):
        ctx.eq(xs[k], x[i], 'coordinates of the points in the interval')
        for j in range(2):
            ctx.eq(r.data[k, j], d[i, j], 'data of the points in the interval')


def cases(tier):
    ns = (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 6)
    out = []
    for n in ns:
        for ks in ('loc', 'none', 'idx'):
            for kp in ('loc', 'none', 'idx'):
                if ks != 'loc' and kp != 'loc':
                    continue
                for steps in ([None, 1], [2, 3], [-1], [-2, -3]):
                    out.append(Case('n%d_%s_%s_%s' % (n, ks, kp, steps[-1]),
                                    lambda ctx, n=n, ks=ks, kp=kp, st=steps: std(ctx, n, ks, kp, st), weight=n))
        for steps in ([1], [-1]):
            out.append(Case('noend_n%d_%s' % (n, steps[0]),
                            lambda ctx, n=n, st=steps: std(ctx, n, 'loc', 'loc', st, False), weight=n))
            out.append(Case('interior_n%d_%s' % (n, steps[0]),
                            lambda ctx, n=n, st=steps: interior(ctx, n, st), weight=n))
    for how in ('j', 'loc'):
        out.append(Case('field_' + how, lambda ctx, how=how: field(ctx, 3, how), weight=9))
    return out
