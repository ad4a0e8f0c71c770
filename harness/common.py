"""helpers shared by harnesses"""
import numpy as np


def raw(a):
    """plain ndarray view of field / array data"""
    if hasattr(a, 'data') and hasattr(a, 'crds') and not isinstance(a, np.ndarray):
        a = a.data
    if isinstance(a, np.ndarray):
        return a.view(np.ndarray)
    r = np.empty((), dtype=object)
    r[()] = a
    return r


def same(ctx, got, want, label):
    """got (field, array or scalar) equals want elementwise"""
    g, w = raw(got), raw(want)
    if w.size == 1 and g.size == 1:
        ctx.eq(g.ravel()[0], w.ravel()[0], label)
        return
    if not ctx_check(ctx, g.shape == w.shape, label + ': shape %s / %s' % (g.shape, w.shape)):
        return
    for i in np.ndindex(*w.shape):
        ctx.eq(g[i], w[i], label)


def ctx_check(ctx, cond, label):
    ctx.check(cond, label)
    return cond


def nonuni(ctx, axes, npts, kind='nonuniform_cartesian', sym=False, gmin=0.25, gmax=4):
    """nonuniform (concrete, or symbolic) coordinates with the given numbers of nodes"""
    import viscid
    vals = []
    for k, (ax, n) in enumerate(zip(axes, npts)):
        if sym:
            vals.append((ax, ctx.ascending(ax, n)))
        else:
            vals.append((ax, ctx.consts([0.5 * k + i + 0.25 * (i * i) for i in range(n)])))
    return viscid.wrap_crds(kind, vals)


def uni(ctx, axes, npts, sym=False, kind='uniform_cartesian'):
    import viscid
    cl = []
    for k, (ax, n) in enumerate(zip(axes, npts)):
        if sym:
            lo = ctx.real(ax + '.lo', -4, 4)
            dx = ctx.real(ax + '.dx', 0.25, 4)
            cl.append((ax, [lo, lo + (n - 1) * dx, n]))
        else:
            cl.append((ax, [-1.0 + k, -1.0 + k + 0.5 * (n - 1), n]))
    return viscid.wrap_crds(kind, cl)


def mkcrds(ctx, axes, npts, uniform=False, sym=False):
    return (uni if uniform else nonuni)(ctx, axes, npts, sym=sym)


def rejects(ctx, fn, label, exc=Exception):
    try:
        fn()
    except exc:
        ctx.check(True, label)
        return
    ctx.fail(label)


def probe(mod, name):
    """probe function appended to a Cython module, None when the code it uses has moved"""
    import sys
    return getattr(sys.modules['viscid.cython.' + mod], name, None)
