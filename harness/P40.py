"""Minimum variance directions and boundary normal frames."""
from fractions import Fraction
import numpy as np
from sym.run import Case
from harness.P32 import raw, dot, cross, arr, sc

PROP = 'P40'
CYTHON = ['cyfield', 'cyamr', 'cycalc']
ENCODED = ['viscid.calculator.minvar_tools: minvar_series, minvar, minvar_around, _minvar_lmn_directions, find_minvar_lmn, find_minvar_lmn_around',
           'viscid.seed.Line: get_points', 'viscid.cython.cycalc: interp_trilin (translated) for the series along a line']
BOUNDS = ("series of 7 samples (some not finite) with any mean and any three variances along fixed and rotated orthonormal triads, with eigenvectors "
          "returned in every order and with every sign; frames for any normal, reference vector of any length (parallel and antiparallel to the normal too) "
          "and no reference vector; lines of 3 to 5 samples through a linear field")
ASSUME = ["numpy.linalg.eig returns unit eigenvectors with their eigenvalues, in any order and with any sign (compiled LAPACK is replaced by that)"]
OUTSIDE = "variances that are equal (the direction is then undefined); rounding"

F = Fraction
TRIADS = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((F(1, 3), F(2, 3), F(2, 3)), (F(2, 3), F(1, 3), F(-2, 3)), (F(-2, 3), F(2, 3), F(-1, 3))),
          ((F(3, 5), 0, F(4, 5)), (0, 1, 0), (F(-4, 5), 0, F(3, 5)))]


def num(ctx, x):
    return x if ctx.symbolic else float(x)


def triad(ctx, which):
    if which == 'turned':
        a = ctx.angle('turn')
        s, c = sc(ctx, a)
        return [[c, s, 0], [-1 * s, c, 0], [0, 0, 1]]
    return [[num(ctx, x) for x in v] for v in TRIADS[which]]


def known(ctx, vs, vals):
    if ctx.symbolic:
        from sym import engine
        engine.eng().eig_basis.append((vs, vals))


def par(ctx, u, v, label):
    for x in cross(u, v):
        ctx.eq(x, 0, label)


def series(ctx, which, nans):
    """eigenvectors belong to the three variances, ascending"""
    import viscid
    vs = triad(ctx, which)
    amp = [ctx.real('amp%d' % k, 0.1, 3) for k in range(3)]
    order = ctx.choice('order', [(0, 1, 2), (2, 0, 1), (1, 0, 2)])
    ctx.assume(amp[order[0]] < amp[order[1]] - 0.1)
    ctx.assume(amp[order[1]] < amp[order[2]] - 0.1)
    mean = [ctx.real('mean%d' % k, -2, 2) for k in range(3)]
    rows = [[mean[i] + sg * amp[k] * vs[k][i] for i in range(3)] for k in range(3) for sg in (1, -1)] + [list(mean)]
    var = [2 * amp[k] * amp[k] / 7 for k in range(3)]
    known(ctx, vs, var)
    if nans:
        rows.insert(2, [float('nan'), mean[0], mean[1]])
        rows.append([mean[0], float('inf'), mean[1]])
    evals, evecs = viscid.minvar_series(arr(ctx, rows))
    evals, evecs = raw(evals), raw(evecs)
    for k in range(3):
        ctx.eq(evals[k], var[order[k]], 'variances in ascending order')
        u = [evecs[i, k] for i in range(3)]
        ctx.eq(dot(u, u), 1, 'unit vectors')
        par(ctx, u, vs[order[k]], 'direction of the variance')


def few(ctx):
    """fewer than three finite samples have no directions"""
    import viscid
    v = [[ctx.real('v%d%d' % (k, i), -2, 2) for i in range(3)] for k in range(2)] + [[float('nan')] * 3]
    evals, evecs = viscid.minvar_series(arr(ctx, v), warn_finite=False)
    ctx.check(all(x != x for x in raw(evals)) and all(x != x for x in raw(evecs).ravel()), 'no directions for less than three samples')


def frame(ctx, L, n, ref, label):
    """columns l, m, n: right handed, orthonormal, n along the normal, l towards ref"""
    L = raw(L)
    c = [[L[i, k] for i in range(3)] for k in range(3)]
    for a in range(3):
        for b in range(a, 3):
            ctx.eq(dot(c[a], c[b]), int(a == b), label + ': orthonormal')
    w = cross(c[0], c[1])
    for i in range(3):
        ctx.eq(w[i], c[2][i], label + ': right handed')
    par(ctx, c[2], n, label + ': normal')
    ctx.eq(dot(cross(c[0], c[2]), ref), 0, label + ': l in the plane of normal and reference')
    ctx.check(dot(c[0], ref) > 0, label + ': l towards the reference')


def directions(ctx, kind):
    from viscid.calculator.minvar_tools import _minvar_lmn_directions
    from sym import engine
    if kind == 'any':
        i, ref = ctx.choice('ref', [(0, (0, 0, 1)), (1, (0, 2, 0)), (2, (3, 0, 0)), (0, (1, 0, 0)), (1, (0, -3, 4))])
        sn, cs = sc(ctx, ctx.angle('tilt'))
        w = [0.0, 0.0, 0.0]
        w[i], w[(i + 1) % 3] = cs, sn
        ref = [float(x) for x in ref]
        emax = [0.0, 0.0, 1.0]
        q = cross(w, ref)
        ctx.assume(dot(q, q) > 0.1)
        L = _minvar_lmn_directions(arr(ctx, w), arr(ctx, emax), l_basis=arr(ctx, ref))
        frame(ctx, L, w, ref, 'any normal')
        return
    vs = triad(ctx, ctx.choice('triad', range(3)))
    perm = ctx.choice('perm', [(0, 1, 2), (2, 0, 1), (1, 0, 2)])
    emin, emax = vs[perm[0]], vs[perm[2]]
    sg = ctx.choice('sign', [1, -1])
    t = ctx.real('length', 0.5, 3)
    if kind == 'none':
        L = _minvar_lmn_directions(arr(ctx, [sg * x for x in emin]), arr(ctx, emax), l_basis=None)
        frame(ctx, L, emin, emax, 'no reference')
    elif kind == 'parallel':
        L = _minvar_lmn_directions(arr(ctx, emin), arr(ctx, emax), l_basis=arr(ctx, [sg * t * x for x in emin]))
        frame(ctx, L, emin, emax, 'reference along the normal')
    else:
        r = [float(x) for x in ctx.choice('to', [(0, 0, 2), (1, 1, 0), (-3, 0, 4), (0.5, -1, 1)])]
        q = cross(emin, r)
        ctx.assume(dot(q, q) > 0.1)
        L = _minvar_lmn_directions(arr(ctx, [sg * t * x for x in emin]), arr(ctx, emax), l_basis=arr(ctx, r))
        frame(ctx, L, emin, r, 'any reference')


def line(ctx, what, n):
    """the series is taken on the line that was asked for: a field whose components are linear along one axis"""
    import viscid
    ax = [np.array([-4.0, -1.0, 0.5, 4.0]), np.array([-4.0, 0.0, 4.0]), np.array([-4.0, 1.0, 4.0])]
    f = viscid.zeros(ax, nr_comps=3, center='node', layout='interlaced')
    X, Y, Z = f.get_crds_nc(shaped=True)
    one = np.ones(f.shape[:-1])
    f['x'] = one * (X + 2 * Y)
    f['y'] = one * (2 * X - Z)
    f['z'] = one * (1 + Y + 3 * Z)
    f = f.wrap(arr(ctx, np.asarray(f.data)))
    got = []

    def spy(a, *args, **kw):
        got.append(raw(np.asarray(a)) if not ctx.symbolic else raw(a))
        return [0, 0, 0], np.eye(3)
    from viscid.calculator import minvar_tools
    keep = minvar_tools.minvar_series
    minvar_tools.minvar_series = spy
    try:
        if what == 'between':
            p = [ctx.real('p' + c, -2, 2) for c in 'xyz']
            q = [1.0, -0.5, 0.25]
            viscid.minvar(f, arr(ctx, p), arr(ctx, q), n=n)
        else:
            p0 = [ctx.real('p' + c, -1, 1) for c in 'xyz']
            l = ctx.real('l', 0.1, 2)
            d = ctx.choice('dir', [(1, 0, 0), (0, -3, 0), (2, 2, 1), (-3, 0, 4)])
            m = float(sum(x * x for x in d)) ** 0.5
            viscid.minvar_around(f, arr(ctx, p0), l=l, path_dir=d, n=n)
            p = [p0[i] - l / 2 * (d[i] / m) for i in range(3)]
            q = [p0[i] + l / 2 * (d[i] / m) for i in range(3)]
    finally:
        minvar_tools.minvar_series = keep
    ctx.check(len(got) == 1 and got[0].shape == (n, 3), 'one sample for each point of the line')
    for k in range(n):
        t = num(ctx, F(k, n - 1))
        x, y, z = [p[i] + t * (q[i] - p[i]) for i in range(3)]
        for i, w in enumerate((x + 2 * y, 2 * x - z, 1 + y + 3 * z)):
            ctx.eq(got[0][k, i], w, 'samples on the line')


def cases(tier):
    T = tier != 'quick'
    out = []

    def add(nm, fn, *a, **k):
        k.setdefault('reduce', True)
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for which in (0, 1, 2, 'turned'):
        for nans in (False, True):
            add('series/%s/%s' % (which, nans), series, which, nans)
    add('few', few)
    for k in ('any', 'none', 'parallel', 'reference'):
        add('directions/' + k, directions, k)
    for what in ('between', 'around'):
        for n in (3, 5) if T else (3,):
            add('line/%s/%d' % (what, n), line, what, n, reduce=False)
    return out
