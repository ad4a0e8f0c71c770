"""Line integrals, projections and resampling."""
import itertools
import numpy as np
from sym.run import Case
from harness.common import raw

PROP = 'P25'
CYTHON = ['cyfield', 'cyamr', 'cycalc']
ENCODED = ['viscid.calculator.calc: integrate_along_line(s), project_along_line, resample_lines',
           'viscid/cython/cycalc.pyx: interp, interp_trilin, interp_nearest (translated from the Cython source)']
BOUNDS = ("1 to 3 lines of 2 to 5 vertices in every order; vertices on grid points with every grid value symbolic, or symbolic vertices along a "
          "straight line in linear fields; scalar and vector fields, reductions dot and magnitude, trilinear and nearest interpolation; resampling "
          "of lines with symbolic vertices by factors 1/2 to 4")
ASSUME = ["in symbolic runs scipy's interp1d is replaced by exact piecewise linear interpolation (replays use scipy)"]
OUTSIDE = "spline kinds of resampling; masks; rounding"

AX = (('x', [0., 3., 6.]), ('y', [0., 4., 8.]), ('z', [0., 12.]))
# vertices as grid indices; every segment has a rational length
LINES = {
    'a': [(0, 0, 0), (1, 1, 0), (1, 1, 1)],
    'b': [(0, 1, 0), (1, 1, 0), (2, 2, 0), (2, 2, 1)],
    'c': [(2, 0, 1), (0, 0, 1)],
    'd': [(0, 2, 0), (1, 1, 1), (2, 0, 0), (2, 1, 0), (0, 1, 0)],
    'e': [(2, 1, 0), (1, 0, 1), (0, 1, 1)],
}


def field(ctx, kind):
    import viscid
    crds = viscid.wrap_crds('nonuniform_cartesian', [(a, ctx.consts(c)) for a, c in AX])
    if kind == 'scalar':
        V = ctx.reals('v', (3, 3, 2), -4, 4)
        return viscid.wrap_field(V, crds, name='s'), raw(V)
    V = ctx.reals('v', (3, 3, 3, 2), -4, 4)
    d = V.transpose(1, 2, 3, 0) if kind == 'interlaced' else V
    return viscid.wrap_field(d, crds, name='b', fldtype='vector', layout=kind), raw(V)


def verts(ctx, inds):
    return ctx.consts(np.array([[AX[k][1][i[k]] for i in inds] for k in range(3)]))


def mag(ctx, v):
    if ctx.symbolic:
        from sym.engine import sym_sqrt
        return sym_sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    return float(np.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]))


def integral(ctx, V, inds, kind, reduction):
    """sum over segments of length times mean of the end values"""
    tot = 0
    P = [[AX[k][1][i[k]] for k in range(3)] for i in inds]
    for n in range(len(inds) - 1):
        d = [P[n + 1][k] - P[n][k] for k in range(3)]
        if kind == 'scalar':
            tot = tot + (V[inds[n]] + V[inds[n + 1]]) * float(np.sqrt(sum(x * x for x in d))) / 2
        elif reduction == 'dot':
            for k in range(3):
                tot = tot + (V[(k,) + inds[n]] + V[(k,) + inds[n + 1]]) * d[k] / 2
        else:
            m = [mag(ctx, [V[(k,) + inds[n + j]] for k in range(3)]) for j in (0, 1)]
            tot = tot + (m[0] + m[1]) * float(np.sqrt(sum(x * x for x in d))) / 2
    return tot


def integrate(ctx, names, kind, reduction, interp, single=False):
    import viscid
    f, V = field(ctx, kind)
    if kind != 'scalar' and reduction == 'mag':     # norms of the vectors: any x component
        for i in np.ndindex(V.shape):
            if i[0]:
                V[i] = ctx.consts([0.])[0] if ctx.symbolic else 0.0
    lines = [verts(ctx, LINES[n]) for n in names]
    keep = [np.array(raw(l)) for l in lines]
    kw = dict(reduction=reduction) if reduction else {}
    if single:
        got = [viscid.integrate_along_line(l, f, interp_kind=interp, **kw) for l in lines]
    else:
        got = viscid.integrate_along_lines(lines, f, interp_kind=interp, **kw)
    ctx.check(len(got) == len(names), 'one integral per line')
    for n, g in zip(names, got):
        ctx.eq(raw(g).ravel()[0], integral(ctx, V, LINES[n], kind, reduction or 'dot'), 'integral along the line')
    for k, l in zip(keep, lines):
        ctx.check(raw(l).shape == k.shape and all(bool(raw(l)[i] == k[i]) for i in np.ndindex(k.shape)), 'lines unchanged')


def reverse(ctx, name, kind):
    import viscid
    f, V = field(ctx, kind)
    l = verts(ctx, LINES[name])
    fwd, bwd = viscid.integrate_along_lines([l, l[:, ::-1]], f)
    ctx.eq(raw(fwd).ravel()[0], -raw(bwd).ravel()[0] if kind != 'scalar' else raw(bwd).ravel()[0], 'line in reverse')


def symline(ctx, n, kind, other):
    """symbolic vertices on a straight line through a linear field"""
    import viscid
    M = [[1.0, -0.5, 0.25], [0.75, 2.0, -1.0], [0.5, 1.0, 1.5]]
    crds = viscid.wrap_crds('nonuniform_cartesian', [(a, ctx.consts(c)) for a, c in AX])
    cs = [c for a, c in AX]
    nc = 1 if kind == 'scalar' else 3
    d = ctx.consts(np.zeros((nc, 3, 3, 2)))
    for m, i, j, k in np.ndindex(nc, 3, 3, 2):
        d[m, i, j, k] = M[m][0] * cs[0][i] + M[m][1] * cs[1][j] + M[m][2] * cs[2][k] + 1.0
    f = viscid.wrap_field(d[0] if nc == 1 else d, crds, name='b', **({} if nc == 1 else dict(fldtype='vector', layout='flat')))
    dirs = {2: (2., 3., 6.), 3: (0., 1., 0.), 4: (3., 4., 0.)}[n]
    ts = [ctx.real('t%d' % i, 0.0, 1.25) for i in range(n)]
    for a, b in zip(ts, ts[1:]):
        ctx.assume(b > a + 0.01)
    P = [[t * v for v in dirs] for t in ts]
    line = ctx.consts(np.zeros((3, n)))
    for i in range(n):
        for k in range(3):
            line[k, i] = P[i][k]
    lines = [line] if not other else [verts(ctx, LINES['b']), line, verts(ctx, LINES['c'])]
    got = viscid.integrate_along_lines(lines, f)
    val = lambda m, p: sum(M[m][k] * p[k] for k in range(3)) + 1.0
    L = float(np.sqrt(sum(v * v for v in dirs)))
    tot = 0
    for a, b, s, t in zip(P, P[1:], ts, ts[1:]):
        if nc == 1:
            tot = tot + (val(0, a) + val(0, b)) * L * (t - s) / 2
        else:
            for m in range(3):
                tot = tot + (val(m, a) + val(m, b)) * (b[m] - a[m]) / 2
    ctx.eq(raw(got[1 if other else 0]).ravel()[0], tot, 'integral along a symbolic line')


def project(ctx, name, kind):
    import viscid
    f, V = field(ctx, kind)
    inds = LINES[name]
    got = raw(viscid.project_along_line(verts(ctx, inds), f))
    ctx.check(got.shape == (len(inds),), 'one value per vertex')
    if got.shape != (len(inds),):
        return
    P = [[AX[k][1][i[k]] for k in range(3)] for i in inds]
    n = len(P)
    for i in range(n):
        j = min(max(i, 1), n - 2) if n > 2 else 0
        a, b = (j - 1, j + 1) if n > 2 else (0, 1)
        d = [P[b][k] - P[a][k] for k in range(3)]
        L = float(np.sqrt(sum(x * x for x in d)))
        ctx.eq(got[i] * L, sum(d[k] * V[(k,) + inds[i]] for k in range(3)), 'vector along the line at its vertices')


class _interp1d(object):
    def __init__(self, x, y, kind='linear'):
        assert kind == 'linear'
        self.x, self.y = x, y

    def __call__(self, xn):
        from sym import shim
        return shim.interp(xn, self.x, self.y)


def resample(ctx, ns, factor):
    import viscid
    from fractions import Fraction
    if ctx.symbolic:
        import scipy.interpolate
        scipy.interpolate.interp1d = _interp1d
    V = [ctx.reals('v%d' % i, (3, n), -4, 4) for i, n in enumerate(ns)]
    V0 = [np.array(raw(v)) for v in V]
    got = viscid.resample_lines(list(V), factor=factor)
    ctx.check(len(got) == len(ns), 'one line per line')
    for n, v, g in zip(ns, V0, got):
        g = raw(g)
        N = int(np.ceil(factor * (n - 1))) + 1
        ctx.check(g.shape == (3, N), 'number of points')
        if g.shape != (3, N):
            continue
        for i in range(N):
            s = Fraction(i * (n - 1), N - 1)
            j = min(int(s), n - 2)
            w = float(s - j)
            for k in range(3):
                ctx.eq(g[k, i], v[k, j] + (v[k, j + 1] - v[k, j]) * w, 'on the line' if 0 < i < N - 1 else 'end point')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        k.setdefault('round_sqrt', True)
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    sets = ['a', 'ab', 'ba', 'bca', 'cdb', 'dec'] + ([''.join(p) for n in (2, 3) for p in itertools.permutations('abcde', n)] if T else [])
    for n, s in enumerate(dict.fromkeys(sets)):
        add('scalar/' + s, integrate, s, 'scalar', None, 'trilin')
        for kind in ('flat', 'interlaced'):
            add('dot/%s/%s' % (kind, s), integrate, s, kind, 'dot' if n % 2 else None, 'trilin')
        add('mag/%s' % s, integrate, s, 'flat', 'mag', 'trilin')
    add('nearest/scalar', integrate, 'cdb', 'scalar', None, 'nearest')
    add('nearest/dot', integrate, 'cdb', 'flat', None, 'nearest')
    add('single/scalar', integrate, 'bd', 'scalar', None, 'trilin', True)
    add('single/dot', integrate, 'bd', 'interlaced', None, 'trilin', True)
    for nm in 'abcde':
        add('reverse/scalar/' + nm, reverse, nm, 'scalar')
        add('reverse/dot/' + nm, reverse, nm, 'flat')
        if nm in 'bde' or T:
            pass
        for kind in ('flat', 'interlaced'):
            add('project/%s/%s' % (kind, nm), project, nm, kind)
    for n in (2, 3, 4):
        for kind in ('scalar', 'vector'):
            add('symbolic/%s/%d' % (kind, n), symline, n, kind, n == 3)
    for ns, f in (((3,), 2), ((2, 5), 2), ((5, 3), 0.5), ((3, 2), 4), ((5,), 0.25), ((2, 3, 5), 1), ((3,), 1.5), ((2, 3), 8)):
        add('resample/%s/%s' % ('-'.join(map(str, ns)), f), resample, ns, f)
    return out
