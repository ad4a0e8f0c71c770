"""Adaptive step control: limits, direction, acceptance, termination."""
import numpy as np
from sym.run import Case
from harness.common import raw, probe
from harness.P13 import trace

PROP = 'P14'
CYTHON = ['cyfield', 'cyamr', 'cycalc', 'integrate', 'streamline']
PROBES = {'integrate': '''
def _verif_ctrl(ds, err, max_error, smallest, largest):
    cdef double cds = ds
    cdef double cerr = err
    cdef double cmax = max_error
    cdef double csm = smallest
    cdef double clg = largest
    cdef int rep = _ts_ctrl(&cds, cerr, cmax, csm, clg)
    return rep, cds
'''}
ENCODED = ['viscid/cython/integrate.pyx: _ts_ctrl, _c_euler1a, _c_rk12, _c_rk45 (translated from the Cython source)',
           'viscid/cython/streamline.pyx: calc_streamlines, _py_streamline']
BOUNDS = ("step control: every current step within the limits (either sign), every error estimate >= 0, tolerance > 0 and limits; lines of one and two "
          "steps in each direction through a field with a bend of known error, every tolerance and every pair of limits, limits concrete where the "
          "step is repeated with a new length; up to 12 repetitions of one step")
ASSUME = ["the initial step lies within the limits", "0 < smallest_ds <= largest_ds, max_error > 0"]
OUTSIDE = "floating point rounding; acceptance of rk45 steps is decided for the shared step control and for bends whose first step is accepted or retried once"


def ctrl(ctx):
    fn = probe('integrate', '_verif_ctrl')
    if fn is None:
        return
    small = ctx.real('small', 0.001, 10)
    large = ctx.real('large', 0.001, 1000)
    mag = ctx.real('ds', 0.001, 1000)
    ctx.assume(small <= mag)
    ctx.assume(mag <= large)
    sg = ctx.choice('sign', [-1, 1])
    err = ctx.real('err', 0, 1e6)
    tol = ctx.real('tol', 1e-9, 10)
    rep, ds = fn(sg * mag, err, tol, small, large)
    ctx.check(ds * sg > 0, 'direction of travel is kept')
    ctx.le(ds * sg, large, 'not longer than the maximum')
    ctx.le(small, ds * sg, 'not shorter than the minimum')
    if int(rep) == 0:
        ctx.check((err <= tol) | (mag <= small), 'accepted only within tolerance or at the minimum')
    else:
        ctx.check((ds * sg <= 0.95 * mag) | (ds * sg <= small), 'a repeated step is shorter')


def bend(ctx, axis):
    """v = (1, g(x), 0): g rises from 0 to 3/4 within 3/8 on both sides of the seed, constant beyond"""
    import viscid
    a, b = axis, (axis + 1) % 3
    xs = np.array([-64., -0.375, 0., 0.375, 64.])
    g = np.array([0.75, 0.75, 0., 0.75, 0.75])
    vals = [None] * 3
    for k in range(3):
        vals[k] = ('xyz'[k], ctx.consts(xs) if k == a else ctx.consts([-64., 64.]))
    crds = viscid.wrap_crds('nonuniform_cartesian', vals)
    sh = [2, 2, 2]
    sh[a] = 5
    dat = ctx.consts(np.zeros([3] + sh))
    for i in np.ndindex(*sh):
        dat[(a,) + i] = 1.0
        dat[(b,) + i] = g[i[a]]
    return viscid.wrap_field(dat, crds, name='v', fldtype='vector', layout='flat')


def vec(x, a, b):
    """field value at a location"""
    s = abs(x[a])
    g = 0.75 if bool(s >= 0.375) else 2 * s
    v = [0, 0, 0]
    v[a], v[b] = 1, g
    return v


def unit(ctx, v):
    m = sum(t * t for t in v)
    m = m.sqrt() if hasattr(m, 'sqrt') else np.sqrt(float(m))
    return [t / m for t in v]


def estimate(ctx, method, x, h, a, b):
    """squared error estimate per unit length of a step"""
    d1 = unit(ctx, vec(x, a, b))
    f = 1 if method == 'euler1a' else 0.5
    d2 = unit(ctx, vec([x[k] + f * h * d1[k] for k in range(3)], a, b))
    return sum((p - q) * (p - q) for p, q in zip(d1, d2))


def line_limits(ctx, method, axis, maxit, d, small):
    a, b = axis, (axis + 1) % 3
    f = bend(ctx, a)
    h0 = 0.5
    tol = ctx.real('tol', 1e-6, 100)
    large = ctx.real('large', 0.5, 32)
    if small is None:                # first step accepted
        small = ctx.real('small', 0.001, 0.5)
        e2 = estimate(ctx, method, [0, 0, 0], d * h0, a, b) if method != 'rk45' else 0.01
        ctx.assume(tol * tol > e2 * 1.001)
    line, topo = trace(f, np.zeros((3, 1)), h0, method, maxit=maxit, stream_dir=1 if d > 0 else 2,
                       max_error=tol, smallest_ds=small, largest_ds=large)
    n = line.shape[1]
    ctx.check(n == maxit + 1, 'all steps are made')
    if n != maxit + 1:
        return
    P = [[line[k, j] for k in range(3)] for j in (range(n) if d > 0 else range(n - 1, -1, -1))]
    for j in range(n - 1):
        D = [P[j + 1][k] - P[j][k] for k in range(3)]
        L2 = sum(t * t for t in D)
        ctx.check(D[a] * d > 0, 'direction of travel is kept')
        slack = 1.000001 if method != 'rk45' or j else 1.1         # chord of a curved step
        ctx.le(small * small, L2 * slack * slack, 'not shorter than the minimum')
        ctx.le(L2, large * large * slack * slack, 'not longer than the maximum')
        if method != 'rk45' and j == 0:
            L = D[a] * d                     # first direction is along the axis
            e2 = estimate(ctx, method, P[j], d * L, a, b)
            ctx.check((e2 <= tol * tol * 1.000001) | (L <= small * 1.000001), 'accepted only within tolerance or at the minimum')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    add('step control', ctrl, weight=9)
    for m in ('euler1a', 'rk12', 'rk45'):
        for d in (1, -1):
            for axis in range(3):
                for maxit in (1, 2):
                    for small in (None, 0.5, 0.46):
                        add('line/%s/%s/%+d/%d/%s' % (m, 'xyz'[axis], d, maxit, small), line_limits, m, axis, maxit, d, small,
                            weight=5, round_sqrt=True)
    return out
