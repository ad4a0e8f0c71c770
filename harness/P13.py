"""Streamline integrators: steps along the field, order of accuracy, zero field."""
import sys
import numpy as np
from sym.run import Case
from harness.common import raw

PROP = 'P13'
CYTHON = ['cyfield', 'cyamr', 'cycalc', 'integrate', 'streamline']
ENCODED = ['viscid/cython/integrate.pyx: _c_euler1, _c_rk2, _c_rk4, _c_euler1a, _c_rk12, _c_rk45 (translated from the Cython source)',
           'viscid/cython/streamline.pyx: calc_streamlines, _py_streamline, classify_endpoint',
           'viscid/cython/cycalc.pyx: _c_interp_trilin; viscid/cython/cyfield.pyx: make_cyfield; viscid/cython/cyamr.pyx: make_cyamrfield']
BOUNDS = ("one or two steps in each direction; every constant field in [-3,3]^3 (zero vector excluded), every seed and step length in a box, 3D and 2D "
          "fields, both layouts, node/cell/face centered; local error bounds for every step length in [0.01, 0.5] on rotating (all methods up to second order), shearing "
          "and saddle (Euler) fields; all order conditions of the extracted Butcher coefficients for every method and step length; "
          "fields that vanish at the seed or at a later stage, every other value symbolic")
ASSUME = ["largest_ds and smallest_ds do not change the first step of adaptive methods (they are studied by P14)",
          "order conditions are decided with the interpolated vectors of the stages replaced by arbitrary ones; a violation is confirmed on the "
          "compiled code by its convergence on linear fields"]
OUTSIDE = "floating point rounding; not-a-number field values; lines of more than two steps in each direction (see P15)"

METHODS = ['euler1', 'rk2', 'rk4', 'euler1a', 'rk12', 'rk45']
ORDER = dict(euler=1, euler1=1, rk2=2, rk4=4, euler1a=1, rk12=1, rk45=4)
ZERO = 65536 | 4096


def vfield(ctx, fn, npts=(2, 2, 2), lo=-4., hi=4., layout='flat', center='node'):
    import viscid
    nn = [n + 1 if (center in ('cell', 'face') and n > 1) else n for n in npts]
    cs = [np.linspace(lo, hi, n) if n > 1 else np.array([0.0]) for n in nn]
    crds = viscid.wrap_crds('uniform_cartesian', [(a, [c[0], c[-1], len(c)]) for a, c in zip('xyz', cs)])
    cs = [0.5 * (c[1:] + c[:-1]) if (center in ('cell', 'face') and len(c) > 1) else c for c in cs]
    dat = ctx.consts(np.zeros((3,) + tuple(npts)))
    for i in np.ndindex(*npts):
        v = fn(*[cs[d][i[d]] for d in range(3)])
        for k in range(3):
            dat[(k,) + i] = v[k]
    if layout != 'flat':
        dat = dat.transpose(1, 2, 3, 0)
    return viscid.wrap_field(dat, crds, name='v', fldtype='vector', layout=layout, center=center)


def trace(f, x0, h, method, maxit=1, **kw):
    import viscid
    sys.modules['viscid.cython.streamline']._global_fld = None       # an earlier path may have been cut off while tracing
    kw.setdefault('max_error', 1e6)
    lines, topo = viscid.calc_streamlines(f, x0, method=method, ds0=h, maxit=maxit, topo_style='generic', **kw)
    return raw(lines[0]), raw(topo).ravel()[0]


def const(ctx, method, npts, layout, center, maxit, d):
    """constant field: every step is h * v / |v|"""
    v = [ctx.real('v%d' % k, -3, 3) for k in range(3)]
    live = [k for k in range(3) if npts[k] > 1]
    ctx.assume(sum(v[k] * v[k] for k in live) > 0.01)
    f = vfield(ctx, lambda *x: v, npts, layout=layout, center=center)
    stag = center == 'face'             # stay in one cell of the staggered grid
    x0 = ctx.reals('x', (3, 1), 0.6 if stag else -1, 1)
    h = ctx.real('h', 0.01, 0.5)
    kw = {}
    if d == 1:
        kw['stream_dir'] = 1
    elif d == -1:
        kw['stream_dir'] = 2
    line, topo = trace(f, x0, h, method, maxit, **kw)
    n = maxit * (2 if d == 0 else 1) + 1
    ctx.check(line.shape == (3, n), 'number of points')
    if line.shape != (3, n):
        return
    seed = {0: maxit, 1: 0, -1: maxit}[d]
    vv = sum(v[k] * v[k] for k in live)
    for k in range(3):
        ctx.eq(line[k, seed], x0[k, 0], 'the seed is a point of the line')
    for p in range(n - 1):
        D = [line[k, p + 1] - line[k, p] for k in range(3)]
        for k in range(3):
            if k not in live:
                ctx.eq(D[k], 0, 'no motion along an invariant dimension')
        ctx.eq(sum(D[k] * D[k] for k in live), h * h, 'step length')
        for a in range(len(live)):
            for b in range(a):
                i, j = live[a], live[b]
                ctx.eq(D[i] * v[j], D[j] * v[i], 'step is parallel to the field')
        ctx.check(sum(D[k] * v[k] for k in live) > 0, 'points are ordered along the field')


LO2 = {1: (lambda h: 1, lambda h: h), 2: (lambda h: 1 - h * h / 2, lambda h: h)}


def local_error(ctx, method, kind, a):
    """one step from an exactly known field line; error is of order p + 1"""
    p = ORDER[method]
    b, c = (a + 1) % 3, (a + 2) % 3
    h = ctx.real('h', 0.01, 0.5)

    def fn(*x):
        v = [0, 0, 0]
        if kind == 'circle':
            v[b], v[c] = -x[c], x[b]
        elif kind == 'shear':
            v[b], v[c] = 1, x[b]
        else:
            v[b], v[c] = x[b], -x[c]
        return v
    f = vfield(ctx, fn)
    x0 = np.zeros((3, 1))
    x0[b] = 1.0
    x0[a] = 0.5
    if kind != 'circle':
        x0[c] = 0.5
    line, topo = trace(f, x0, h, method, smallest_ds=1e-3, largest_ds=1e-3)
    ctx.check(line.shape == (3, 3), 'one step each way')
    e = 2 * h ** (p + 1)
    for k, s in ((0, -1), (2, 1)):
        X, Y = line[b, k], line[c, k]
        ctx.eq(line[a, k], 0.5, 'no motion across the field')
        if kind == 'circle':
            ctx.le(abs(X * X + Y * Y - 1), e, 'radius')
            ctx.le(abs(X - LO2[p][0](s * h)), e, 'position')
            ctx.le(abs(Y - LO2[p][1](s * h)), e, 'position')
        elif kind == 'shear':
            ctx.le(abs((Y - X * X / 2) - (0.5 - 0.5)), e, 'on the field line')
            ctx.check((X - 1) * s > 0, 'along the field')
        else:
            ctx.le(abs(X * Y - 0.5), e, 'on the field line')
            ctx.check((X - 1) * s > 0, 'along the field')


TREES = {1: ['w'], 2: ['w', 'wc'], 3: ['w', 'wc', 'wcc', 'wac'],
         4: ['w', 'wc', 'wcc', 'wac', 'wccc', 'wcac', 'wacc', 'waac']}
RATIO = dict(w=1, wc=(1, 2), wcc=(1, 3), wac=(1, 6), wccc=(1, 4), wcac=(1, 8), wacc=(1, 12), waac=(1, 24))


def order(ctx, method, d):
    """order conditions of the method as coded"""
    p = ORDER[method]
    h = ctx.real('h', 0.01, 0.5)
    if not ctx.symbolic:
        return converge(ctx, method, d)
    from sym import cyload
    sp = cyload.SPACES['integrate']
    if '_c_interp_trilin' not in sp:
        return
    f = vfield(ctx, lambda *x: (1, 0, 0))
    old = sp['_c_interp_trilin']

    def run(dirs):
        """stage i sees the vector dirs(i); returns stage points and end point"""
        st = []

        def stub(fld, m, x, idx, *a):
            m = int(m)
            pt = tuple(x[k] for k in range(3))
            key = tuple(str(getattr(t, 't', t)) for t in pt)
            if not st or m in st[-1][2] or st[-1][0] != key:
                st.append((key, pt, set()))
            st[-1][2].add(m)
            return cyload.const(cyload.Fraction(dirs(len(st) - 1)[m]))
        sp['_c_interp_trilin'] = stub
        try:
            line, _ = trace(f, np.zeros((3, 1)), h, method, stream_dir=1 if d > 0 else 2, smallest_ds=1e-3, largest_ds=1e-3)
        finally:
            sp['_c_interp_trilin'] = old
        return [s[1] for s in st], [line[k, -1 if d > 0 else 0] for k in range(3)]
    S = len(run(lambda i: (2, 0, 0))[0])
    ctx.reach('stages %d' % S)
    if not S:
        return
    w, A = [0] * S, [[0] * S for _ in range(S)]
    for i in range(S):
        pts, end = run(lambda k: (0, 3, 0) if k == i else (2, 0, 0))
        if len(pts) != S:
            return
        w[i] = end[1] * d
        for j in range(S):
            A[j][i] = pts[j][1] * d
            if j <= i:
                ctx.eq(pts[j][1], 0, 'a stage depends on earlier stages only')
        ctx.eq(end[0] * d + end[1] * d, h, 'weights add up to one')
        ctx.eq(end[2], 0, 'no other component')
    c = [sum(A[j]) for j in range(S)]
    R = range(S)
    terms = dict(
        w=lambda: sum(w), wc=lambda: sum(w[i] * c[i] for i in R), wcc=lambda: sum(w[i] * c[i] * c[i] for i in R),
        wac=lambda: sum(w[i] * A[i][j] * c[j] for i in R for j in R), wccc=lambda: sum(w[i] * c[i] ** 3 for i in R),
        wcac=lambda: sum(w[i] * c[i] * A[i][j] * c[j] for i in R for j in R),
        wacc=lambda: sum(w[i] * A[i][j] * c[j] * c[j] for i in R for j in R),
        waac=lambda: sum(w[i] * A[i][j] * A[j][k] * c[k] for i in R for j in R for k in R))
    for t in TREES[p]:
        r = RATIO[t]
        n, q = r if isinstance(r, tuple) else (r, 1)
        ctx.eq(terms[t]() * q, n * h ** len(t), 'order condition %s of order %d' % (t, len(t)))


AMAT = np.array([[0.3, -1.0, 0.4], [0.9, 0.2, -0.5], [-0.3, 0.7, 0.25]])


def converge(ctx, method, d):
    """compiled code: the error of one step has the order of the method"""
    p = ORDER[method]
    f = vfield(ctx, lambda *x: AMAT.dot(x))
    x0 = np.array([[1.0], [0.3], [-0.4]])

    def g(x):
        v = AMAT.dot(x)
        return d * v / np.sqrt(v.dot(v))
    for h in (0.05, 0.02):
        x = x0[:, 0].copy()
        n = 50
        for _ in range(n):
            s = h / n
            k1 = g(x)
            k2 = g(x + s * k1 / 2)
            k3 = g(x + s * k2 / 2)
            k4 = g(x + s * k3)
            x = x + s * (k1 + 2 * k2 + 2 * k3 + k4) / 6
        line, _ = trace(f, x0, h, method, stream_dir=1 if d > 0 else 2, smallest_ds=1e-3, largest_ds=1e-3)
        e = np.abs(line[:, -1 if d > 0 else 0] - x).max()
        bound = {1: 1.5, 2: 0.6, 4: 0.3}[p] * h ** (p + 1)
        ctx.check(bool(e <= bound), 'error of one step is of order %d' % (p + 1))


def vanish(ctx, method, where):
    """a zero field ends the line"""
    h = ctx.real('h', 0.05, 0.5)
    w = [ctx.real('w%d' % k, 0.5, 2) for k in range(3)]
    x0 = np.zeros((3, 1))
    if where == 'everywhere':
        f = vfield(ctx, lambda *x: (0, 0, 0))
        x0 = ctx.reals('x', (3, 1), -1, 1)
    elif where == 'seed':               # node values opposite across the seed
        f = vfield(ctx, lambda *x: [np.sign(x[k]) * w[k] for k in range(3)])
    elif where == 'node':
        f = vfield(ctx, lambda *x: [x[k] * x[k] * w[k] for k in range(3)], npts=(3, 3, 3))
    else:                               # v = (1 - x) along x, seeded so that the point reached by a full (half) step is the null
        s = {'full': 1, 'half': 0.5}[where]
        f = vfield(ctx, lambda *x: ((1 - x[0]) * w[0], 0, 0))
        x0 = ctx.consts(x0)
        x0[0, 0] = 1 - s * h
    kw = dict(stream_dir=1) if where in ('full', 'half') else {}
    line, topo = trace(f, x0, h, method, maxit=2, **kw)
    n = line.shape[1]
    ctx.check(bool((topo & 4096) != 0), 'the line is not reported as reaching a boundary')
    if where in ('everywhere', 'seed', 'node'):
        ctx.check(line.shape == (3, 1), 'only the seed')
        ctx.check(bool((topo & ZERO) == ZERO), 'reported as zero length')
        if line.shape == (3, 1):
            for k in range(3):
                ctx.eq(line[k, 0], x0[k, 0] if where == 'everywhere' else 0, 'seed')
        return
    # the forward part is cut at the null or before it
    for j in range(n):
        for k in range(3):
            v = line[k, j]
            ctx.check(not (isinstance(v, float) and v != v), 'coordinates are numbers')
            if not (isinstance(v, float) and v != v):
                ctx.le(abs(v), 5, 'coordinates are finite')
    ctx.check(bool((topo & ZERO) == ZERO), 'reported as zero length')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for m in METHODS:
        add('const/%s/both' % m, const, m, (2, 2, 2), 'flat', 'node', 1, 0, weight=4)
        add('const/%s/forward' % m, const, m, (2, 2, 2), 'interlaced', 'cell', 1, 1, weight=2)
        add('const/%s/backward' % m, const, m, (2, 3, 2), 'flat', 'node', 1, -1, weight=2)
        add('const/%s/two steps' % m, const, m, (2, 2, 2), 'flat', 'node', 2, 1, weight=6)
        for a in range(3):
            npts = [2, 2, 2]
            npts[a] = 1
            add('const/%s/2d %s' % (m, 'xyz'[a]), const, m, tuple(npts), 'flat', 'node', 1, 0, weight=3)
        add('const/%s/face' % m, const, m, (2, 2, 2), 'flat', 'face', 1, 1, weight=2)
        if ORDER[m] <= 2:
            for kind in ('circle', 'shear', 'saddle')[:3 if m == 'euler1' else 1]:
                for a in range(3):
                    add('error/%s/%s/%s' % (m, kind, 'xyz'[a]), local_error, m, kind, a)
        for d in (1, -1):
            add('order/%s/%+d' % (m, d), order, m, d)
        for wh in ('everywhere', 'seed', 'node'):
            add('vanish/%s/%s' % (m, wh), vanish, m, wh)
    for m, wh in (('rk2', 'half'), ('euler1', 'full'), ('rk12', 'full'), ('rk12', 'half'), ('euler1a', 'full')):
        add('vanish/%s/%s' % (m, wh), vanish, m, wh)
    return out
