"""Streamlines: seed, order, stopping point and reported reason."""
import numpy as np
from sym.run import Case
from harness.common import raw
from harness.P13 import vfield

PROP = 'P15'
CYTHON = ['cyfield', 'cyamr', 'cycalc', 'integrate', 'streamline']
ENCODED = ['viscid/cython/streamline.pyx: calc_streamlines, _py_streamline, classify_endpoint, end_flags_to_topology_generic '
           '(translated from the Cython source)',
           'viscid/cython/integrate.pyx: _c_euler1, _c_rk2, _c_rk4, _c_euler1a, _c_rk12, _c_rk45', 'viscid/seed.py: to_seeds, Point']
BOUNDS = ("up to 4 steps in each direction in constant fields (two directions of known length, both signs) and in two constant AMR patches; symbolic "
          "seeds, step length, box corners, inner and outer radius, length and time limits; one to three seeds, one to three chunks; every method")
ASSUME = ["when several stopping conditions hold at the end of one step, any of them may be reported",
          "inner radius smaller than outer radius is not assumed; limits are positive when given"]
OUTSIDE = "floating point rounding; length accounting of adaptive methods in strongly bent fields; parallel processes"

IB, IN, IS = 1, 3, 5
OX = dict(xl=24, xh=40, yl=72, yh=136, zl=264, zh=520, r=1032)
MAXIT, LEN, TIME = 12288, 20480, 36864
U = {'a': (2., 1., 2.), 'b': (-3., 4., 0.), 'c': (1., -2., -2.), 'x': (1., 0., 0.), 'z': (0., 0., -2.)}


def limits(ctx, which):
    """keyword arguments and their values"""
    kw = {}
    if 'box' in which:
        kw['obound0'] = [ctx.real('lo%d' % k, -6, 6) for k in range(3)]
        kw['obound1'] = [ctx.real('hi%d' % k, -6, 6) for k in range(3)]
    for s in ('xl', 'yl', 'zl', 'xh', 'yh', 'zh'):      # one symbolic face
        if s in which:
            kw.setdefault('obound0', [-50., -50., -50.])
            kw.setdefault('obound1', [50., 50., 50.])
            kw['obound0' if s[1] == 'l' else 'obound1']['xyz'.index(s[0])] = ctx.real(s, -4, 4)
    if 'ibound' in which:
        kw['ibound'] = ctx.real('ibound', 0, 3)
    if 'r' in which:
        kw['obound_r'] = ctx.real('r', 0.5, 6)
    if 'length' in which:
        kw['max_length'] = ctx.real('max_length', 0.01, 4)
    if 'time' in which:
        kw['max_t'] = ctx.real('max_t', 0.01, 4)
    return kw


def reasons(p, kw, box, length, t):
    """stopping conditions that hold at a point"""
    out = []
    r2 = sum(c * c for c in p)
    ib = kw.get('ibound', 0.0)
    if bool(r2 < ib * ib):
        out.append(IN if bool(p[2] >= 0) else IS)
    if 'obound_r' in kw and bool(r2 > kw['obound_r'] * kw['obound_r']):
        out.append(OX['r'])
    lo, hi = box
    for k, a in enumerate('xyz'):
        if lo[k] is not None and bool(p[k] < lo[k]):
            out.append(OX[a + 'l'])
        if hi[k] is not None and bool(p[k] > hi[k]):
            out.append(OX[a + 'h'])
    if 'max_length' in kw and bool(length >= kw['max_length']):
        out.append(LEN)
    if 'max_t' in kw and bool(t >= kw['max_t']):
        out.append(TIME)
    return out


def expect(ctx, x0, d, h, u, um, mag, kw, box, maxit):
    """points of one direction, allowed reasons"""
    pts, s, L, t = [], list(x0), 0, 0
    for j in range(maxit):
        f = 1
        nL, nt = L + h, t + h / mag
        if 'max_length' in kw and bool(nL > kw['max_length']):
            f = (kw['max_length'] - L) / h
        if 'max_t' in kw and bool(nt > kw['max_t']):
            g = (kw['max_t'] - t) * mag / h
            if f is 1 or bool(g < f):
                f = g
        s = [s[k] + d * f * h * u[k] / um for k in range(3)]
        L, t = nL, nt
        pts.append(s)
        why = reasons(s, kw, box, L, t)
        if why:
            return pts, why
    return pts, [MAXIT]


def check_line(ctx, line, topo, x0, back, fwd):
    pts = (back[0][::-1] if back else []) + [x0] + (fwd[0] if fwd else [])
    ctx.check(line.shape == (3, len(pts)), 'number of points')
    if line.shape == (3, len(pts)):
        for j, p in enumerate(pts):
            for k in range(3):
                ctx.eq(line[k, j], p[k], 'point of the line')
    ok = set()
    for a in (back[1] if back else [0]):
        for b in (fwd[1] if fwd else [0]):
            ok.add(a | b)
    ctx.check(int(topo) in ok, 'reported reason')


def single(ctx, method, which, uk, maxit, sd, npts=(2, 2, 2), center='node', sign0=0):
    import viscid
    import sys
    sys.modules['viscid.cython.streamline']._global_fld = None
    v = U[uk]
    live = [k for k in range(3) if npts[k] > 1]
    mag = float(np.sqrt(sum(v[k] ** 2 for k in live)))
    u = [v[k] if k in live else 0.0 for k in range(3)]
    scale = 2.0 if 'time' in which else 1.0
    f = vfield(ctx, lambda *x: [scale * c for c in v], npts, -16., 16., center=center)
    x0 = ctx.reals('x', (3, 1), -3, 3)
    h = ctx.real('h', 0.05, 1)
    kw = limits(ctx, which)
    line, topo = [None], None
    lines, topo = viscid.calc_streamlines(f, x0, method=method, ds0=h, maxit=maxit, stream_dir=sd,
                                          topo_style='generic', max_error=1e-2, **kw)
    box = (kw['obound0'], kw['obound1']) if 'obound0' in kw else (
        [-16.0 if k in live else None for k in range(3)], [16.0 if k in live else None for k in range(3)])
    p0 = [x0[k, 0] for k in range(3)]
    back = expect(ctx, p0, -1, h, u, mag, mag * scale, kw, box, maxit) if sd & 2 else None
    fwd = expect(ctx, p0, 1, h, u, mag, mag * scale, kw, box, maxit) if sd & 1 else None
    check_line(ctx, raw(lines[0]), raw(topo).ravel()[0], p0, back, fwd)


def several(ctx, nseed, chunks, output):
    """lines of several seeds do not depend on each other and come in seed order"""
    import viscid
    import sys
    sys.modules['viscid.cython.streamline']._global_fld = None
    f = vfield(ctx, lambda *x: U['a'], (2, 2, 2), -16., 16.)
    x0 = ctx.consts(np.zeros((3, nseed)))
    for i in range(nseed):
        x0[0, i] = ctx.real('x%d' % i, -2, 2)
        x0[1, i] = 0.25 * i
    h = ctx.consts(np.array([0.5]))[0]
    kw = dict(obound0=[-50.] * 3, obound1=[ctx.real('hi', -1, 2), 50., 50.])
    lines, topo = viscid.calc_streamlines(f, x0, ds0=h, maxit=2, topo_style='generic', output=output, chunk_factor=chunks,
                                          max_length=0.75, nr_procs=1, **kw)
    box = (kw['obound0'], kw['obound1'])
    ctx.check((lines is not None) == bool(output & 1), 'lines when asked for')
    ctx.check((topo is not None) == bool(output & 2), 'topology when asked for')
    if lines is not None:
        ctx.check(len(lines) == nseed, 'one line per seed')
    t = raw(topo).ravel() if topo is not None else None
    if t is not None:
        ctx.check(t.shape == (nseed,), 'one value per seed')
    for i in range(nseed):
        p0 = [x0[k, i] for k in range(3)]
        e = [expect(ctx, p0, d, h, U['a'], 3.0, 3.0, dict(max_length=0.75), box, 2) for d in (-1, 1)]
        if lines is not None:
            check_line(ctx, raw(lines[i]), t[i] if t is not None else e[0][1][0] | e[1][1][0], p0, e[0], e[1])
        elif t is not None:
            ctx.check(int(t[i]) in {a | b for a in e[0][1] for b in e[1][1]}, 'reported reason')


def amr(ctx, axis, d):
    """two patches with different constant fields: every step uses the patch it starts in"""
    import viscid
    import sys
    sys.modules['viscid.cython.streamline']._global_fld = None
    a, b = axis, (axis + 1) % 3
    vs = []
    for p in range(2):
        v = [0., 0., 0.]
        v[a], v[b] = ((3., 4.), (4., -3.))[p]
        vs.append(v)
    grids = []
    for p in range(2):
        vals = []
        for k in range(3):
            lo, hi = (-8., 8.) if k != a else ((-8., 0.), (0., 8.))[p]
            vals.append(('xyz'[k], [lo, hi, 3 - (k == a and p)]))
        crds = viscid.wrap_crds('uniform_cartesian', vals)
        dat = ctx.consts(np.zeros((3,) + tuple(crds.shape_nc)))
        for i in np.ndindex(*crds.shape_nc):
            for k in range(3):
                dat[(k,) + i] = vs[p][k]
        g = viscid.grid.Grid()
        g.crds = crds
        g.add_field(viscid.wrap_field(dat, crds, name='v', fldtype='vector', layout='flat'))
        grids.append(g)
    ds = viscid.dataset.Dataset()
    for g in grids:
        ds.add(g)
    from viscid import amr_grid
    res, is_amr = amr_grid.dataset_to_amr_grid(ds)
    ctx.check(is_amr, 'patches form an AMR grid')
    f = res['v']
    x0 = ctx.consts(np.zeros((3, 1)))
    x0[a, 0] = ctx.real('x', -2, 2)
    h = ctx.consts(np.array([1.0]))[0]
    lines, topo = viscid.calc_streamlines(f, x0, ds0=h, maxit=3, stream_dir=1 if d > 0 else 2, topo_style='generic')
    line = raw(lines[0])
    ctx.check(line.shape == (3, 4), 'number of points')
    if line.shape != (3, 4):
        return
    P = [[line[k, j] for k in range(3)] for j in (range(4) if d > 0 else range(3, -1, -1))]
    for j in range(3):
        x = P[j][a]
        ctx.assume(abs(x) > 0.001)
        v = vs[1] if bool(x > 0) else vs[0]
        for k in range(3):
            ctx.eq(P[j + 1][k], P[j][k] + d * h * v[k] / 5, 'step with the field of the patch')
    ctx.check(int(raw(topo).ravel()[0]) == MAXIT, 'reported reason')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for sd in (1, 2, 3):
        for w in ('xl', 'xh', 'yl', 'yh', 'zl', 'zh'):
            for uk in ('a', 'c'):
                add('face %s/%s/%d' % (w, uk, sd), single, 'euler1', (w,), uk, 2, sd, weight=2)
        for w in ('ibound', 'r', 'length', 'time'):
            add('%s/%d' % (w, sd), single, 'euler1', (w,), 'a', 3 if w in ('length', 'time') else 2, sd, weight=4)
        add('maxit/%d' % sd, single, 'euler1', (), 'c', 4 if T else 3, sd)
    for sd in (1, 2):
        add('length+time/%d' % sd, single, 'euler1', ('length', 'time'), 'b', 2, sd, weight=6)
        add('length+face/%d' % sd, single, 'euler1', ('length', 'yh'), 'b', 2, sd, weight=6)
        add('ibound+face/%d' % sd, single, 'euler1', ('ibound', 'xh'), 'x', 2, sd, weight=6)
        add('time+ibound/%d' % sd, single, 'euler1', ('time', 'ibound'), 'z', 2, sd, weight=6)
        add('r+time/%d' % sd, single, 'euler1', ('r', 'time'), 'x', 2, sd, weight=6)
        add('box/%d' % sd, single, 'euler1', ('box',), 'a', 1, sd, weight=8)
    for m in ('rk2', 'rk4', 'euler1a', 'rk12', 'rk45'):
        for w in ('time', 'length', 'xh'):
            add('%s/%s' % (m, w), single, m, (w,), 'b', 3, 1, weight=5)
            add('%s/%s/back' % (m, w), single, m, (w,), 'b', 2, 2, weight=5)
    for a in range(3):
        npts = [2, 2, 2]
        npts[a] = 1
        add('2d %s' % 'xyz'[a], single, 'euler1', (), 'b' if a == 2 else 'x' if a == 1 else 'z', 2, 3, tuple(npts))
        add('2d %s/length' % 'xyz'[a], single, 'euler1', ('length',), 'b' if a == 2 else 'x' if a == 1 else 'z', 2, 3, tuple(npts))
    add('cell centered', single, 'euler1', ('time',), 'a', 2, 3, (2, 2, 2), 'cell')
    for o in (1, 2, 3):
        add('two seeds/output %d' % o, several, 2, 1, o, weight=5)
    add('two seeds/two chunks', several, 2, 2, 3, weight=5)
    add('three seeds/two chunks', several, 3, 2, 3, weight=9)
    if T:
        add('three seeds/three chunks', several, 3, 3, 3, weight=9)
    for a in range(3):
        for d in (1, -1):
            add('amr/%s/%+d' % ('xyz'[a], d), amr, a, d, weight=4)
    return out
