"""Geophysical coordinate systems."""
import numpy as np
from sym.run import Case
from harness.common import raw
from harness.P32 import mm, mv, tr, dot, elem, sc, eqm, arr, sqr, frac

PROP = 'P33'
ENCODED = ['viscid.cotr: make_rotation, make_translation, as_nvec, _igrf_interpolate, Cotr (all members but get_rotation_wxyz), get_dipole_moment_ang, '
           'dipole_moment2cotr, cotr_transform, get_dipole_moment, get_dipole_angles']
BOUNDS = ("every time (through julian centuries since 2000, hours since midnight and the three dipole coefficients, all symbolic), every dipole tilt and dipole "
          "gsm angle, all ordered pairs and triples of gei, geo, gse, gsm, sm, mag, mhd; one vector and stacks of 2 and 3; rdim 3 and 4")
ASSUME = ["sine and cosine of an angle are related by their algebraic identities only",
          "the dipole points north of the gse x-y plane when its angles are derived from the time"]
OUTSIDE = "conversion of dates to centuries and hours; rounding; the axis and angle of a transform (see the rotations property for the same formulas); heliocentric pairs (not implemented by the code)"

SYS = ('gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd')
FREE = ('gei', 'geo', 'gse', 'mag', 'mhd')
NOMAG = ('gei', 'geo', 'gse', 'gsm', 'sm', 'mhd')


def elementary(ctx, ax, rdim):
    from viscid import cotr
    a = ctx.angle('a', 'deg')
    s, c = sc(ctx, a, 'deg')
    # right handed around y, left handed around x and z
    M = elem(ax, s if ax == 'y' else -s, c)
    want = [[M[i][j] if i < 3 and j < 3 else (1.0 if i == j else 0.0) for j in range(rdim)] for i in range(rdim)]
    for axis in (ax, 'xyz'.index(ax), ax.upper() + ' '):
        eqm(ctx, cotr.make_rotation(a, axis, rdim=rdim), want, 'elementary rotation')
    eqm(ctx, cotr.make_rotation(0.0, ax, rdim=rdim), np.eye(rdim), 'no rotation')
    for bad in (dict(axis='q'), dict(rdim=5)):
        try:
            cotr.make_rotation(30.0, **bad)
        except ValueError:
            pass
        else:
            ctx.fail('bad axis or dimension is rejected')


def nonzero(ctx, c, dips):
    """no angle is exactly zero (zero angles: see the other cases)"""
    t0, ut = c.t0, c.ut
    ctx.assume(abs(100.461 + 36000.770 * t0 + 15.04107 * ut) > 0.0001)
    m = 280.460 + 36000.772 * t0 + 0.04107 * ut
    ctx.assume(abs(m) > 4)
    if dips:
        ctx.assume(abs(c.dip_tilt) > 0.0001)
        ctx.assume(abs(c.dip_gsm) > 0.0001)


def at_time(ctx, rdim=3, dips=False, coef=True, years=False):
    """Cotr at a symbolic time"""
    from viscid import cotr
    kw = {}
    if dips:
        kw = dict(dip_tilt=ctx.angle('tilt', 'deg'), dip_gsm=ctx.angle('gsm', 'deg'))
    c = cotr.Cotr('2003-02-01T05:06:07', rdim=rdim, **kw)
    c.t0 = ctx.real('t0', -1, 1)
    c.ut = ctx.real('ut', 0, 24)
    if coef and not dips:
        c.g10 = ctx.real('g10', -31000, -29000)
        if coef in ('exact', 'one'):
            S = 400.0
            L = S * 11.0
            c.g10 = S * -61.0
            f = ctx.choice('longitude', [(-5, 12, 13), (-7, 24, 25)] if coef == 'exact' else [(-5, 12, 13)])
            c.g11, c.h11 = [L * (frac(v, f[2]) if ctx.symbolic else v / float(f[2])) for v in f[:2]]
        else:
            c.g11 = ctx.real('g11', -3000, -1000)
            c.h11 = ctx.real('h11', 4000, 6000)
    return c


def wantmats(ctx, c, mag):
    """matrices from gei to each system, from Hapgood's formulas"""
    rt = lambda a, ax: (lambda s, k: elem(ax, s if ax == 'y' else -s, k))(*sc(ctx, a, 'deg'))
    t0, ut = c.t0, c.ut
    m = 357.528 + 35999.050 * t0 + 0.04107 * ut
    sm_, cm_ = sc(ctx, m, 'deg')
    lam = 280.460 + 36000.772 * t0 + 0.04107 * ut + (1.915 - 0.0048 * t0) * sm_ + 0.020 * (2 * sm_ * cm_)
    geo = rt(100.461 + 36000.770 * t0 + 15.04107 * ut, 'z')
    gse = mm(rt(lam, 'z'), rt(23.439 - 0.013 * t0, 'x'))
    out = {'gei': np.eye(3).tolist(), 'geo': geo, 'gse': gse}
    out['mhd'] = [[-x for x in gse[0]], [-x for x in gse[1]], gse[2]]
    return out


def frames(ctx, dips, rdim, names):
    """each transform is the one via gei; orthonormal; inverse"""
    c = at_time(ctx, rdim, dips, 'exact')
    if rdim == 3:
        nonzero(ctx, c, False)
    b = ctx.choice('to', names)
    order = ctx.choice('reverse first', [False, True])
    M = {}
    for a in names:
        if order:
            c.get_transform_matrix(b, a)
        M[a] = raw(c.get_transform_matrix(a, b)).tolist()
    W = wantmats(ctx, c, False)
    eye = np.eye(rdim)
    for a in names:
        eqm(ctx, np.array(mm4(M[a], tr4(M[a])), dtype=object), eye, 'orthonormal')
        back = raw(c.get_transform_matrix(b, a)).tolist()
        eqm(ctx, np.array(back, dtype=object), tr4(M[a]), 'inverse')
        if rdim == 3:
            from harness.P32 import cross
            ctx.eq(dot(M[a][0], cross(M[a][1], M[a][2])), 1.0, 'no reflection')
    if b in W:
        for a in set(W) & set(M):
            want = mm(W[b], tr(W[a]))
            eqm(ctx, np.array([r[:3] for r in M[a][:3]], dtype=object), want, 'Hapgood transform')


def mm4(A, B):
    n = len(A)
    return [[sum((A[i][k] * B[k][j] for k in range(n)), 0.0) for j in range(n)] for i in range(n)]


def tr4(A):
    n = len(A)
    return [[A[j][i] for j in range(n)] for i in range(n)]


def triples(ctx, dips, names, a):
    """going via a third system makes no difference"""
    sm = not dips and 'sm' in names
    b = ctx.choice('to', names)
    c = at_time(ctx, 3, dips, 'one' if sm else 'exact')
    nonzero(ctx, c, dips)
    if sm:
        e = raw(c.transform('geo', 'gse', c.Q_g))
        for i in range(3):
            ctx.assume(e[i] >= 0.01)
    direct = raw(c.get_transform_matrix(a, b)).tolist()
    for v in names:
        A = raw(c.get_transform_matrix(a, v)).tolist()
        B = raw(c.get_transform_matrix(v, b)).tolist()
        eqm(ctx, np.array(mm(B, A), dtype=object), direct, 'via a third system')


def vectors(ctx, rdim):
    from viscid import cotr
    c = cotr.Cotr(dip_tilt=ctx.angle('tilt', 'deg'), dip_gsm=ctx.angle('gsm', 'deg'), rdim=rdim)
    st, ct = sc(ctx, c.dip_tilt, 'deg')
    sg, cg = sc(ctx, c.dip_gsm, 'deg')
    # columns: sm axes in gse
    R = mm(elem('x', -sg, cg), elem('y', st, ct))
    M = {('sm', 'gse'): R, ('gse', 'sm'): tr(R), ('sm', 'mhd'): [[-x for x in R[0]], [-x for x in R[1]], R[2]],
         ('gse', 'mhd'): [[-1.0, 0, 0], [0, -1.0, 0], [0, 0, 1.0]], ('gsm', 'gse'): elem('x', -sg, cg), ('sm', 'gsm'): elem('y', st, ct),
         ('sm', 'sm'): np.eye(3).tolist()}
    n = ctx.choice('vectors', [0, 1, 2, 3, 4])
    v = [[ctx.real('v%d%d' % (i, j), -8, 8) for j in range(max(n, 1))] for i in range(3)]
    V = arr(ctx, v) if n else arr(ctx, [x[0] for x in v])
    for (f, t), m in M.items():
        want = [[dot(m[i], [v[k][j] for k in range(3)]) for j in range(max(n, 1))] for i in range(3)]
        want = want if n else [x[0] for x in want]
        eqm(ctx, c.transform(f, t, V), want, 'vectors')
        eqm(ctx, c.transform(f.upper(), ' ' + t, V), want, 'system names in any case')
    for i in range(3):
        for j in range(max(n, 1)):
            ctx.eq(raw(V)[(i, j) if n else i], v[i][j], 'vectors unchanged')
    for f, t in (('gse', 'nowhere'), ('gse', 'hee'), ('hae', 'gse')):
        try:
            c.transform(f, t, V)
        except (ValueError, NotImplementedError):
            pass
        else:
            ctx.fail('unknown transform is refused')
    for h in ('hae', 'hee', 'heeq'):
        eqm(ctx, c.transform(h, h, V), v if n else [x[0] for x in v], 'heliocentric identity')


def dipole(ctx, how):
    """the dipole axis is z in sm and mag; tilt and gsm angles point at it"""
    from viscid import cotr
    if how == 'ang':
        t, g = ctx.angle('tilt', 'deg', lim=8), ctx.angle('gsm', 'deg')
        S = ctx.real('S', 0.25, 8)
        st, ct = sc(ctx, t, 'deg')
        sg, cg = sc(ctx, g, 'deg')
        want = {'gse': [-S * st, -S * sg * ct, -S * cg * ct], 'mhd': [S * st, S * sg * ct, -S * cg * ct], 'sm': [0.0, 0.0, -S], 'gsm': [-S * st, 0.0, -S * ct]}
        for s, w in want.items():
            eqm(ctx, cotr.get_dipole_moment_ang(dip_tilt=t, dip_gsm=g, crd_system=s, strength=S), w, 'dipole moment')
        c = cotr.Cotr(dip_tilt=t, dip_gsm=g)
        a = c.get_dipole_angles()
        ctx.eq(a[0], t, 'dipole angles')
        ctx.eq(a[1], g, 'dipole angles')
        eqm(ctx, cotr.get_dipole_moment_ang(), [0.0, 0.0, -cotr.DEFAULT_STRENGTH], 'no tilt')
    elif how == 'moment':
        s = ctx.choice('system', ['gse', 'mhd'])
        f = ctx.choice('m', [(0, 0, -1), (0, 0, 1), (3, 0, -4), (0, -3, -4), (2, -3, -6), (-2, 3, 6), (3, 0, 4), (2, 3, -6), (-6, -2, -3)])
        S = ctx.real('S', 0.25, 8)
        n = int(round(float(np.sqrt(np.dot(f, f)))))
        m = [S * (frac(x, n) if ctx.symbolic else x / float(n)) for x in f]
        c = cotr.dipole_moment2cotr(arr(ctx, m), crd_system=s)
        eqm(ctx, c.get_dipole_moment(crd_system=s, strength=S), m, 'moment of the cotr of a moment')
        for bad in ('gsm', 'sm', 'geo'):
            try:
                cotr.dipole_moment2cotr([0.0, 0.0, -1.0], crd_system=bad)
            except ValueError:
                pass
            else:
                ctx.fail('other systems are refused')
    else:
        c = at_time(ctx, 3, False, 'exact')
        q = list(raw(c.Q_g))
        e = raw(c.transform('geo', 'gse', arr(ctx, q)))
        ctx.assume(e[2] >= 0.1)
        ctx.assume(abs(e[1]) >= 0.001)
        ctx.assume(abs(e[0]) >= 0.001)
        ctx.assume(e[1] * e[1] + e[2] * e[2] >= 0.01)
        for s in ('mag', 'sm'):
            eqm(ctx, c.transform('geo', s, arr(ctx, q)), [0.0, 0.0, 1.0], 'dipole axis is z in ' + s)
        g = raw(c.transform('geo', 'gsm', arr(ctx, q)))
        ctx.eq(g[1], 0.0, 'dipole axis in the gsm x-z plane')
        st, ct = sc(ctx, c.dip_tilt, 'deg')
        ctx.eq(g[0], st, 'dipole tilt')
        ctx.eq(g[2], ct, 'dipole tilt')
        # direction of the northern dipole axis from the coefficients
        x, y, z = c.g11 / c.g10, c.h11 / c.g10, (frac(60, 61) if ctx.symbolic else 60 / 61.0)
        for u, v in zip(q, (x, y, z)):
            ctx.eq(u, v, 'dipole axis in geo')
        eqm(ctx, c.get_dipole_moment('sm', strength=2.0), [0.0, 0.0, -2.0], 'dipole moment is opposite to the northern dipole axis')
        for s in ('geo', 'gsm', 'gse', 'mhd'):
            eqm(ctx, c.get_dipole_moment(s, strength=2.0), list(raw(c.transform('sm', s, [0.0, 0.0, -2.0]))), 'dipole moment')


def igrf(ctx):
    """coefficients are interpolated linearly in time, constant outside of the table"""
    from viscid import cotr
    y = ctx.real('year', 1930, 2040)
    old = cotr.datetime64_as_years
    cotr.datetime64_as_years = lambda t: y
    try:
        nt = ctx.choice('notilt1967', [True, False])
        got = cotr._igrf_interpolate(np.datetime64('2001-02-03T04:05:06'), notilt1967=nt)
    finally:
        cotr.datetime64_as_years = old
    T = [[float(v) for v in r] for r in IGRF]
    if not bool(y > T[0][0]):
        want = T[0][1:]
    elif not bool(y < T[-1][0]):
        want = T[-1][1:]
    else:
        for lo, hi in zip(T[:-1], T[1:]):
            if bool(y <= hi[0]):
                want = [a + (b - a) * (y - lo[0]) / (hi[0] - lo[0]) for a, b in zip(lo[1:], hi[1:])]
                break
    for a, b in zip(got, want):
        ctx.eq(a, b, 'interpolated coefficients')


IGRF = [[1950.0, -30554.00, -2250.00, 5815.00], [1955.0, -30500.00, -2215.00, 5820.00], [1960.0, -30421.00, -2169.00, 5791.00],
        [1965.0, -30334.00, -2119.00, 5776.00], [1970.0, -30220.00, -2068.00, 5737.00], [1975.0, -30100.00, -2013.00, 5675.00],
        [1980.0, -29992.00, -1956.00, 5604.00], [1985.0, -29873.00, -1905.00, 5500.00], [1990.0, -29775.00, -1848.00, 5406.00],
        [1995.0, -29692.00, -1784.00, 5306.00], [2000.0, -29619.40, -1728.20, 5186.10], [2005.0, -29554.63, -1669.05, 5077.99],
        [2010.0, -29496.57, -1586.42, 4944.26], [2015.0, -29442.00, -1501.00, 4797.10]]


def notilt(ctx):
    """the special time of OpenGGCM: all geocentric systems agree, except mhd"""
    from viscid import cotr
    v = list(raw(ctx.reals('v', (3,), -8, 8)))
    V = arr(ctx, v)
    t = ctx.choice('time', ['1967-01-01', '1967-01-01T00:00:00.5', '1967-01-01T06:00', np.datetime64('1967-01-01T23:59:59')])
    how = ctx.choice('how', ['function', 'class'])
    flip = [-v[0], -v[1], v[2]]
    c = cotr.Cotr(t)
    for a in SYS:
        for b in SYS:
            w = v if (a == 'mhd') == (b == 'mhd') else flip
            got = cotr.cotr_transform(t, a, b, V) if how == 'function' else c.transform(a, b, V)
            eqm(ctx, got, w, 'no tilt')
    eqm(ctx, cotr.get_dipole_moment(t, strength=2.0), [0.0, 0.0, -2.0], 'moment without tilt')
    a = cotr.get_dipole_angles(t)
    ctx.check(a[0] == 0 and a[1] == 0, 'angles without tilt')
    if ctx.symbolic:
        return
    far = cotr.get_dipole_angles(t, notilt1967=False)
    ctx.check(abs(far[0]) > 1 and abs(far[1]) > 1, 'tilt with notilt1967=False')


def nvec(ctx):
    from viscid import cotr
    n = ctx.choice('n', [0, 1, 2, 3])
    k = ctx.choice('k', [2, 3, 4])
    v = [[ctx.real('v%d%d' % (i, j), -8, 8) for j in range(max(n, 1))] for i in range(k)]
    V = arr(ctx, v) if n else arr(ctx, [x[0] for x in v])
    full = v + [[x] * max(n, 1) for x in (0.0, 0.0, 0.0, 1.0)[k:]]
    eqm(ctx, cotr.as_nvec(V), full if n else [x[0] for x in full], 'extended vectors')
    if k == 3:
        t, i = cotr.make_translation([x[0] for x in v])
        p = [1.0, 2.0, 3.0, 1.0]
        q = mm4r(t, p)
        for j in range(3):
            ctx.eq(q[j], p[j] + v[j][0], 'translation')
        for x, y in zip(mm4r(i, q), p):
            ctx.eq(x, y, 'inverse translation')


def mm4r(M, v):
    M = raw(M).tolist() if isinstance(M, np.ndarray) else M
    return [sum((M[i][k] * v[k] for k in range(4)), 0.0) for i in range(4)]


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        k.setdefault('reduce', True)
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for ax in 'xyz':
        for r in (2, 3, 4) if ax == 'z' else (3, 4):
            add('elementary/%s/%d' % (ax, r), elementary, ax, r)
    for r in (3, 4):
        for i in range(3):
            add('frames/dips/%d/%d' % (r, i), frames, True, r, NOMAG[2 * i:2 * i + 2] + NOMAG[:1], weight=2)
        add('vectors/%d' % r, vectors, r)
    add('frames/time/3', frames, False, 3, FREE, weight=3)
    for a in NOMAG:
        add('triples/dips/' + a, triples, True, NOMAG, a, weight=2)
    for a in FREE:
        add('triples/time/' + a, triples, False, FREE, a, weight=2)
    for a in ('mag', 'sm', 'gsm'):
        add('triples/mag/' + a, triples, False, ('mag', 'sm', 'gsm', 'geo'), a, weight=3, timeout_ms=1000)
    for h in ('ang', 'moment', 'time'):
        add('dipole/' + h, dipole, h, **(dict(timeout_ms=2000) if h == 'time' else {}))
    add('igrf', igrf)
    add('notilt', notilt)
    add('nvec', nvec)
    return out
