"""Spherical, map and Cartesian representations."""
import math
import numpy as np
from sym.run import Case
from harness.common import raw
from harness.P32 import sc, eqm, arr, frac, dot, cross, symr

PROP = 'P34'
ENCODED = ['viscid.mapfield: theta2lat, lat2theta, phi2lon, lon2phi, as_mapfield, as_spherefield, convert_coordinates, fld_* , as_polar_mapfield, '
           'pts2polar_mapfield, cart2sph, sph2cart, latlon2cart, cart2latlon, great_circle (with viscid.rotation.a2b_rot)']
BOUNDS = ("every point with components up to 4 off the polar axis (as radius and two angles through their half angle tangents); every ascending colatitude / latitude "
          "array of 4 nodes within 0..180 degrees; degrees and radians; scalar and vector fields in both layouts, node and cell centered, uniform and nonuniform; "
          "great circles between 11 fixed pairs of directions at every pair of radii up to 4 with 2 and 3 points")
ASSUME = ["sine and cosine of an angle are related by their algebraic identities only"]
OUTSIDE = "rounding; points on the polar axis (azimuth undefined); fields with further axes"


def pi_of(unit):
    return 180.0 if unit == 'deg' else math.pi


def points(ctx, fn, deg, n):
    """cartesian <-> spherical, latitude and longitude"""
    from viscid import mapfield as mf
    unit = 'deg' if deg else 'rad'
    ll = 'latlon' in fn
    to = fn.startswith('to')
    pts, want = [], []
    for i in range(max(n, 1)):
        r = ctx.real('r%d' % i, 0.25, 4)
        t = ctx.angle('t%d' % i, unit, lim=8)
        p = ctx.angle('p%d' % i, unit, lim=8)
        ctx.assume(t > 0)
        (st, ct), (sp, cp) = sc(ctx, t, unit), sc(ctx, p, unit)
        ctx.assume(st > 0.001)
        xyz = [st * cp, st * sp, ct]
        if ctx.symbolic:
            ctx.hints += [r, r * st, st, ct, sp, cp]
        pts.append((r, t, p))
        want.append(xyz)
    m = max(n, 1)
    half = pi_of(unit)

    def mk(rows):
        return arr(ctx, rows) if n else arr(ctx, [x[0] for x in rows])
    X = [[pts[j][0] * want[j][k] for j in range(m)] for k in range(3)]
    U = [[want[j][k] for j in range(m)] for k in range(3)]
    S = [[pts[j][k] for j in range(m)] for k in range(3)]
    if fn == 'sph2cart':
        got = mf.sph2cart(mk(S), deg=deg)
        eqm(ctx, got, X if n else [x[0] for x in X], 'cartesian point')
    elif fn == 'cart2sph':
        got = raw(mf.cart2sph(mk(X), deg=deg))
        ctx.check(got.shape == ((3, n) if n else (3,)), 'shape')
        for j in range(m):
            g = [got[k, j] if n else got[k] for k in range(3)]
            ctx.eq(g[0], pts[j][0], 'radius')
            s1, c1 = sc(ctx, g[1], unit)
            s2, c2 = sc(ctx, g[2], unit)
            for a, b in ((s1, sc(ctx, pts[j][1], unit)[0]), (c1, sc(ctx, pts[j][1], unit)[1]), (s2, sc(ctx, pts[j][2], unit)[0]), (c2, sc(ctx, pts[j][2], unit)[1])):
                ctx.eq(a, b, 'angles')
            ctx.check(g[1] >= 0, 'colatitude range')
            ctx.check(g[1] <= half + 0.001, 'colatitude range')
            ctx.check(abs(g[2]) <= half + 0.001, 'azimuth range')
    elif fn == 'latlon2cart':
        L = [[half / 2 - pts[j][1] for j in range(m)], [pts[j][2] - half for j in range(m)]]
        eqm(ctx, mf.latlon2cart(mk(L), r=2.0, deg=deg), [[2 * v for v in x] if n else 2 * x[0] for x in U], 'cartesian point')
        eqm(ctx, mf.latlon2cart(mk(L), deg=deg), U if n else [x[0] for x in U], 'cartesian point')
    elif fn == 'cart2latlon':
        got = raw(mf.cart2latlon(mk(X), deg=deg))
        ctx.check(got.shape == ((2, n) if n else (2,)), 'shape')
        for j in range(m):
            g = [got[k, j] if n else got[k] for k in range(2)]
            sl, cl = sc(ctx, g[0], unit)
            so, co = sc(ctx, g[1], unit)
            (st, ct), (sp, cp) = sc(ctx, pts[j][1], unit), sc(ctx, pts[j][2], unit)
            for a, b in ((sl, ct), (cl, st), (so, -sp), (co, -cp)):
                ctx.eq(a, b, 'latitude and longitude')


def ints(ctx):
    """whole numbers are not truncated"""
    from viscid import mapfield as mf
    k = ctx.choice('p', [(1, 2, 2), (-2, 1, 2), (2, -3, -6), (3, 0, 4), (1, 1, 1)])
    deg = ctx.choice('deg', [False, True])

    def close(a, b):
        for x, y in zip(raw(a).ravel(), np.ravel(b)):
            d = x - y
            if not (bool(d <= 1e-6) and bool(d >= -1e-6)):
                return False
        return True
    for t in (list(k), np.array(k)):
        s = mf.cart2sph(t, deg=deg)
        ctx.check(close(mf.sph2cart(s, deg=deg), k), 'back')
        ctx.check(close(mf.latlon2cart(np.array([30, 60]), deg=True), mf.latlon2cart([30.0, 60.0])), 'whole numbers')


def angles(ctx, unit):
    from viscid import mapfield as mf
    half = pi_of(unit)
    t = ctx.reals('t', (3,), 0, half)
    lat = mf.theta2lat(t, unit=unit)
    for a, b in zip(raw(lat), raw(t)):
        ctx.eq(a, half / 2 - b, 'latitude is complementary')
    for a, b in zip(raw(mf.lat2theta(lat, unit=unit)), raw(t)):
        ctx.eq(a, b, 'inverse')
    bad = ctx.real('bad', -400, 400)
    if bool(bad < 0) or bool(bad > half):
        ok = 0
        try:
            mf.theta2lat(bad, unit=unit)
        except ValueError:
            ok += 1
        try:
            mf.lat2theta(half / 2 - bad, unit=unit)
        except ValueError:
            ok += 1
        ctx.check(ok == 2, 'out of range is refused')


def mkfield(ctx, axes, uniform, center, layout, unit, sym='theta'):
    """field, node arrays, values by name -> index"""
    import viscid
    half = pi_of(unit)
    arrs = {}
    for ax, n in zip(axes, (3, 4) if axes[0] in ('phi', 'lon') else (4, 3)):
        pol = ax in ('theta', 'lat')
        lo, hi = (0.0 if ax == 'theta' else -half / 2), (half if ax == 'theta' else half / 2)
        if uniform:
            l = ctx.real(ax + '.lo', lo if pol else -half, hi if pol else half)
            d = ctx.real(ax + '.dx', 0.01, half / 4)
            v = [l + i * d for i in range(n)]
            if pol:
                ctx.assume(v[-1] <= hi - 1e-6)
        else:
            v = list(raw(ctx.ascending(ax, n, lo, hi, 0.01, half))) if pol else [0.25, 0.5, 1.5]
            if pol:
                ctx.assume(v[0] >= lo)
                ctx.assume(v[-1] <= hi - 1e-6)
        arrs[ax] = v
    if uniform:
        cl = [(ax, [arrs[ax][0], arrs[ax][-1], len(arrs[ax])]) for ax in axes]
        kind = 'uniform_spherical'
    else:
        cl = [(ax, arr(ctx, arrs[ax])) for ax in axes]
        kind = 'nonuniform_spherical'
    crds = viscid.wrap_crds(kind, cl, units=[unit, unit])
    sh = [len(arrs[ax]) - (center == 'cell') for ax in axes]
    if layout:
        nc = 2
        sh = [nc] + sh if layout == 'flat' else sh + [nc]
    dat = ctx.reals('f', tuple(sh), -4, 4)
    return viscid.wrap_field(dat, crds, center=center, name='f'), arrs, dat


def fields(ctx, way, uniform, center, layout, unit):
    """spherical field <-> map field"""
    from viscid import mapfield as mf
    sph = way == 'map'
    base = ('phi', 'theta') if sph else ('lon', 'lat')
    if ctx.choice('axes', ['azimuth first', 'polar first']) == 'polar first':
        base = base[::-1]
    f, nodes, dat = mkfield(ctx, base, uniform, center, layout, unit)
    keep = raw(dat).copy()
    fn, other = (mf.as_mapfield, mf.as_spherefield) if sph else (mf.as_spherefield, mf.as_mapfield)
    tgt = ('lon', 'lat') if sph else ('phi', 'theta')
    tunit = ctx.choice('unit', ['', 'deg', 'rad'])
    order = ctx.choice('order', [tgt, tgt[::-1]])
    out = fn(f, order=order, units=tunit)
    u2 = tunit or unit
    fac = 1.0 if u2 == unit else (180.0 / math.pi if u2 == 'deg' else math.pi / 180.0)
    ctx.check(list(out.crds.axes) == list(order), 'axes')
    ctx.check([u for u in out.crds.units] == [u2, u2], 'units')
    ctx.check(out.center.lower() == center, 'centering')
    az, pol = ('phi', 'theta') if sph else ('lon', 'lat')
    quarter = pi_of(u2) / 2

    def near(a, b, label):
        ctx.check(abs(a - b) <= 1e-6, label)
    A = raw(out.crds.get_crd(tgt[0], center='node'))
    B = raw(out.crds.get_crd(tgt[1], center='node'))
    n = len(nodes[pol])
    ctx.check(A.shape == (len(nodes[az]),) and B.shape == (n,), 'number of points')
    for i, x in enumerate(nodes[az]):
        near(A[i], x * fac, 'azimuth')
    for j, x in enumerate(nodes[pol]):
        near(B[n - 1 - j], quarter - x * fac, 'polar coordinate')
    D = value_at(out, order, layout)
    S = value_at(f, base, layout)
    ni, nj = [len(nodes[a]) - (center == 'cell') for a in (az, pol)]
    for c in range(2 if layout else 1):
        for i in range(ni):
            for j in range(nj):
                ctx.eq(D({tgt[0]: i, tgt[1]: nj - 1 - j}, c), S({az: i, pol: j}, c), 'value at its own place')
    back = other(out, order=base, units=unit)
    ctx.check(list(back.crds.axes) == list(base), 'axes of the inverse')
    for ax in base:
        for a, b in zip(raw(back.crds.get_crd(ax, center='node')), nodes[ax]):
            near(a, b, 'coordinates of the inverse')
    E = value_at(back, base, layout)
    for c in range(2 if layout else 1):
        for i in range(ni):
            for j in range(nj):
                ctx.eq(E({az: i, pol: j}, c), S({az: i, pol: j}, c), 'inverse')
    # already there: same values
    again = fn(out, order=order)
    G = value_at(again, order, layout)
    for i in range(ni):
        for j in range(nj):
            ctx.eq(G({tgt[0]: i, tgt[1]: j}, 0), D({tgt[0]: i, tgt[1]: j}, 0), 'already in these coordinates')
    for a, b in zip(raw(again.crds.get_crd(tgt[1], center='node')), B):
        ctx.eq(a, b, 'already in these coordinates')
    now = raw(f.data)
    for i in np.ndindex(*now.shape):
        ctx.eq(now[i], keep[i], 'field unchanged')


def value_at(f, axes, layout):
    d = raw(f.data)
    lay = f.layout

    def get(ix, c):
        t = tuple(ix[a] for a in axes)
        if not layout:
            return d[t]
        return d[(c,) + t] if lay == 'flat' else d[t + (c,)]
    return get


def perunits(ctx):
    """one unit for each axis, or only for the first"""
    from viscid import mapfield as mf
    f, nodes, dat = mkfield(ctx, ('phi', 'theta'), False, 'node', None, 'deg')
    us = ['deg'] if ctx.choice('units', [False, True]) else ['rad', 'deg']
    out = mf.as_mapfield(f, units=us)
    ctx.check(list(out.crds.axes) == ['lon', 'lat'], 'axes')
    B = raw(out.crds.get_crd('lat'))
    for j, x in enumerate(nodes['theta']):
        ctx.eq(B[3 - j], 90 - x, 'latitude')
    fac = math.pi / 180 if us[0] == 'rad' else 1.0
    for a, x in zip(raw(out.crds.get_crd('lon')), nodes['phi']):
        ctx.check(abs(a - x * fac) <= 1e-6, 'longitude')
    ctx.check(len(us) in (1, 2), 'units unchanged')


def polar(ctx, uniform, south, unit):
    """points within the bounding latitude, by angle from the pole"""
    from viscid import mapfield as mf
    f, nodes, dat = mkfield(ctx, ('phi', 'theta'), uniform, 'node', None, unit)
    fac = 1.0 if unit == 'rad' else math.pi / 180
    b = ctx.choice('bounding', [30.0, 60.0, 90.0])
    periodic = ctx.choice('periodic', [False, True])
    th = nodes['theta']
    lim = b * math.pi / 180
    tol = 1e-3
    dist = [(math.pi - t * fac if south else t * fac) for t in th]
    inside = []
    for d in dist:
        ctx.assume(abs(d - lim) > 2 * tol)
        inside.append(bool(d < lim))
    # values on the requested side of the bounding latitude; enough points remain
    if uniform and sum(inside) < 2:
        return
    ctx.assume(sum(inside) >= 1)
    out = mf.as_polar_mapfield(f, bounding_lat=b, hemisphere='south' if south else 'n', make_periodic=periodic)
    keep = [j for j in range(4) if inside[j]]
    keep = keep[::-1] if south else keep
    R = raw(out.crds.get_crd('lat'))
    if not ctx.check(R.shape == (len(keep),), 'number of points') and R.shape != (len(keep),):
        return
    P = raw(out.crds.get_crd('lon'))
    phi = nodes['phi']
    ctx.check(P.shape == (3 + periodic,) and raw(out.data).shape == (3 + periodic, len(keep)), 'number of points')
    end = phi[0] + 2 * pi_of(unit) if not uniform else phi[2] + (phi[1] - phi[0])
    for a, x in zip(P, list(phi) + [end]):
        ctx.check(abs(a - x * fac) <= 1e-6, 'longitude in radians')
    for k, j in enumerate(keep):
        ctx.check(abs(R[k] - dist[j]) <= 1e-6, 'angle from the pole')
        for i in range(3 + periodic):
            ctx.eq(raw(out.data)[i, k], raw(dat)[i % 3, j], 'value')


def ptspolar(ctx, axes, unit, south):
    from viscid import mapfield as mf
    half = pi_of(unit)
    n = 2
    rows = []
    for ax in axes:
        lo, hi = {'theta': (0, half), 'lat': (-half / 2, half / 2)}.get(ax, (-half, half))
        rows.append([ctx.real('%s%d' % (ax, i), lo, hi) for i in range(n)])
    out = raw(mf.pts2polar_mapfield(arr(ctx, rows), axes, pts_unit=unit, hemisphere='South' if south else ' north'))
    fac = 1.0 if unit == 'rad' else math.pi / 180
    for i in range(n):
        for ax, r in zip(axes, rows):
            x = r[i] * fac
            if ax in ('phi', 'lon'):
                ctx.check(abs(out[0, i] - x) <= 1e-6, 'longitude')
            else:
                d = x if ax == 'theta' else math.pi / 2 - x
                ctx.check(abs(out[1, i] - (math.pi - d if south else d)) <= 1e-6, 'angle from the pole')


def circle(ctx, kind, n):
    """great circle path"""
    from viscid import mapfield as mf
    dirs = {'axes': [((1, 0, 0), (0, 1, 0)), ((0, 0, 1), (1, 0, 0)), ((0, -1, 0), (0, 0, -1)), ((-1, 0, 0), (0, 0, 1))],
            'any': [((3, 0, 4), (0, 5, 0)), ((3, 4, 0), (-4, 3, 0)), ((1, 0, 0), (-3, 4, 0))],
            'same': [((0, 1, 0), (0, 1, 0)), ((1, 0, 0), (-1, 0, 0)), ((0, 0, -1), (0, 0, 1)), ((0, 1, 0), (0, -1, 0)), ((3, 4, 0), (-3, -4, 0))]}[kind]
    a, b = ctx.choice('points', dirs)
    na, nb = [int(round(math.sqrt(sum(x * x for x in v)))) for v in (a, b)]
    q = frac if ctx.symbolic else (lambda x, y: x / float(y))
    e, f = [q(x, na) for x in a], [q(x, nb) for x in b]
    r1, r2 = ctx.real('r1', 0.5, 4), ctx.real('r2', 0.5, 4)
    o = [0.0] * 3 if not ctx.choice('origin', [False, True]) else [1.0, -2.0, 0.5]
    p1, p2 = [r1 * x + y for x, y in zip(e, o)], [r2 * x + y for x, y in zip(f, o)]
    if ctx.symbolic:
        ctx.hints += [symr(1.0), symr(0.0), symr(-1.0), r1, r2] + [symr(x) for x in e + f] + [r1 * r2]
    C = raw(mf.great_circle(arr(ctx, p1), arr(ctx, p2), origin=o, n=n))
    ctx.check(C.shape == (3, n), 'number of points')
    for k in range(3):
        ctx.eq(C[k, 0], p1[k], 'starts at the first point')
        ctx.eq(C[k, n - 1], p2[k], 'ends at the second point')
    for i in range(n):
        v = [C[k, i] - o[k] for k in range(3)]
        w = i / float(n - 1)
        r = r1 + (r2 - r1) * w
        ctx.eq(dot(v, v), r * r, 'radius varies evenly')
        if kind != 'same':
            ctx.eq(dot(v, cross(e, f)), 0.0, 'in the plane of the two points')
            if n == 3 and i == 1:
                ctx.eq(dot(v, e), dot(v, f), 'half way')
                ctx.check(dot(v, e) + dot(v, f) > 0, 'the short way round')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        k.setdefault('reduce', True)
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for fn in ('sph2cart', 'cart2sph', 'latlon2cart', 'cart2latlon'):
        for deg in (False, True):
            add('%s/%s' % (fn, 'deg' if deg else 'rad'), points, fn, deg, 0 if deg else 1)
        add('%s/two' % fn, points, fn, fn.startswith('lat') or fn.endswith('lon'), 2)
    add('whole numbers', ints)
    for u in ('deg', 'rad'):
        add('angles/' + u, angles, u, reduce=False)
        k = 0
        for way in ('map', 'sphere'):
            for uniform in (False, True):
                for center in ('node', 'cell'):
                    for layout in (None, 'flat', 'interlaced'):
                        k += 1
                        if T or not layout or not (uniform and center == 'cell'):
                            add('field/%s/%s/%s/%s/%s' % (way, 'uni' if uniform else 'non', center, layout, u), fields, way, uniform, center, layout, u, reduce=False)
        for south in (False, True):
            for uniform in (False, True):
                add('polar/%s/%s/%s' % (u, 'south' if south else 'north', 'uni' if uniform else 'non'), polar, uniform, south, u, reduce=False)
            for axes in (('phi', 'theta'), ('lat', 'lon'), ('theta', 'lon')):
                add('polar points/%s/%s/%s' % (u, '-'.join(axes), south), ptspolar, axes, u, south, reduce=False)
    add('units per axis', perunits, reduce=False)
    for kind in ('axes', 'any', 'same'):
        for n in (2, 3):
            if kind != 'same' or n == 2:
                add('great circle/%s/%d' % (kind, n), circle, kind, n)
    return out
