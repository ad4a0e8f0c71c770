"""Dipole formulas."""
import numpy as np
from sym.run import Case
from harness.common import raw
from harness.P32 import sc, arr, dot, symr

PROP = 'P35'
ENCODED = ['viscid.dipole: calc_dip, fill_dipole, make_dipole, set_in_region, make_spherical_mask, xyz2lsrlp, dipole_map',
           'viscid.mapfield: cart2sph, sph2cart', 'viscid.cotr: as_cotr, Cotr.transform', 'viscid.field: vector components, coordinates']
BOUNDS = ("every moment with components up to 4 and every point with components up to 4 (away from the dipole), 1 to 4 points; grids of up to 3 nodes or cells in each direction, "
          "node and cell centered, both layouts, with and without rescaling; every inner and outer radius of the mask, every blending factor; mapping for every point with "
          "polar angle and azimuth given by half angle tangents up to 8 and every radius not beyond the field line's apex")
ASSUME = ["sine and cosine of an angle are related by their algebraic identities only"]
OUTSIDE = "rounding; the origin; edge and face centered fields; the moment for a given date (P33); points on the dipole axis"


def dip(ctx, p, m):
    from sym import engine
    r2 = dot(p, p)
    r = engine.sym_sqrt(r2) if ctx.symbolic else float(r2) ** 0.5
    return [(3 * p[k] * dot(m, p) / r2 - m[k]) / (r2 * r) for k in range(3)]


def moment(ctx, strength):
    m = [ctx.real('m%d' % k, -4, 4) for k in range(3)]
    if strength is None:
        return m, m
    ctx.assume(dot(m, m) > 0.01)
    from sym import engine
    n = engine.sym_sqrt(dot(m, m)) if ctx.symbolic else float(dot(m, m)) ** 0.5
    return m, [strength / n * x for x in m]


def points(ctx, n, strength, ints):
    import viscid
    m, mm = moment(ctx, strength)
    if ints:
        P = [[1, -2, 2], [0, 3, 0], [2, 3, 6], [-4, 0, 3]][:max(n, 1)]
        a = np.array(P if n else P[0])
    else:
        P = [[ctx.real('p%d%s' % (i, c), -4, 4) for c in 'xyz'] for i in range(max(n, 1))]
        for p in P:
            ctx.assume(dot(p, p) > 0.01)
        a = arr(ctx, P if n else P[0])
    B = raw(viscid.calc_dip(a, m=arr(ctx, m), strength=strength))
    if not ctx.check(B.shape == ((n, 3) if n else (3,)), 'one vector for each point') and B.shape != ((n, 3) if n else (3,)):
        return
    for i, p in enumerate(P):
        w = dip(ctx, p, mm)
        for k in range(3):
            ctx.eq(B[i, k] if n else B[k], w[k], 'dipole at the point')


def grid(ctx, shape, center, layout, mask=None):
    import viscid
    ax = []
    for d, n in enumerate(shape):
        k = n + (center == 'cell')
        lo = ctx.real('lo' + 'xyz'[d], -2, 2)
        h = [1.0, 0.5, 1.5][d]
        ax.append([lo + i * h for i in range(k)])
    B = viscid.zeros([arr(ctx, a) for a in ax], nr_comps=3, center=center, layout=layout)
    pts = [a if center == 'node' else [(a[i] + a[i + 1]) / 2 for i in range(len(a) - 1)] for a in ax]
    return B, pts


def comp(f, k):
    d = raw(f.data)
    return d[k] if f.layout == 'flat' else d[..., k]


def fill(ctx, shape, center, layout, strength):
    """every value of the grid is the dipole there, and what calc_dip gives"""
    import viscid
    m, mm = moment(ctx, strength)
    B, pts = grid(ctx, shape, center, layout)
    for i in np.ndindex(*shape):
        p = [pts[d][i[d]] for d in range(3)]
        ctx.assume(dot(p, p) > 0.01)
    out = viscid.fill_dipole(B, m=arr(ctx, m), strength=strength)
    ctx.check(out is B, 'filled in place')
    for i in np.ndindex(*shape):
        p = [pts[d][i[d]] for d in range(3)]
        w = dip(ctx, p, mm)
        for k in range(3):
            ctx.eq(comp(B, k)[i], w[k], 'dipole on the grid')


def fillmask(ctx, shape, center, layout, kind):
    """only where the mask is True; the rest is kept"""
    import viscid
    m = [ctx.real('m%d' % k, -4, 4) for k in range(3)]
    ax = [[0.5 + i for i in range(n + (center == 'cell'))] for n in shape]
    B = viscid.zeros([np.array(a) for a in ax], nr_comps=3, center=center, layout=layout)
    dat = ctx.reals('b', tuple(B.data.shape), -4, 4)
    B = B.wrap(dat)
    pts = [a if center == 'node' else [(a[i] + a[i + 1]) / 2 for i in range(len(a) - 1)] for a in ax]
    if kind == 'radius':
        rmax = ctx.real('rmax', 0, 6)
        rmin = ctx.real('rmin', 0, 6)
        mask = viscid.make_spherical_mask(B, rmin=rmin, rmax=rmax)
        inside = {i: bool(rmin * rmin <= sum(pts[d][i[d]] ** 2 for d in range(3))) and bool(sum(pts[d][i[d]] ** 2 for d in range(3)) < rmax * rmax)
                  for i in np.ndindex(*shape)}
    else:
        # any mask at two of the points, fixed elsewhere
        bits = ctx.choice('bits', [(0, 1), (1, 0), (1, 1)])
        inside = {i: bool(bits[0]) if i == (0, 0, 0) else bool(bits[1]) if i == tuple(n - 1 for n in shape) else sum(i) % 2 == 1 for i in np.ndindex(*shape)}
        mk = np.zeros(shape, dtype=bool)
        for i in inside:
            mk[i] = inside[i]
        if kind == 'vector':
            mk = np.stack([mk, ~mk, mk], axis=0 if layout == 'flat' else 3)
            mask = B.wrap_field(mk, fldtype='vector', dtype='bool')
        elif kind == 'other layout':
            mk = np.stack([mk, ~mk, mk], axis=3 if layout == 'flat' else 0)
            mask = viscid.wrap_field(mk, B.crds, fldtype='vector', center=center)
        else:
            mask = viscid.wrap_field(mk, B.crds, center=center, dtype='bool')
    M = [inside, {i: not inside[i] for i in inside}, inside] if kind in ('vector', 'other layout') else [inside] * 3
    if kind == 'radius' and ctx.choice('which', ['mask', 'fill']) == 'mask':
        got = raw(mask.data)
        ctx.check(got.shape == tuple(shape), 'shape of the mask')
        for i in inside:
            ctx.check(bool(got[i]) == inside[i], 'mask between the radii')
        return
    src = {(k, i): comp(B, k)[i] for k in range(3) for i in inside}
    if kind == 'radius' or ctx.choice('op', ['fill', 'set']) == 'fill':
        viscid.fill_dipole(B, m=arr(ctx, m), mask=mask)
        want = {i: dip(ctx, [pts[d][i[d]] for d in range(3)], m) for i in inside}
        for k in range(3):
            for i in inside:
                ctx.eq(comp(B, k)[i], want[i][k] if M[k][i] else src[k, i], 'filled where the mask is set')
        return
    al, be = ctx.real('alpha', -2, 2), ctx.real('beta', -2, 2)
    C = B.wrap(ctx.reals('c', tuple(B.data.shape), -4, 4))
    inplace = ctx.choice('out', [False, True])
    out = B if inplace else B.wrap(raw(B.data) * 0.0 + 0.75)
    c = {(k, i): comp(C, k)[i] for k in range(3) for i in inside}
    ret = viscid.set_in_region(B, C, alpha=al, beta=be, mask=mask, out=out)
    for k in range(3):
        for i in inside:
            w = al * src[k, i] + be * c[k, i] if M[k][i] else (src[k, i] if inplace else 0.75)
            ctx.eq(comp(ret, k)[i], w, 'blended where the mask is set')
            ctx.eq(comp(C, k)[i], c[k, i], 'inputs unchanged')
            if not inplace:
                ctx.eq(comp(B, k)[i], src[k, i], 'inputs unchanged')


def scalarmask(ctx, center):
    """scalar fields, and no mask at all"""
    import viscid
    ax = [np.array([0.5, 1.5, 2.5, 3.5][:3 + (center == 'cell')])] * 2
    n = 3
    A = viscid.wrap_field(ctx.reals('a', (n, n), -4, 4), viscid.arrays2crds(ax), center=center)
    C = viscid.wrap_field(ctx.reals('c', (n, n), -4, 4), viscid.arrays2crds(ax), center=center)
    al, be = ctx.real('alpha', -2, 2), ctx.real('beta', -2, 2)
    rmax = ctx.real('rmax', 0, 6)
    masked = ctx.choice('mask', [False, True])
    if masked:
        mask = viscid.make_spherical_mask(A, rmax=rmax)
        out = A.wrap(raw(A.data) * 0.0 + 0.75)
        ret = viscid.set_in_region(A, C, alpha=al, beta=be, mask=mask, out=out)
    else:
        ret = viscid.set_in_region(A, C, alpha=al, beta=be)
    g = ax[0] if center == 'node' else ax[0][:-1] + 0.5
    for i in range(n):
        for j in range(n):
            w = al * raw(A.data)[i, j] + be * raw(C.data)[i, j]
            if masked and not bool(g[i] ** 2 + g[j] ** 2 < rmax * rmax):
                w = 0.75
            ctx.eq(raw(ret.data)[i, j], w, 'blended where the mask is set')


def mapping(ctx, frame, spherical, n, equator=False):
    import viscid
    pts, rows = [], []
    # the mapped latitude by its own half angle, so that all the roots are rational
    for i in range(max(n, 1)):
        if i:
            r0, st, ct, sp, cp = 2.0, 0.8, -0.6, 0.6, -0.8
            if ctx.symbolic:
                from fractions import Fraction as F
                from sym.engine import SymReal, rv
                r0, st, ct, sp, cp = [SymReal(rv(F(v, 10))) for v in (20, 8, -6, 6, -8)]
            pts.append((r0, st, ct, sp, cp))
            rows.append([r0 * st * cp, r0 * st * sp, r0 * ct])
            continue
        r0 = ctx.real('r%d' % i, 0.5, 8)
        t = ctx.angle('t%d' % i, 'rad', lim=8)
        p = ctx.angle('p%d' % i, 'rad', lim=8)
        ctx.assume(t > 0)
        (st, ct), (sp, cp) = sc(ctx, t, 'rad'), sc(ctx, p, 'rad')
        ctx.assume(st > 0.01)
        if equator:
            st, ct = 1.0, 0.0
        elif ctx.choice('hemisphere%d' % i, ['n', 's']) == 'n':
            ctx.assume(ct > 0.01)
        else:
            ctx.assume(ct < -0.01)
        if ctx.symbolic:
            ctx.hints += [r0, r0 * st, symr(st) if equator else st, symr(ct) if equator else ct, sp, cp]
        pts.append((r0, st, ct, sp, cp))
        rows.append([r0 * st * cp, r0 * st * sp, r0 * ct])
    R = ctx.real('R', 0.5, 8)
    for r0, st, ct, sp, cp in pts:
        ctx.assume(R * st * st < 0.999 * r0)
    c = None
    if frame != 'sm':
        raise ValueError
    X = arr(ctx, [[x[k] for x in rows] for k in range(3)] if n else rows[0])
    L = raw(viscid.dipole.xyz2lsrlp(X, cotr=c, crd_system=frame))
    for i, (r0, st, ct, sp, cp) in enumerate(pts):
        ctx.eq(L[0, i] * st * st, r0, 'L shell')
        ctx.eq(L[1, i], r0, 'radius')
        s, co = sc(ctx, L[2, i], 'rad')
        ctx.eq(s, ct, 'latitude')
        ctx.eq(co, st, 'latitude')
        s, co = sc(ctx, L[3, i], 'rad')
        ctx.eq(s, sp, 'azimuth')
        ctx.eq(co, cp, 'azimuth')
    M = raw(viscid.dipole_map(X, r=R, cotr=c, crd_system=frame, as_spherical=spherical))
    ctx.check(M.shape == (3, max(n, 1)), 'shape')
    for i, (r0, st, ct, sp, cp) in enumerate(pts):
        if spherical:
            ctx.eq(M[0, i], R, 'radius')
            a, b = sc(ctx, M[1, i], 'deg')
            d = M[2, i] - L[3, i] * (180 / np.pi)
            ctx.check(abs(d * (d - 360)) < 1e-5, 'azimuth')
            ctx.check(M[2, i] >= -1e-9, 'azimuth between 0 and 360')
            ctx.check(M[2, i] <= 360 + 1e-9, 'azimuth between 0 and 360')
            s2, z = a * a, b
        else:
            v = [M[k, i] for k in range(3)]
            ctx.eq(dot(v, v), R * R, 'radius')
            ctx.eq(v[0] * sp, v[1] * cp, 'azimuth')
            ctx.check(v[0] * cp + v[1] * sp > 0, 'azimuth')
            s2, z = (v[0] * v[0] + v[1] * v[1]) / (R * R), v[2]
        ctx.eq(s2 * r0, R * st * st, 'same field line')
        if equator:
            ctx.check(z >= 0, 'northern end')
        else:
            ctx.check((z > 0) if bool(ct > 0) else (z < 0), 'same hemisphere')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        k.setdefault('reduce', True)
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for n in (0, 1, 2, 3, 4):
        for st in (None, 2.0):
            add('points/%d/%s' % (n, st), points, n, st, False)
        add('whole numbers/%d' % n, points, n, None, True)
    for center in ('node', 'cell'):
        for lay in ('flat', 'interlaced'):
            for sh in ((2, 1, 2), (1, 3, 1)) + (((3, 3, 3),) if T else ()):
                add('grid/%s/%s/%s' % (center, lay, 'x'.join(map(str, sh))), fill, sh, center, lay, None)
            add('grid/%s/%s/strength' % (center, lay), fill, (2, 1, 1), center, lay, 2.0)
            for kind in ('radius', 'scalar', 'vector', 'other layout'):
                for sh in ((2, 2, 2), (3, 3, 3)) if kind == 'scalar' else ((2, 2, 2),):
                    add('mask/%s/%s/%s/%s' % (kind, center, lay, 'x'.join(map(str, sh))), fillmask, sh, center, lay, kind)
        add('scalar/' + center, scalarmask, center)
    for sph in (False, True):
        for n in (0, 2):
            add('map/%s/%d' % ('spherical' if sph else 'cartesian', n), mapping, 'sm', sph, n)
        add('map/%s/equator' % ('spherical' if sph else 'cartesian'), mapping, 'sm', sph, 0, True)
    return out
