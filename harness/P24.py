"""Jacobian, divergence and curl at a point or index."""
import numpy as np
from sym.run import Case
from harness.common import raw, nonuni, uni

PROP = 'P24'
CYTHON = ['cyfield', 'cyamr', 'cycalc']
ENCODED = ['viscid.calculator.calc: local_vector_points, jacobian_at_point, jacobian_at_ind, div_at_point, curl_at_point',
           'viscid/cython/cycalc.pyx: interp, interp_trilin, _c_interp_trilin, closest_ind (translated from the Cython source)']
BOUNDS = ("cell centered fields with 3 to 5 cells per axis, uneven and uniform concrete grids and grids with one symbolic axis, both layouts; "
          "every field linear in the coordinates (12 symbolic coefficients), every point at least one sample distance inside the grid along one axis at a time (all axes in the thorough check), sample "
          "distances symbolic or those of the grid; integer and float arguments; every set of cell values for the consistency of Jacobian, "
          "divergence and curl at fixed points")
ASSUME = ["the six sample points (point +/- dx, dy, dz) lie inside the cell centers"]
OUTSIDE = "eigenvalues (numerical LAPACK); sample points outside the cell centers; rounding"


def grid(ctx, npts, kind):
    if kind == 'uniform':
        return uni(ctx, 'xyz', npts)
    if kind.startswith('sym'):
        import viscid
        ax = 'xyz'.index(kind[-1])
        vals = [(a, ctx.ascending(a, n) if k == ax else ctx.consts([0.5 * k + i + 0.25 * i * i for i in range(n)]))
                for k, (a, n) in enumerate(zip('xyz', npts))]
        return viscid.wrap_crds('nonuniform_cartesian', vals)
    return nonuni(ctx, 'xyz', npts)


def vec(ctx, crds, fn, layout):
    import viscid
    cs = [raw(c) for c in crds.get_crds_cc()]
    sh = tuple(len(c) for c in cs)
    d = ctx.consts(np.zeros((3,) + sh))
    for i in np.ndindex(*sh):
        v = fn(i, [cs[k][i[k]] for k in range(3)])
        for m in range(3):
            d[(m,) + i] = v[m]
    if layout == 'interlaced':
        d = d.transpose(1, 2, 3, 0)
    return viscid.wrap_field(d, crds, name='b', fldtype='vector', layout=layout, center='cell'), cs


def coefs(ctx, full):
    M = [[ctx.real('m%d%d' % (m, k), -4, 4) for k in range(3)] for m in range(3)]
    b = [ctx.real('b%d' % m, -4, 4) if full else 0.5 * m for m in range(3)]
    return M, b


def check_all(ctx, M, jac, div, curl, label):
    if jac is not None:
        jac = raw(jac)
        for m in range(3):
            for k in range(3):
                ctx.eq(jac[m, k], M[m][k], '%s: d_%s B%s' % (label, 'xyz'[k], 'xyz'[m]))
    if div is not None:
        ctx.eq(raw(div).ravel()[0], M[0][0] + M[1][1] + M[2][2], label + ': divergence')
    if curl is not None:
        c = raw(curl)
        for m in range(3):
            i, j = (m + 1) % 3, (m + 2) % 3
            ctx.eq(c[m], M[j][i] - M[i][j], label + ': curl ' + 'xyz'[m])


def at_ind(ctx, npts, kind, layout):
    import viscid
    M, b = coefs(ctx, True)
    f, cs = vec(ctx, grid(ctx, npts, kind), lambda i, x: [sum(M[m][k] * x[k] for k in range(3)) + b[m] for m in range(3)], layout)
    i = [ctx.choice('i%d' % k, range(1, len(cs[k]) - 1)) for k in range(3)]
    check_all(ctx, M, viscid.jacobian_at_ind(f, *i), None, None, 'at index')


def ind_values(ctx, layout, center):
    """any values: quotient of the own neighbours"""
    import viscid
    crds = nonuni(ctx, 'xyz', [4, 5, 4] if center == 'cell' else [3, 4, 3])
    V = ctx.reals('v', (3, 3, 4, 3), -4, 4)
    d = V.transpose(1, 2, 3, 0) if layout == 'interlaced' else V
    f = viscid.wrap_field(d, crds, name='b', fldtype='vector', layout=layout, center=center)
    cs = [raw(c) for c in (crds.get_crds_cc() if center == 'cell' else crds.get_crds_nc())]
    V = raw(V)
    jac = raw(viscid.jacobian_at_ind(f, 1, 1, 1))
    for m in range(3):
        for k in range(3):
            hi, lo = [1, 1, 1], [1, 1, 1]
            hi[k], lo[k] = 2, 0
            ctx.eq(jac[m, k] * (cs[k][2] - cs[k][0]), V[(m,) + tuple(hi)] - V[(m,) + tuple(lo)], 'difference quotient of the neighbours')


def at_point(ctx, npts, kind, layout, what, steps, syms):
    """what: which function; steps: given | grid | one (only dx given); syms: axes along which location and distance are symbolic"""
    import viscid
    M, b = coefs(ctx, False)
    f, cs = vec(ctx, grid(ctx, npts, kind), lambda i, x: [sum(M[m][k] * x[k] for k in range(3)) + b[m] for m in range(3)], layout)
    x, kw = [], {}
    for k in range(3):
        c = cs[k]
        p = ctx.real('p%d' % k) if k in syms else float(c[len(c) // 2]) + 0.125
        ctx.assume(p > c[0])
        ctx.assume(p < c[-1])
        if steps == 'given' or (steps == 'one' and k == 0):
            h = ctx.real('h%d' % k, 0.0625, 2) if k in syms else 0.25
            kw['d' + 'xyz'[k]] = h
        else:           # the spacing next to the closest point
            n = 0
            while n + 1 < len(c) and bool(abs(p - c[n + 1]) < abs(p - c[n])):
                n += 1
            if n + 1 == len(c):
                ctx.assume(False)
            h = c[n + 1] - c[n]
            if n:
                ctx.assume(abs(p - c[n - 1]) > abs(p - c[n]) + 1e-6)
            ctx.assume(abs(p - c[n + 1]) > abs(p - c[n]) + 1e-6)
        ctx.assume(p - h >= c[0])
        ctx.assume(p + h <= c[-1])
        x.append(p)
    fn = getattr(viscid, what + '_at_point')
    r = fn(f, *x, **kw)
    check_all(ctx, M, r if what == 'jacobian' else None, r if what == 'div' else None, r if what == 'curl' else None, 'at a point')


def ints(ctx, what):
    """integer location"""
    import viscid
    M, b = coefs(ctx, False)
    crds = viscid.wrap_crds('nonuniform_cartesian', [(a, ctx.consts([-0.5, 0.5, 1.5, 2.5, 3.5])) for a in 'xyz'])
    f, cs = vec(ctx, crds, lambda i, x: [sum(M[m][k] * x[k] for k in range(3)) + b[m] for m in range(3)], 'flat')
    r = getattr(viscid, what + '_at_point')(f, 1, 2, 1, dx=0.5, dy=0.25, dz=0.75)
    check_all(ctx, M, r if what == 'jacobian' else None, r if what == 'div' else None, r if what == 'curl' else None, 'integer location')


def agree(ctx, layout, p, steps):
    """any values: divergence and curl are those of the Jacobian"""
    import viscid
    crds = nonuni(ctx, 'xyz', [4, 5, 4])
    V = ctx.reals('v', (3, 3, 4, 3), -4, 4)
    d = V.transpose(1, 2, 3, 0) if layout == 'interlaced' else V
    f = viscid.wrap_field(d, crds, name='b', fldtype='vector', layout=layout, center='cell')
    kw = dict(dx=0.375, dy=0.25, dz=0.5) if steps else {}
    cs = [raw(c) for c in crds.get_crds_cc()]
    x = [float(cs[k][1]) + float(p[k]) for k in range(3)]
    J = raw(viscid.jacobian_at_point(f, *x, **kw))
    check_all(ctx, J, None, viscid.div_at_point(f, *x, **kw), viscid.curl_at_point(f, *x, **kw), 'like the Jacobian')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for lay in ('flat', 'interlaced'):
        for kind in ('uneven', 'uniform', 'symx', 'symy', 'symz'):
            add('index/%s/%s' % (kind, lay), at_ind, (5, 4, 4), kind, lay)
        for c in ('cell', 'node'):
            add('index values/%s/%s' % (c, lay), ind_values, lay, c)
        for n, p in enumerate([(0.125, -0.125, 0.25), (0, 0, 0), (-0.25, 0.25, 0)]):
            for steps in (0, 1):
                add('agree/%s/%d/%d' % (lay, n, steps), agree, lay, p, steps)
    for w, lay in (('jacobian', 'flat'), ('div', 'interlaced'), ('curl', 'flat')):
        add('integer/' + w, ints, w)
        for kind in ('uneven', 'uniform') + (('symx', 'symy', 'symz') if T else ()):
            for steps in ('given', 'grid', 'one'):
                for syms in ((0,), (1,), (2,)) + (((0, 1, 2),) if T else ()):
                    add('point/%s/%s/%s/%s' % (w, kind, steps, ''.join('xyz'[k] for k in syms)), at_point,
                        (4, 5, 4) if steps == 'given' else (6, 6, 6), kind, lay, w, steps, syms, weight=5)
    return out
