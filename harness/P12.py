"""Grid index lookup from any cached start; no access outside the arrays."""
import numpy as np
from sym.run import Case
from harness.common import raw, probe
from harness.P11 import grid, mk, full, tri, query

PROP = 'P12'
CYTHON = ['cyfield', 'cyamr', 'cycalc']
PROBES = {'cycalc': '''
from viscid.cython.cyfield cimport Field_F8_Crd_F8

def _verif_lookup(vfield, m, d, value, cached, nearest):
    cdef Field_F8_Crd_F8 fld = make_cyfield(vfield)
    cdef int idx[3]
    cdef int i
    cdef int cm = m
    cdef int cd = d
    cdef double v = value
    for i in range(3):
        idx[i] = cached[i]
    if nearest:
        i = closest_ind(fld, cm, cd, v, idx)
    else:
        i = closest_preceeding_ind(fld, cm, cd, v, idx)
    return i, idx[cd]
'''}
ENCODED = ['viscid/cython/cycalc.pyx: closest_preceeding_ind, closest_ind, _c_interp_trilin, _c_interp_nearest, _py_interp_trilin, '
           '_py_interp_nearest, interp (translated from the Cython source, every array access checked)',
           'viscid/cython/cyfield.pyx: make_cyfield; viscid/cython/cyamr.pyx: make_cyamrfield, activate_patch']
BOUNDS = ("coordinates of 1 to 6 points, concrete and symbolic, uniform and uneven; any query value (also outside); any remembered cell 0..n-1; "
          "sequences of two and three queries; AMR fields whose patches have different numbers of points; node, cell and face centered")
ASSUME = ["coordinates strictly ascending"]
OUTSIDE = "not-a-number query points; floating point rounding at cell borders"


def lookup(ctx, npts, kind, d, center, nearest, anystart):
    find = probe('cycalc', '_verif_lookup')
    if find is None:
        return
    f = mk(ctx, npts, kind, 'scalar', center, 'flat')
    c = raw(f.get_crds()[d])
    n = len(c)
    x = ctx.real('x')
    start = ctx.int('start', 0, anystart if anystart else n - 1)
    cached = [0, 0, 0]
    cached[d] = start
    i, left = find(f, 0, d, x, cached, nearest)
    i = int(i)
    left = int(left)
    ctx.check(0 <= i < n, 'valid index')
    ctx.check(0 <= left < n, 'remembered index is valid')
    if not 0 <= i < n:
        return
    if nearest:
        for j in range(n):
            ctx.le(abs(x - c[i]), abs(x - c[j]), 'closest grid point')
        if bool(x >= c[n - 1]):
            ctx.check(i == n - 1, 'last point for a location beyond the end')
        if bool(x <= c[0]):
            ctx.check(i == 0, 'first point for a location before the start')
    elif n > 1 and bool(x >= c[0]) and bool(x < c[n - 1]):
        ctx.check(i <= n - 2, 'a cell has an upper neighbour')
        if i <= n - 2:
            ctx.le(c[i], x, 'cell starts before the point')
            ctx.le(x, c[i + 1], 'cell ends after the point')
    elif n > 1:
        ctx.check(i <= n - 2, 'index limited so that the next one is valid')


def sequence(ctx, npts, kind, ftype, center, nq, near):
    import viscid
    f = mk(ctx, npts, kind, ftype, center, 'flat')
    p = ctx.reals('p', (3, nq))
    r = raw((viscid.interp_nearest if near else viscid.interp_trilin)(f, p, wrap=False))
    fu = full(f, npts)
    for q in range(nq):
        for c, (cs, V) in enumerate(fu):
            got = r[q, c] if f.nr_comps else r[q]
            if near:
                vals = [V[i] for i in np.ndindex(*V.shape)]
                hit = False
                for v in vals:
                    e = got == v
                    hit = e if hit is False else (hit | e)
                ctx.check(hit, 'a value of the field')
            else:
                ctx.eq(got, tri(ctx, cs, V, [p[k, q] for k in range(3)]), 'value at a query after another query')


def amr(ctx, shapes, kind, near, axis):
    """patches with different numbers of points; the remembered cell comes from another patch"""
    import viscid
    flds = []
    for b, npts in enumerate(shapes):
        vals = []
        for k, n in enumerate(npts):
            lo = float(b) * 4 if k == 0 else 0.0
            if kind == 'uniform':
                vals.append(('xyz'[k], [lo, lo + 4.0, n]))
            else:
                t = np.array([i + 0.25 * i * i for i in range(n)])
                vals.append(('xyz'[k], ctx.consts(lo + 4 * t / t[-1])))
        crds = viscid.wrap_crds('uniform_cartesian' if kind == 'uniform' else 'nonuniform_cartesian', vals)
        flds.append(viscid.wrap_field(ctx.reals('v%d' % b, npts), crds, name='v'))
    from viscid import amr_grid
    grids = []
    for fl in flds:
        g = viscid.grid.Grid()
        g.crds = fl.crds
        g.add_field(fl)
        grids.append(g)
    ds = viscid.dataset.Dataset()
    for g in grids:
        ds.add(g)
    res, is_amr = amr_grid.dataset_to_amr_grid(ds)
    ctx.check(is_amr, 'patches form an AMR grid')
    f = res['v']
    # first point in the last patch, second in the first patch; the position along one axis is symbolic
    p = ctx.consts([[6.5, 1.5], [1.0, 2.75], [0.5, 3.25]])
    lo, hi = ([4.5, 0], [8, 3.5]) if axis == 0 else ([0, 0], [4, 4])
    for q in range(2):
        p[axis, q] = ctx.real('p%d' % q, lo[q], hi[q])
    r = raw((viscid.interp_nearest if near else viscid.interp_trilin)(f, p, wrap=False))
    for q, b in ((0, 1), (1, 0)):
        (cs, V), = full(flds[b], shapes[b])
        if near:
            hit = False
            for v in V.ravel():
                e = r[q] == v
                hit = e if hit is False else (hit | e)
            ctx.check(hit, 'a value of the patch')
        else:
            ctx.eq(r[q], tri(ctx, cs, V, [p[k, q] for k in range(3)]), 'value from the patch')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for near in (False, True):
        w = 'nearest' if near else 'cell'
        for kind in ('uneven', 'uniform', 'symbolic', 'symuni'):
            for n in (1, 2, 3, 5) + ((6, 8) if T else ()):
                if kind in ('symbolic', 'symuni') and n > 4:
                    n = 4
                add('lookup/%s/%s/n%d' % (w, kind, n), lookup, (n, 2, 2), kind, 0, 'node', near, 0, weight=2)
            for d in (1, 2):
                add('lookup/%s/%s/axis%d' % (w, kind, d), lookup, (2, 3, 4), kind, d, 'node', near, 0)
            add('lookup/%s/%s/centers' % (w, kind), lookup, (5, 2, 2), kind, 0, 'cell', near, 0)
        for kind in ('uneven', 'uniform'):
            add('lookup/%s/%s/start beyond' % (w, kind), lookup, (3, 2, 2), kind, 0, 'node', near, 7)
            for axis, (s1, s2) in enumerate([((3, 2, 2), (6, 3, 2)), ((2, 3, 3), (2, 5, 2)), ((4, 2, 2), (2, 3, 5))]):
                add('amr/%s/%s/%s' % (w, kind, 'xyz'[axis]), amr, (s1, s2), kind, near, axis, weight=5)
                add('amr reverse/%s/%s/%s' % (w, kind, 'xyz'[axis]), amr, (s2, s1), kind, near, axis, weight=5)
            add('sequence/%s/%s/1d' % (w, kind), sequence, (5, 1, 1), kind, 'scalar', 'node', 3 if T else 2, near, weight=3)
            add('sequence/%s/%s/2d' % (w, kind), sequence, (3, 1, 2), kind, 'scalar', 'node', 2, near, weight=5)
        add('sequence/%s/symbolic' % w, sequence, (4, 1, 1), 'symbolic', 'scalar', 'node', 2, near, weight=5)
        for center in ('cell', 'face', 'edge'):
            add('sequence/%s/vector/%s' % (w, center), sequence, (3, 2, 2), 'uneven', 'vector', center, 1, near, weight=4)
    seen = set()
    return [c for c in out if not (c.name in seen or seen.add(c.name))]
