"""Null finder: cells reported for linear fields, sign test for arbitrary values."""
import numpy as np
from sym.run import Case
from harness.common import raw

PROP = 'P20'
CYTHON = ['null_tools']
ENCODED = ['viscid/cython/null_tools.pyx: find_nulls, _reduce_candidates, _py_reduce_candidates, _find_null_cells_from_candidates, '
           '_py_find_null_cells_from_candidates, find_roots_face (translated from the Cython source)', 'viscid/field.py: as_interlaced']
BOUNDS = ("grids of 2x2x2 to 3x4x3 points, even and uneven; linear fields with one null anywhere in space for 8 matrices (diagonal, permuted, sheared, "
          "rotated, dense; both determinant signs); every set of 24 corner values for the sign test; inner radius")
ASSUME = ["the null is not within 1e-6 of a cell border for the exact test; on a border at least one adjacent cell has to be reported"]
OUTSIDE = "cells with several nulls or curved null lines (trilinear fields); classification into O, A and B nulls (numerical eigenvalues)"

MATS = {
    'unit': np.eye(3), 'permuted': np.array([[0., 1, 0], [0, 0, -1], [1, 0, 0]]), 'diagonal': np.diag([2., -0.5, -1.5]),
    'shear': np.array([[1., 0.5, 0], [0, 1., -0.5], [0, 0, 1]]), 'rotated': np.array([[0., -1, 0.25], [1, 0, 0.5], [0, 0.25, 1]]),
    'dense': np.array([[1., 0.5, -0.25], [-0.5, 1., 0.75], [0.25, -1., 1.5]]),
    'negative': np.array([[-1., 0.25, 0.5], [0.5, 1., -0.25], [0.75, 0.5, 2.]]),
    'nearly flat': np.array([[1., 0.75, 0], [0.75, 1., 0.25], [0.5, 0.25, -0.5]]),
}


def field(ctx, cs, fn, layout, center='node'):
    import viscid
    nodes = []
    for c in cs:
        if center == 'cell':          # nodes with the wanted centers
            n = [c[0] - 0.5]
            for v in c:
                n.append(2 * v - n[-1])
            c = np.array(n)
        nodes.append(c)
    crds = viscid.wrap_crds('nonuniform_cartesian', [(a, c) for a, c in zip('xyz', nodes)])
    sh = tuple(len(c) for c in cs)
    dat = ctx.consts(np.zeros((3,) + sh))
    for i in np.ndindex(*sh):
        v = fn(*[cs[k][i[k]] for k in range(3)])
        for k in range(3):
            dat[(k,) + i] = v[k]
    if layout == 'interlaced':
        dat = dat.transpose(1, 2, 3, 0)
    return viscid.wrap_field(dat, crds, name='b', fldtype='vector', layout=layout, center=center)


def find(f, **kw):
    from viscid.cython import null_tools
    inds, pts = null_tools.find_nulls(f, **kw)
    inds, pts = raw(inds), raw(pts)
    return [tuple(int(inds[k, i]) for k in range(3)) for i in range(inds.shape[1])], pts


GRIDS = {'even': ([0., 1., 2.], [0., 1., 2.], [0., 1., 2.]), 'uneven': ([-1., 0., 2.], [-2., -1.5, 0., 1.], [0., 2., 3.]),
         'one': ([0., 1.], [0., 1.], [0., 1.]), 'long': ([0., 1., 2., 3.], [0., 1.], [0., 2.])}


LINES = {'p': ((0.3, 0.45, 0.6), (1, 0.75, 0.5)), 'q': ((0.8, 0.25, 0.7), (0.25, 1, -0.5)), 'r': ((0.35, 0.7, 0.2), (-0.125, 0.25, 1))}


def place(ctx, cs, where):
    """where the null is: anywhere (3 unknowns) or anywhere on a line"""
    lo = [float(c[0]) - 1 for c in cs]
    hi = [float(c[-1]) + 1 for c in cs]
    if where == 'any':
        return [ctx.real('x%d' % k, lo[k], hi[k]) for k in range(3)]
    if where == 'in':
        return [ctx.real('x%d' % k, float(cs[k][0]), float(cs[k][-1])) for k in range(3)]
    p, q = LINES[where]
    t = ctx.real('t', -1.0, 3.0)
    return [t * float(q[k]) + float(p[k] * (hi[k] - lo[k] - 2) + lo[k] + 1) for k in range(3)]


def linear(ctx, mat, grid, layout, center, ibound, where='any'):
    M = MATS[mat]
    cs = [np.array(c) for c in GRIDS[grid]]
    if center == 'cell':
        cs = [np.arange(len(c)) * 1.0 for c in cs]
    x0 = place(ctx, cs, where)
    for k in range(3):
        for c in cs[k]:
            ctx.assume(abs(x0[k] - float(c)) > 1e-6)
    f = field(ctx, cs, lambda *x: [sum(float(M[m, k]) * (float(x[k]) - x0[k]) for k in range(3)) for m in range(3)], layout, center)
    kw = {}
    if ibound:
        kw['ibound'] = 1.25
    got, pts = find(f, **kw)
    want = []
    cell = []
    for k in range(3):
        for i in range(len(cs[k]) - 1):
            if bool(x0[k] > float(cs[k][i])) and bool(x0[k] < float(cs[k][i + 1])):
                cell.append(i)
                break
    if len(cell) == 3:
        lc = [float(cs[k][cell[k]]) for k in range(3)]
        if not (ibound and sum(v * v for v in lc) < 1.25 ** 2):
            want = [tuple(cell)]
    ctx.check(got == want, 'exactly the cell that contains the null')
    for i, g in enumerate(got):
        for k in range(3):
            ctx.eq(pts[k, i], float(cs[k][g[k]]), 'position of the lower corner of the cell')


def border(ctx, mat, axis, layout, full):
    """null on a cell face"""
    M = MATS[mat]
    cs = [np.array(c) for c in GRIDS['even']]
    x0 = [ctx.real('x%d' % k, 0.001, 1.999) if full or k == (axis + 1) % 3 else 1.375 for k in range(3)]
    x0[axis] = 1.0
    for k in range(3):
        if k != axis:
            ctx.assume(abs(x0[k] - 1.0) > 1e-3)
    f = field(ctx, cs, lambda *x: [sum(float(M[m, k]) * (float(x[k]) - x0[k]) for k in range(3)) for m in range(3)], layout)
    got, pts = find(f)
    cells = [0 if k == axis else int(bool(x0[k] > 1.0)) for k in range(3)]
    other = list(cells)
    other[axis] = 1
    ok = (tuple(cells), tuple(other))
    ctx.check(all(g in ok for g in got), 'only cells that touch the null')
    ctx.check(len(got) >= 1, 'a null on a cell face is found')


def signs(ctx, m, sg, layout):
    """one component of one sign at every corner"""
    cs = [np.array([0., 1.])] * 3
    vals = {}

    def fn(x, y, z):
        v = [0.25 + c - 1.5 * (x + (c + 1) * y - z) for c in range(3)]
        v[m] = ctx.real('v%d_%d%d%d' % (m, x, y, z), -4, 4)
        v[m - 1] = ctx.real('v%d_%d%d%d' % ((m - 1) % 3, x, y, z), -4, 4) if x + y == 1 else v[m - 1]
        ctx.assume(v[m] * sg > 0)
        return v
    f = field(ctx, cs, fn, layout)
    got, pts = find(f)
    ctx.check(got == [], 'no null where a component has one sign')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        k.setdefault('norm', True)
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for n, mat in enumerate(sorted(MATS)):
        simple = mat in ('unit', 'permuted', 'diagonal')
        if simple:
            add('linear/%s/even' % mat, linear, mat, 'even', 'flat', 'node', False, weight=6)
            add('linear/%s/cell' % mat, linear, mat, 'long', 'flat', 'cell', False, weight=5)
            add('linear/%s/uneven' % mat, linear, mat, 'uneven', 'interlaced', 'node', False, weight=8)
            add('linear/%s/ibound' % mat, linear, mat, 'even', 'flat', 'node', True, weight=5)
        if T or mat in ('unit', 'diagonal'):
            add('linear/%s/one' % mat, linear, mat, 'one', 'interlaced', 'node', False, weight=2)
        for w in 'pqr':
            light = mat in ('shear', 'rotated') or (mat, w) == ('negative', 'q')
            if T or simple or light:
                add('line/%s/%s' % (mat, w), linear, mat, 'even', 'flat', 'node', False, w, weight=4)
            if T or (mat, w) in (('nearly flat', 'p'), ('dense', 'q'), ('rotated', 'r')):
                add('line/%s/%s/uneven' % (mat, w), linear, mat, 'uneven', 'interlaced', 'node', w == 'p', w, weight=30)
        if T or mat in ('rotated', 'negative'):
            add('line/%s/cell' % mat, linear, mat, 'long', 'interlaced', 'cell', False, 'p', weight=3)
        if T or mat != 'negative':
            add('inside/%s' % mat, linear, mat, 'one', 'interlaced', 'node', False, 'in', weight=30 if mat == 'dense' else 6)
        if mat in ('unit', 'permuted', 'diagonal', 'shear'):
            for a in range(3):
                add('border/%s/%s' % (mat, 'xyz'[a]), border, mat, a, 'flat', T, weight=4)
    for m in range(3):
        for sg in (1, -1):
            add('sign/%d/%+d' % (m, sg), signs, m, sg, 'flat' if sg > 0 else 'interlaced', weight=3)
    return out
