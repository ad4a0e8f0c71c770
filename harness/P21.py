"""Gradient, divergence and curl are exact on linear fields."""
import numpy as np
from sym.run import Case
from harness.common import raw, rejects

PROP = 'P21'
ENCODED = ['viscid.calculator.calc: grad, div, curl (numpy backends _grad_np, _div_np, _curl_np), convective_deriv, extend_boundaries, '
           'extend_boundaries_ndarr, Operation dispatch', 'viscid.calculator.necalc: grad, div, curl (numexpr expressions evaluated exactly)',
           'viscid.field: slicing, component_views, wrap; viscid.coordinate: slice_keep, get_crds_cc/nc']
BOUNDS = ("grids of 3 to 5 nodes (4 to 6 for cells) per axis; linear cases: the spacing of one axis at a time is symbolic (every ascending "
          "coordinate array), the other axes concrete and uneven or uniform, all coefficients symbolic; identities: every value symbolic, "
          "symbolic spacing; node / cell centering, flat / interlaced vectors, both backends, with and without boundary extension")
ASSUME = ["coordinates strictly ascending; numexpr evaluates the written expression exactly"]
OUTSIDE = "face centered divergence (see P23); 1 or 2 dimensional fields (rejected by the code); rounding"


def axes_of(ctx, npts, symax, uniform):
    cl = []
    for k, (ax, n) in enumerate(zip('xyz', npts)):
        if uniform:
            lo = ctx.real(ax + 'lo', -4, 4) if k == symax else -1.0 + k
            dx = ctx.real(ax + 'dx', 0.25, 4) if k == symax else 0.5 + 0.25 * k
            cl.append((ax, [lo, lo + (n - 1) * dx, n]))
        elif k == symax:
            cl.append((ax, ctx.ascending(ax, n)))
        else:
            cl.append((ax, ctx.consts([0.5 * k + i + 0.25 * i * i for i in range(n)])))
    return cl


def crds_of(ctx, npts, symax, uniform):
    import viscid
    return viscid.wrap_crds('uniform_cartesian' if uniform else 'nonuniform_cartesian', axes_of(ctx, npts, symax, uniform))


def positions(crds, center):
    return [raw(a) for a in (crds.get_crds_cc() if center == 'cell' else crds.get_crds_nc())]


def linear(ctx, crds, center, co, name):
    import viscid
    X, Y, Z = positions(crds, center)
    sh = (len(X), len(Y), len(Z))
    d = np.empty(sh, dtype=object)
    for i, j, k in np.ndindex(*sh):
        d[i, j, k] = co[0] * X[i] + co[1] * Y[j] + co[2] * Z[k] + co[3]
    return d


def vecfld(ctx, comps, crds, center, layout):
    import viscid
    A = ctx.consts(np.array(comps, dtype=object)) if not ctx.symbolic else _sa(comps)
    if layout == 'interlaced':
        A = np.moveaxis(A, 0, -1)
    return viscid.wrap_field(A, crds, name='v', fldtype='vector', center=center, layout=layout)


def _sa(a):
    from sym.shim import SymArray
    return np.array(a, dtype=object).view(SymArray)


def conv(ctx, a):
    return _sa(a) if ctx.symbolic else np.array(a, dtype=float)


def located(ctx, r, crds, center, bnd, label):
    """result sits at the (interior) points of the input"""
    ctx.check(r.center.lower() == center, label + ': centering')
    P = positions(crds, center)
    Q = [raw(q) for q in r.get_crds()]
    for p, q in zip(P, Q):
        w = p if bnd else p[1:-1]
        if len(q) != len(w):
            ctx.fail('%s: %d points along an axis instead of %d' % (label, len(q), len(w)))
            return False
        for a, b in zip(q, w):
            ctx.eq(a, b, label + ': location')
    return True


def comps(ctx, r, label):
    c = [raw(v) for v in r.component_views()]
    if len(c) != 3:
        ctx.fail(label + ': 3 components')
    return c


def lin(ctx, op, npts, symax, uniform, center, layout, backend, bnd):
    import viscid
    crds = crds_of(ctx, npts, symax, uniform)
    if op == 'grad':
        co = [ctx.real('c%d' % i) for i in range(4)]
        f = viscid.wrap_field(conv(ctx, linear(ctx, crds, center, co, 'f')), crds, name='f', center=center)
        r = viscid.grad(f, bnd=bnd, preferred=backend, only=True)
        want = co[:3]
        got = comps(ctx, r, 'grad')
    else:
        C = [[ctx.real('c%d%d' % (i, j)) for j in range(4)] for i in range(3)]
        f = vecfld(ctx, [linear(ctx, crds, center, co, 'f') for co in C], crds, center, layout)
        r = getattr(viscid, op)(f, bnd=bnd, preferred=backend, only=True)
        if op == 'div':
            want = [C[0][0] + C[1][1] + C[2][2]]
            got = [raw(r)]
        else:
            want = [C[2][1] - C[1][2], C[0][2] - C[2][0], C[1][0] - C[0][1]]
            got = comps(ctx, r, 'curl')
    if not located(ctx, r, crds, center, bnd, op):
        return
    sh = tuple(len(raw(c)) for c in r.get_crds())
    for w, g in zip(want, got):
        ctx.check(g.shape == sh, op + ': shape')
        for e in g.ravel():
            ctx.eq(e, w, '%s of a linear field' % op)


def values(ctx, op, npts, symax, uniform, center, layout, backend):
    """for any values: every interior result is built from that point's own neighbours (central difference quotients)"""
    import viscid
    crds = crds_of(ctx, npts, symax, uniform)
    P = positions(crds, center)
    sh = tuple(len(p) for p in P)
    nv = 1 if op == 'grad' else 3
    V = [ctx.reals('v%d' % i, sh) for i in range(nv)]
    if op == 'grad':
        f = viscid.wrap_field(V[0], crds, name='f', center=center)
    else:
        f = vecfld(ctx, V, crds, center, layout)
    r = getattr(viscid, op)(f, bnd=False, preferred=backend, only=True)
    V = [raw(v) for v in V]

    def d(c, ax, i):
        hi, lo = list(i), list(i)
        hi[ax] += 1
        lo[ax] -= 1
        return (V[c][tuple(hi)] - V[c][tuple(lo)]) / (P[ax][i[ax] + 1] - P[ax][i[ax] - 1])
    got = [raw(r)] if op == 'div' else comps(ctx, r, op)
    for i in np.ndindex(*[s - 2 for s in sh]):
        p = tuple(a + 1 for a in i)
        if op == 'grad':
            want = [d(0, 0, p), d(0, 1, p), d(0, 2, p)]
        elif op == 'div':
            want = [d(0, 0, p) + d(1, 1, p) + d(2, 2, p)]
        else:
            want = [d(2, 1, p) - d(1, 2, p), d(0, 2, p) - d(2, 0, p), d(1, 0, p) - d(0, 1, p)]
        for g, w in zip(got, want):
            ctx.eq(g[i], w, op + ': value from the neighbouring points')


def ident(ctx, which, center, backend):
    """curl grad = 0 and div curl = 0 on uniform grids"""
    import viscid
    n = 5 if center == 'node' else 6
    h = [0.5, 1.0, 0.25]
    crds = viscid.wrap_crds('uniform_cartesian', [(ax, [-1.0, -1.0 + (n - 1) * h[k], n]) for k, ax in enumerate('xyz')])
    m = n if center == 'node' else n - 1
    if which == 'curlgrad':
        f = viscid.wrap_field(ctx.reals('v', (m, m, m)), crds, name='f', center=center)
        g = viscid.grad(f, bnd=False, preferred=backend, only=True)
        r = viscid.curl(g, bnd=False, preferred=backend, only=True)
        got = comps(ctx, r, 'curl grad')
    else:
        f = viscid.wrap_field(ctx.reals('v', (3, m, m, m)), crds, name='f', center=center, fldtype='vector')
        g = viscid.curl(f, bnd=False, preferred=backend, only=True)
        r = viscid.div(g, bnd=False, preferred=backend, only=True)
        got = [raw(r)]
    for g in got:
        for e in g.ravel():
            ctx.eq(e, 0.0, which + ' vanishes')


def conv_deriv(ctx, center, layout, own, scalar, bnd):
    """(a . grad) b of linear a, b"""
    import viscid
    crds = crds_of(ctx, (5, 6, 5) if center == 'cell' else (4, 5, 4), -1, False)
    A = [[ctx.real('a%d%d' % (i, j), -4, 4) for j in range(4)] for i in range(3)]
    # few symbolic coefficients per run keep the products linear
    a = vecfld(ctx, [linear(ctx, crds, center, [0, 0, 0, co[3]], 'a') for co in A], crds, center, layout)
    if scalar:
        co = [1.5, -2.0, 0.75, 3.0]
        b = viscid.wrap_field(conv(ctx, linear(ctx, crds, center, co, 'b')), crds, name='b', center=center)
        B = [co]
    else:
        B = [[1.5, -2.0, 0.75, 3.0], [0.25, 4.0, -1.0, 1.0], [-3.0, 0.5, 2.0, 0.0]]
        b = vecfld(ctx, [linear(ctx, crds, center, co, 'b') for co in B], crds, center, layout)
    if own:
        r = viscid.convective_deriv(b, bnd=bnd)
        X = positions(crds, center)
    else:
        r = viscid.convective_deriv(a, b, bnd=bnd)
    got = [raw(r)] if scalar else comps(ctx, r, 'convective derivative')
    if not located(ctx, r, crds, center, bnd, 'convective derivative'):
        return
    for j, (co, g) in enumerate(zip(B, got)):
        for i in np.ndindex(*g.shape):
            if own:
                p = [X[q][i[q] + (0 if bnd else 1)] for q in range(3)]
                av = [sum(B[q][s] * p[s] for s in range(3)) + B[q][3] for q in range(3)]
            else:
                av = [A[q][3] for q in range(3)]
            ctx.eq(g[i], sum(av[q] * co[q] for q in range(3)), '(a . grad) b of linear fields')


def cases(tier):
    th = tier != 'quick'
    out = []
    for op in ('grad', 'div', 'curl'):
        for center in ('node', 'cell'):
            for layout in (('flat', 'interlaced') if op != 'grad' else ('flat',)):
                for backend in ('numpy', 'numexpr'):
                    for uniform in (False, True):
                        for symax in (0, 1, 2):
                            for bnd in (False, True):
                                if not th and (backend == 'numexpr' and layout == 'interlaced' and uniform):
                                    continue
                                n = [3, 3, 3] if center == 'node' else [4, 4, 4]
                                n[(symax + 1) % 3] += 1
                                if th:
                                    n[symax] += 2
                                out.append(Case('lin_%s_%s_%s_%s_%s_%s_%s' % (op, center, layout, backend, uniform, 'xyz'[symax], bnd),
                                                lambda ctx, o=op, n=tuple(n), s=symax, u=uniform, c=center, l=layout, b=backend, d=bnd:
                                                lin(ctx, o, n, s, u, c, l, b, d), weight=3))
                    for symax in (0, 1, 2):
                        n = [4, 4, 4] if center == 'node' else [5, 5, 5]
                        n[symax] -= 1
                        out.append(Case('val_%s_%s_%s_%s_%s' % (op, center, layout, backend, 'xyz'[symax]),
                                        lambda ctx, o=op, n=tuple(n), s=symax, c=center, l=layout, b=backend:
                                        values(ctx, o, n, s, False, c, l, b), weight=2))
    for which in ('curlgrad', 'divcurl'):
        for center in ('node', 'cell'):
            for backend in ('numpy', 'numexpr'):
                out.append(Case('%s_%s_%s' % (which, center, backend), lambda ctx, w=which, c=center, b=backend: ident(ctx, w, c, b)))
    for center in ('node', 'cell'):
        for layout in ('flat', 'interlaced'):
            for bnd in (False, True):
                out.append(Case('conv_%s_%s_%s' % (center, layout, bnd),
                                lambda ctx, c=center, l=layout, b=bnd: conv_deriv(ctx, c, l, False, False, b)))
                out.append(Case('convown_%s_%s_%s' % (center, layout, bnd),
                                lambda ctx, c=center, l=layout, b=bnd: conv_deriv(ctx, c, l, True, False, b)))
                out.append(Case('convscalar_%s_%s_%s' % (center, layout, bnd),
                                lambda ctx, c=center, l=layout, b=bnd: conv_deriv(ctx, c, l, False, True, b)))
    return out
