"""Flattening of line collections for plotting."""
import itertools
import numpy as np
from sym.run import Case
from harness.common import raw

PROP = 'P37'
CYTHON = ['cyfield', 'cyamr', 'cycalc']
ENCODED = ['viscid.vutil: prepare_lines, _string_colors_as_hex, _hexchar2int',
           'viscid/cython/cycalc.pyx: interp_trilin (translated from the Cython source), when a field is interpolated onto the vertices']
BOUNDS = ("1 to 3 lines (4 in the thorough check) of 1 to 4 points each in every combination; vertices and scalars symbolic; one number, one per line, one "
          "per vertex, one array per line, rows carried by the lines, fields with one value per line / vertex / interpolated; single, per-line and "
          "per-vertex rgb(a) tuples, arrays (both orientations) and hex strings of 3, 4, 6 and 8 digits and color names")
ASSUME = ["the shape of the scalars fits one documented meaning only (numbers of lines and vertices are not both able to explain it, and not 3 or 4 for "
          "colors, except that square arrays hold one color per row)"]
OUTSIDE = "lines with complex coordinates; plotting itself"


def mk(ctx, lens, rows=3, lo=-4, hi=4):
    return [ctx.reals('l%d' % i, (rows, n), lo, hi) for i, n in enumerate(lens)]


def base(ctx, lines, got, conn):
    """vertices in order, connections join consecutive vertices of a line"""
    V = raw(got[0])
    want = np.concatenate([raw(l)[:3] for l in lines], axis=1)
    ctx.check(V.shape == want.shape, 'shape of the vertices')
    for i in np.ndindex(*want.shape):
        ctx.eq(V[i], want[i], 'vertices in order')
    if not conn:
        ctx.check(got[2] is None, 'no connections')
        return
    pairs, i0 = [], 0
    for l in lines:
        n = l.shape[1]
        pairs += [(i0 + k, i0 + k + 1) for k in range(n - 1)]
        i0 += n
    c = np.asarray(got[2])
    ctx.check(c.shape == (len(pairs), 2) and c.dtype.kind in 'iu' and sorted(map(tuple, c.tolist())) == pairs, 'connections')


def eqrow(ctx, got, want, label):
    g = raw(got)
    ctx.check(g.shape == (len(want),), label + ': shape')
    for a, b in zip(g, want):
        ctx.eq(a, b, label)


def run(ctx, lens, kind):
    from viscid.vutil import prepare_lines
    N, L = sum(lens), len(lens)
    of = [i for i, n in enumerate(lens) for _ in range(n)]
    rows = 4 if kind == 'row' else 3
    lines = mk(ctx, lens, rows)
    keep = [np.array(raw(l)) for l in lines]
    if kind == 'none':
        got = prepare_lines(lines, do_connections=True)
        base(ctx, lines, got, True)
        ctx.check(got[1] is None, 'no scalars')
        got = prepare_lines(lines)
        base(ctx, lines, got, False)
        return
    want = None
    if kind == 'one':
        s = ctx.choice('s', [2.5, -3, 0])
        want = [s] * N
    elif kind == 'onelist':
        v = ctx.reals('s', (1,), -4, 4)
        s = [raw(v)[0]]
        want = [raw(v)[0]] * N
    elif kind in ('line', 'linelist', 'linetuple', 'linecol', 'linefld'):
        v = ctx.reals('s', (L,), -4, 4)
        want = [raw(v)[i] for i in of]
        s = conv(ctx, v, kind[4:])
    elif kind in ('vert', 'vertlist', 'verttuple', 'vertcol', 'vertfld'):
        v = ctx.reals('s', (N,), -4, 4)
        want = list(raw(v))
        s = conv(ctx, v, kind[4:])
    elif kind == 'perline':
        s = [ctx.reals('s%d' % i, (n,), -4, 4) for i, n in enumerate(lens)]
        want = [x for a in s for x in raw(a)]
    elif kind == 'row':
        s = None
        want = [x for l in lines for x in raw(l)[3]]
    before = list(s) if isinstance(s, list) else None
    got = prepare_lines(lines, scalars=s, do_connections=True)
    base(ctx, lines, got, True)
    eqrow(ctx, got[1], want, 'scalars on their vertices')
    if before is not None:
        ctx.check(len(before) == len(s) and all(a is b for a, b in zip(before, s)), 'list of scalars unchanged')
    for l, k in zip(lines, keep):
        for i in np.ndindex(*k.shape):
            ctx.eq(raw(l)[i], k[i], 'lines unchanged')


def conv(ctx, v, how):
    import viscid
    if how == 'list':
        return [x for x in raw(v)]
    if how == 'tuple':
        return tuple(raw(v))
    if how == 'col':
        return v.reshape(-1, 1)
    if how == 'fld':
        crds = viscid.wrap_crds('nonuniform_cartesian', [('x', np.arange(len(v)) * 1.0)])
        return viscid.wrap_field(v, crds, name='s')
    return v


def colors(ctx, lens, kind, nc, span):
    """rgb(a) colors as numbers in 0..1 or 0..255"""
    from viscid.vutil import prepare_lines
    N, L = sum(lens), len(lens)
    of = [i for i, n in enumerate(lens) for _ in range(n)]
    n = {'one': 1, 'line': L, 'vert': N}[kind.split('.')[0]]
    how = (kind.split('.') + [''])[1]
    full = 255 if span == 255 else 1
    C = ctx.reals('c', (n, nc), 0, full)
    if span == 255:
        ctx.assume(raw(C).ravel()[0] >= 1.5)
    rows = 3
    if how == 'tuple':
        s = tuple(raw(C)[0])
    elif how == 'list':
        s = [tuple(r) for r in raw(C)]
    elif how == 'arrays':
        s = [C[i] for i in range(n)]
    elif how == 'T':
        s = C.T
    elif how == 'lines':
        rows, s = 3 + nc, None
    elif kind == 'one':
        s = C[0]
    else:
        s = C
    lines = mk(ctx, lens)
    if how == 'lines':
        o = 0
        for i, m in enumerate(lens):
            a = ctx.consts(np.zeros((rows, m)))
            for k in range(m):
                for c in range(3):
                    a[c, k] = raw(lines[i])[c, k]
                for c in range(nc):
                    a[3 + c, k] = raw(C)[o + k, c]
            lines[i] = a
            o += m
    got = prepare_lines(lines, scalars=s, do_connections=True)
    base(ctx, lines, got, True)
    g = raw(got[1])
    if not ctx_shape(ctx, g, (nc, N)):
        return
    w = {'one': [0] * N, 'line': of, 'vert': list(range(N))}[kind.split('.')[0]]
    for k in range(N):
        for c in range(nc):
            v = raw(C)[w[k], c] * (255 if span == 1 else 1)
            ctx.check((abs(g[c, k] - v) <= 0.5 + (0 if ctx.symbolic else 1e-9)), 'color on its vertex')


def ctx_shape(ctx, g, shape):
    ctx.check(g.shape == shape, 'shape of the colors: %s' % (g.shape,))
    return g.shape == shape


PAL = ['#FD7400', '#004358', '#1F8A70', '#BEDB39']
PAL8 = ['#FD740080', '#00435840', '#1F8A7010', '#BEDB39fe']
PAL3 = ['#f70', '#048', '#1a7', '#bd3']
NAMES = ['red', 'k', 'white', 'c']
PAL4 = ['#f70c', '#0482', '#1a71', '#bd3e']


def rgb(s, want):
    import matplotlib.colors as mc
    t = [int(round(255 * v)) for v in mc.to_rgba(s)]
    return t if want == 4 else t[:3]


def strings(ctx, kind, which):
    from viscid.vutil import prepare_lines
    L = ctx.choice('nlines', [1, 2, 3, 4])
    lens = [ctx.choice('n%d' % i, [1, 2, 3] if i < 2 else [2]) for i in range(L)]
    lines = mk(ctx, lens)
    of = [i for i, n in enumerate(lens) for _ in range(n)]
    pal = {'6': PAL, '8': PAL8, '3': PAL3, '4': PAL4, 'name': NAMES, 'mixed': [PAL[0], PAL8[1], NAMES[2], PAL3[3]]}[which]
    if kind == 'one':
        k = ctx.choice('which', range(4))
        s = pal[k]
        cols = [s] * len(of)
        if ctx.choice('aslist', [False, True]):
            s = [s]
    else:
        s = [pal[i] for i in range(L)]
        cols = [s[i] for i in of]
    keep = list(s) if isinstance(s, list) else None
    got = prepare_lines(lines, scalars=s, do_connections=True)
    base(ctx, lines, got, True)
    g = np.asarray(got[1])
    ctx.check(g.ndim == 2 and g.shape[0] in (3, 4) and g.shape[1] == len(of), 'shape of the colors')
    for k, c in enumerate(cols):
        w = rgb(c, g.shape[0])
        ctx.check(g[:, k].tolist() == w, 'hex color on its vertex')
    if any(len(c) in (5, 9) for c in cols):
        ctx.check(g.shape[0] == 4, 'opacity is kept')
    if keep is not None:
        ctx.check(keep == s, 'list unchanged')


def interped(ctx, lens):
    """a scalar field is interpolated onto each vertex"""
    import viscid
    from viscid.vutil import prepare_lines
    A = [[0., 1., 3.], [0., 2., 3.], [-1., 1., 2.]]
    crds = viscid.wrap_crds('nonuniform_cartesian', [(a, ctx.consts(c)) for a, c in zip('xyz', A)])
    k = ctx.reals('k', (4,), -2, 2)
    d = ctx.consts(np.zeros((3, 3, 3)))
    for i in np.ndindex(3, 3, 3):
        d[i] = raw(k)[0] + raw(k)[1] * A[0][i[0]] + raw(k)[2] * A[1][i[1]] + raw(k)[3] * A[2][i[2]]
    f = viscid.wrap_field(d, crds, name='s')
    lines = []
    for i, n in enumerate(lens):
        P = ctx.consts(np.zeros((3, n)))
        for j in range(n):
            q = [(i + j) % 3, (2 * i + j) % 3, (i + 2 * j) % 3]
            for c in range(3):
                P[c, j] = 0.75 * A[c][q[c]] + 0.25 * A[c][1]
        lines.append(P)
    got = prepare_lines(lines, scalars=f, do_connections=True)
    base(ctx, lines, got, True)
    V = raw(got[0])
    eqrow(ctx, got[1], [raw(k)[0] + raw(k)[1] * V[0, i] + raw(k)[2] * V[1, i] + raw(k)[3] * V[2, i] for i in range(V.shape[1])], 'interpolated onto the vertices')


def extra(ctx, lens, shape):
    """arrays in other are broadcast like the scalars"""
    from viscid.vutil import prepare_lines
    N, L = sum(lens), len(lens)
    of = [i for i, n in enumerate(lens) for _ in range(n)]
    lines = mk(ctx, lens)
    sh = {'row': (1, L), 'col': (L, 1), 'vert': (N,), 'verts': (2, N), 'vrow': (1, N)}[shape]
    A = ctx.reals('o', sh, -4, 4)
    flat = raw(A).reshape(-1)
    got = prepare_lines(lines, other={'a': A, 'b': None}, do_connections=True)[3]
    ctx.check(got['b'] is None, 'None stays')
    g = raw(got['a'])
    if shape in ('row', 'col'):
        want = np.array([[flat[i] for i in of]], dtype=object)
    else:
        want = flat.reshape(-1, N)
    ctx.check(g.shape == want.shape, 'other: shape')
    for i in np.ndindex(*want.shape):
        ctx.eq(g[i], want[i], 'other arrays on their vertices')


KINDS = ['none', 'one', 'onelist', 'line', 'linelist', 'linetuple', 'linecol', 'linefld', 'vert', 'vertlist', 'verttuple', 'vertcol', 'vertfld', 'perline', 'row']


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))

    def lens_of(ctx, nmax):
        L = ctx.choice('nlines', range(1, nmax + 1))
        return [ctx.choice('n%d' % i, [1, 2, 3, 4]) for i in range(L)]

    def anyl(nm, kind):
        def fn(ctx):
            l = lens_of(ctx, 4 if T else 3)
            N, L = sum(l), len(l)
            if kind.startswith('perline') and (len(set(l)) == 1 and L > 1 or L == 1 and l[0] == 1):
                ctx.assume(False)
            run(ctx, l, kind)
        out.append(Case(nm, fn, weight=2))
    for k in KINDS:
        anyl('any/' + k, k)
    CL = [(5,), (2, 5), (2, 1, 2, 1, 5), (1, 1, 1, 1, 1), (6, 1)]
    for l in CL[:5 if T else 3]:
        nm = ','.join(map(str, l))
        for nc in (3, 4):
            for kind in ('one', 'one.tuple', 'line', 'line.list', 'line.arrays', 'line.T', 'vert', 'vert.list', 'vert.T', 'vert.lines'):
                if len(l) == 1 and kind == 'line.T':
                    continue
                if nc == 4 and not T and kind not in ('one.tuple', 'line.list', 'vert', 'vert.lines'):
                    continue
                add('color/%s/%s/%d' % (nm, kind, nc), colors, l, kind, nc, 1)
        if len(l) < 3:
            add('color/%s/%s/255' % (nm, 'line'), colors, l, 'line', 3, 255)
    for l in ((3,), (2, 1), (1, 1, 1), (1, 3)):
        nm = ','.join(map(str, l))
        for nc in (3, 4):
            add('square/%s/vert.lines/%d' % (nm, nc), colors, l, 'vert.lines', nc, 1)
        if sum(l) == 3:
            add('square/%s/vert/3' % nm, colors, l, 'vert', 3, 1)
    add('square/2,1,2/line/3', colors, (2, 1, 2), 'line', 3, 1)
    add('square/2,1,2,3/line/4', colors, (2, 1, 2, 3), 'line', 4, 1)
    for w in ('6', '8', '3', '4', 'name', 'mixed'):
        add('string/one/' + w, strings, 'one', w)
        add('string/line/' + w, strings, 'line', w)
    for l in ((3,), (2, 3), (1, 4, 2)):
        add('interp/%s' % ','.join(map(str, l)), interped, l)
        for sh in ('row', 'col', 'vert', 'verts', 'vrow'):
            add('other/%s/%s' % (sh, ','.join(map(str, l))), extra, l, sh)
    return out
