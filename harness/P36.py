"""Equations evaluated over the fields of a grid."""
import itertools
import numpy as np
from sym.run import Case
from harness.P32 import raw

PROP = 'P36'
ENCODED = ['viscid.calculator.evaluator: evaluate, _evaluate_numexpr, _evaluate_numpy', 'viscid.grid.Grid: get_field, __getitem__, add_field, __contains__',
           'viscid.field.Field: arithmetic, __array_wrap__, wrap, slice_and_keep, shell_copy', 'viscid.calculator.calc: dot, cross, magnitude']
BOUNDS = ("grids of 2 x 3 and 3 x 1 x 2 points, node and cell centered; every value of every field symbolic; equations of every tree of up to two binary "
          "operators over three fields and numbers (with signs, powers, brackets, spaces), sqrt / abs / where, number formats and field names that "
          "contain one another or look like functions; every equation with numexpr and with NumPy; index, location and reducing slices")
ASSUME = ["numexpr does to arrays what NumPy does (the compiled library is replaced by a stub; replays use the real one)"]
OUTSIDE = "untrusted equations; derivatives of sliced fields; equations that are a single vector field times a scalar in another centering"

NAMES = {'plain': ('a', 'b', 'c'), 'nested': ('v', 'vx', 'xvx'), 'like functions': ('sqrt', 'abs', 'e'), 'underscore': ('_b', 'b_1', 'B1')}


def grid(ctx, names, shape, center, cache=False, vec=()):
    import viscid
    from viscid.grid import Grid
    n = [k + (center == 'cell') for k in shape]
    crds = viscid.wrap_crds('nonuniform_cartesian', [('xyz'[d], np.arange(float(k)) * (d + 1)) for d, k in enumerate(n)])
    g = Grid(name='g')
    g.set_crds(crds)
    vals = {}
    for nm in names:
        v = ctx.reals('f' + nm, tuple(shape), -3, 3)
        vals[nm] = raw(v).copy()
        g.add_field(viscid.wrap_field(v, crds, name=nm, center=center))
    for nm, lay in vec:
        sh = (3,) + tuple(shape)
        v = ctx.reals('f' + nm, sh, -3, 3)
        vals[nm] = raw(v).copy()
        w = v if lay == 'flat' else np.moveaxis(v, 0, -1).copy()
        g.force_vector_layout = lay
        g.add_field(viscid.wrap_field(w, crds, name=nm, center=center, fldtype='vector', layout=lay))
    g.longterm_field_caches = cache
    return g, vals


# equations: (text with {0} {1} {2} for the fields, function of the values, what has to hold)
def pos(*i):
    return [('nonzero', k) for k in i]


def _trees():
    import operator as o
    ops = {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv}
    out = []
    for p, q in itertools.product('+-*/', repeat=2):
        out.append(('({0} %s {1}) %s {2}' % (p, q), lambda a, b, c, p=p, q=q: ops[q](ops[p](a, b), c), pos(*[k for k, s in ((1, p), (2, q)) if s == '/'])))
        out.append(('{0}%s({1}%s{2})' % (p, q), lambda a, b, c, p=p, q=q: ops[p](a, ops[q](b, c)), [('nonzero', 2)] * (q == '/') +
                    ([('expr', lambda a, b, c, q=q: ops[q](b, c))] if p == '/' else [])))
        # no brackets: precedence
        first = q in '+-' or p in '*/'
        out.append(('{0} %s {1}%s {2}' % (p, q), lambda a, b, c, p=p, q=q, first=first: ops[q](ops[p](a, b), c) if first else ops[p](a, ops[q](b, c)),
                    pos(*[k for k, s in ((1, p), (2, q)) if s == '/'])))
    return out


def sq(x):
    return x * x


def equations(ctx):
    from sym import engine
    root = engine.sym_sqrt if ctx.symbolic else lambda x: float(x) ** 0.5
    ab = lambda x: x if bool(x >= 0) else -x
    eq = _trees()
    eq += [('-{0}**2 + {1}', lambda a, b, c: -(a * a) + b, []), ('(-{0})**2*{1}', lambda a, b, c: a * a * b, []), ('{0}**2**1', lambda a, b, c: a * a, []),
           ('-{0}*-{1}', lambda a, b, c: a * b, []), ('{0}', lambda a, b, c: a, []), ('+{2}', lambda a, b, c: c, []), ('{0} - {0}*{0} + {1}', lambda a, b, c: a - a * a + b, [])]
    for t, v in (('2', 2), ('1e2', 100), ('1.5e-1', 0.15), ('.5', 0.5), ('2.', 2), ('1E+1', 10), ('1/2', 0.5), ('3/4.0', 0.75)):
        eq.append((t + '*{0} + {1}', lambda a, b, c, v=v: v * a + b, []))
        eq.append(('{0}-' + t, lambda a, b, c, v=v: a - v, []))
    fn = [('sqrt({0}**2 + {1}**2)', lambda a, b, c: root(a * a + b * b), []), ('sqrt ( {0}**2 )*{1}', lambda a, b, c: root(a * a) * b, []),
          ('abs({0} - {1})', lambda a, b, c: ab(a - b), []), ('abs({0})+sqrt(sqrt({1}**4))', lambda a, b, c: ab(a) + root(root(sq(sq(b)))), []),
          ('where({0} > {1}, {0}, {2})', lambda a, b, c: a if bool(a > b) else c, [])]
    return eq, fn


def run(ctx, g, text, numexpr):
    from viscid.calculator import evaluator
    import viscid
    evaluator.enabled = True
    try:
        return evaluator.evaluate(g, 'res', text, try_numexpr=numexpr)
    finally:
        evaluator.enabled = False


def same(ctx, r, want, shape, label):
    got = raw(r.data if hasattr(r, 'data') and not isinstance(r, np.ndarray) else r)
    if not ctx.check(got.shape == tuple(shape), label + ': shape') and got.shape != tuple(shape):
        return
    for i in np.ndindex(*shape):
        ctx.eq(got[i], want[i], label)


def untouched(ctx, g, vals, names):
    for nm in names:
        f = g.get_field(nm)
        ctx.check(f.name == nm, 'fields of the grid keep their names')
        got = raw(f.data)
        ctx.check(all(got[i] is vals[nm][i] or bool(got[i] == vals[nm][i]) for i in np.ndindex(*vals[nm].shape)), 'fields of the grid keep their values')


def scalar(ctx, kind, which, names, shape, center, numexpr, cache):
    eqs = equations(ctx)[which]
    k = ctx.choice('equation', range(len(eqs)))
    text, fn, need = eqs[k]
    nm = NAMES[names]
    g, vals = grid(ctx, nm, shape, center, cache)
    for i in np.ndindex(*shape):
        a, b, c = [vals[n][i] for n in nm]
        for kind_, x in need:
            v = (a, b, c)[x] if kind_ == 'nonzero' else x(a, b, c)
            ctx.assume((v > 0.1) | (v < -0.1) if ctx.symbolic else abs(v) > 0.1)
    r = run(ctx, g, text.format(*nm), numexpr)
    want = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        want[i] = fn(*[vals[n][i] for n in nm])
    same(ctx, r, want, shape, 'value of the equation')
    ctx.check(r.name == 'res', 'name of the result')
    ctx.check(r.center.lower() == center, 'centering of the result')
    for d in range(len(shape)):
        ctx.check(list(r.crds.get_crd('xyz'[d], center=center)) == list(g.get_field(nm[0]).crds.get_crd('xyz'[d], center=center)), 'coordinates of the result')
    untouched(ctx, g, vals, nm)


def vector(ctx, lay, center, numexpr):
    from sym import engine
    root = engine.sym_sqrt if ctx.symbolic else lambda x: float(x) ** 0.5
    k = ctx.choice('equation', range(9))
    shape = (3, 1, 2) if lay == 'interlaced' else (2, 1, 2)
    g, vals = grid(ctx, ('rho',), shape, center, False, (('u', lay), ('w', lay)))
    u, w, rho = vals['u'], vals['w'], vals['rho']
    cr = lambda p, q: np.array([p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]])
    text, want = [('rho*u', rho[None] * u), ('u*rho - w', u * rho[None] - w), ('u + w', u + w), ('dot(u, w)', sum(u[d] * w[d] for d in range(3))),
                  ('cross(u, w)', cr(u, w)), ('rho*dot(u, u)', rho * sum(u[d] * u[d] for d in range(3))), ('2*u', 2 * u),
                  ('dot(cross(u, w), u) + rho', rho), ('rho - u*w', rho[None] - u * w)][k]
    r = run(ctx, g, text, numexpr)
    ctx.check(r.name == 'res', 'name of the result')
    if want.ndim == len(shape):
        ctx.check(not r.nr_comps, 'a scalar field')
        same(ctx, r, want, shape, 'value of the equation')
        return
    ctx.check(r.nr_comps == 3, 'a vector field')
    if r.nr_comps != 3:
        return
    got = raw(r.as_flat().data)
    ctx.check(got.shape == want.shape, 'shape of the vectors')
    if got.shape == want.shape:
        for i in np.ndindex(*want.shape):
            ctx.eq(got[i], want[i], 'value of the equation')
    for d in range(3):
        c = raw(r['xyz'[d]].data)
        for i in np.ndindex(*shape):
            ctx.eq(c[i], want[d][i], 'component of the result')


SLC = {'index': ('x=1', 'x=1,y=0:2', 'y=::2', 'y=-2'), 'location': ('x=0.2j', 'y=1.5j:', 'x=:0.5j,y=2j'), 'object': (np.s_[1:], np.s_[0, ::-1], np.s_[..., 1])}


def sliced(ctx, kind, center):
    """slicing before the evaluation or after it"""
    from viscid.calculator import evaluator
    slc = SLC[kind][ctx.choice('slice', range(len(SLC[kind])))]
    text = ('res = a*b - c', 'res=sqrt(a**2 + b**2)*c', 'res =a')[ctx.choice('equation', range(3))]
    g, vals = grid(ctx, ('a', 'b', 'c'), (2, 3), center)
    evaluator.enabled = True
    try:
        whole = g[text]
        before = g.get_field(text, slc=slc)
    finally:
        evaluator.enabled = False
    after = whole.slice_and_keep(slc)
    if not hasattr(after, 'crds') or not hasattr(before, 'crds'):
        ctx.check(not hasattr(after, 'crds') and not hasattr(before, 'crds'), 'slice before or after: number')
        ctx.eq(before, after, 'slice before or after')
        return
    p, q = raw(before.data), raw(after.data)
    ctx.check(p.shape == q.shape, 'slice before or after: shape')
    if p.shape == q.shape:
        for i in np.ndindex(*p.shape):
            ctx.eq(p[i], q[i], 'slice before or after')
        for ax in after.crds.axes:
            ctx.check(np.array_equal(np.asarray(before.get_crd(ax), dtype=float), np.asarray(after.get_crd(ax), dtype=float)), 'slice before or after: coordinates')
    ctx.check(before.name == 'res' and whole.name == 'res', 'name of the result')
    untouched(ctx, g, vals, 'abc')


def lookup(ctx):
    """names, equations and coordinates"""
    from viscid.calculator import evaluator
    g, vals = grid(ctx, ('a', 'b', 'c'), (2, 3), 'node')
    for bad, err in (('d', KeyError), ('a=', None), ('nothing', KeyError)):
        if err is None:
            continue
        try:
            g[bad]
            ctx.fail('a missing field')
        except err:
            ctx.check(True, 'a missing field')
    evaluator.enabled = False
    try:
        g['r=a+b']
        ctx.fail('evaluating needs to be enabled')
    except RuntimeError:
        ctx.check(True, 'evaluating needs to be enabled')
    evaluator.enabled = True
    try:
        for ne in (True, False):
            try:
                evaluator.evaluate(g, 'r', 'a + d', try_numexpr=ne)
                ctx.fail('a missing field in an equation')
            except KeyError:
                ctx.check(True, 'a missing field in an equation')
        r = g['r=a+b']
        r2 = g['s=a-b']
    finally:
        evaluator.enabled = False
    same(ctx, r, vals['a'] + vals['b'], (2, 3), 'value by item')
    same(ctx, r2, vals['a'] - vals['b'], (2, 3), 'value by item')
    ctx.check('r' not in g and 'a' in g, 'results are not added')
    untouched(ctx, g, vals, 'abc')


def cases(tier):
    T = tier != 'quick'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for ne in (True, False):
        b = 'numexpr' if ne else 'numpy'
        for names in NAMES:
            for shape, center in (((1, 2), 'node'), ((2, 1, 1), 'cell')) if not T else (((2, 3), 'node'), ((3, 1, 2), 'cell')):
                if T or names != 'underscore' or center == 'node':
                    add('equation/%s/%s/%s' % (b, names, center), scalar, 'tree', 0, names, shape, center, ne, center == 'node', weight=5)
                add('function/%s/%s/%s' % (b, names, center), scalar, 'fn', 1, names, shape if T else shape[:2], center, ne, center == 'node')
        for lay in ('flat', 'interlaced'):
            for center in ('node', 'cell'):
                add('vector/%s/%s/%s' % (b, lay, center), vector, lay, center, ne, weight=3)
    for kind in SLC:
        for center in ('node', 'cell'):
            add('slice/%s/%s' % (kind, center), sliced, kind, center)
    add('lookup', lookup)
    return out
