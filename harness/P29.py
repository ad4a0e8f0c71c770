"""Temporal data sets: order of the steps and selection by time."""
import numpy as np
from sym.run import Case

PROP = 'P29'
ENCODED = ['viscid.dataset.DatasetTemporal: add, add_deferred, _slice_time, _time_slice_to_iterator, nr_times, iter_times, get_times, get_time, '
           'get_child, get_grid, get_field, activate, activate_time, tslc_range, __contains__, iter_resolved_children, remove_all_items',
           'viscid.dataset.Dataset: delegation of get_times / iter_times / nr_times to its temporal child', 'viscid.tree.Node.time',
           'viscid.sliceutil: standardize_sel, std_sel2index, selection2values']
BOUNDS = ("1 to 4 (5 in the thorough check) grids with any distinct times added in any order (times symbolic, so every order is covered); any single "
          "query time, any time interval with either end missing and strides 1, 2, -1, every index and index slice in range; time deltas in "
          "several units")
ASSUME = ["times differ by at least 1/8, interval ends are not within a ten thousandth of a spacing of a step unless equal to it"]
OUTSIDE = "selection by calendar date (see P28 for the conversion); times in files"


def series(ctx, n, deferred=False, equal=False):
    from viscid.dataset import DatasetTemporal
    from viscid.grid import Grid
    ts = [ctx.real('t%d' % i, -20, 20) for i in range(n)]
    if not equal:
        for i in range(n):
            for j in range(i):
                ctx.assume(abs(ts[i] - ts[j]) >= 0.125)
    d = DatasetTemporal(name='series')
    grids = []
    for i in range(n):
        g = Grid(name='g%d' % i)
        g.time = ts[i]
        grids.append(g)
        if deferred:
            d.add_deferred(ts[i], _give, callback_args=(g,))
        else:
            d.add(g)
    order = sorted(range(n), key=_key(ts))
    return d, [grids[i] for i in order], [ts[i] for i in order]


def _give(g):
    return g


def _key(ts):
    import functools
    return functools.cmp_to_key(lambda i, j: -1 if bool(ts[i] < ts[j]) else (1 if bool(ts[i] > ts[j]) else 0))


def ident(ctx, got, want, label):
    ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), label)


def order(ctx, n, deferred, equal):
    d, gs, ts = series(ctx, n, deferred, equal)
    if deferred:
        ident(ctx, list(d.iter_times()), gs, 'every step once in time order')
    else:
        ident(ctx, d.get_times(), gs, 'every step once in time order')
        ident(ctx, list(d.iter_times()), gs, 'every step once in time order')
    ident(ctx, list(d), gs, 'iteration in time order')
    ctx.check(d.nr_times() == n and len(d.children) == n, 'number of steps')
    for g in gs:
        ctx.check(any(p is d for p in g.parents), 'steps belong to the series')


def single(ctx, n, how, deferred=False):
    d, gs, ts = series(ctx, n, deferred)
    v = ctx.real('v', -30, 30)
    if how == 'child':
        got = d.get_child(1j * v)
    elif how == 'grid':
        got = d.get_grid(time=1j * v)
    elif how == 'time':
        got = d.get_time(1j * v)
    elif how == 'activate':
        d.activate_time(1j * v)
        got = d.active_child
    elif how == 'times':
        l = d.get_times(1j * v)
        ctx.check(len(l) == 1 and d.nr_times(1j * v) == 1, 'one step')
        got = l[0]
    else:
        import viscid
        crds = viscid.wrap_crds('nonuniform_cartesian', [('x', np.array([0., 1., 2.]))])
        for i, g in enumerate(gs):
            g.add_field(viscid.wrap_field(np.arange(3.) + i, crds, name='f'))
        f = d.get_field('f', time=1j * v)
        got = gs[int(f.data[0])]
    k = [g is got for g in gs].index(True)
    for t in ts:
        ctx.check(abs(ts[k] - v) <= abs(t - v) + (0 if ctx.symbolic else 1e-9), 'nearest step')


def interval(ctx, n, ends, step, how):
    d, gs, ts = series(ctx, n)
    a = b = None
    gap = 20
    for i in range(n - 1):
        gap = ts[i + 1] - ts[i] if i == 0 or bool(ts[i + 1] - ts[i] < gap) else gap
    if 'a' in ends:
        a = ctx.real('a', -30, 30)
    if 'b' in ends:
        b = ctx.real('b', -30, 30)
    for e in (a, b):
        if e is not None:
            for t in ts:
                ctx.assume((abs(e - t) > 0.0002 * gap if n > 1 else abs(e - t) > 1.01) | (e == t))
    if how == 'str':
        sel = '%s:%s' % ('' if a is None else a, '' if b is None else b)
    else:
        sel = slice(None if a is None else 1j * a, None if b is None else 1j * b, step)
    st = step or 1
    seq = list(range(n)) if st > 0 else list(range(n - 1, -1, -1))
    if st > 0:
        ok = [i for i in seq if (a is None or bool(ts[i] >= a)) and (b is None or bool(ts[i] <= b))]
    else:
        ok = [i for i in seq if (a is None or bool(ts[i] <= a)) and (b is None or bool(ts[i] >= b))]
    want = [gs[i] for i in ok[::abs(st)]]
    if how == 'iter':
        got = list(d.iter_times(sel))
    else:
        got = d.get_times(sel)
    ident(ctx, got, want, 'exactly the steps in the interval')
    ctx.check(d.nr_times(sel) == len(want), 'number of steps in the interval')


def index(ctx, n, how):
    d, gs, ts = series(ctx, n)
    if how == 'int':
        k = ctx.choice('k', range(-n, n))
        ctx.check(d.get_child(k) is gs[k], 'step at a position')
        ident(ctx, d.get_times(k), [gs[k]], 'step at a position')
        ctx.check(d.get_grid(time=k) is gs[k], 'step at a position')
        if k >= 0:
            ctx.check(k in d, 'positions are contained')
        d.activate(k)
        ctx.check(d.active_child is gs[k] and d.get_grid() is gs[k], 'activated step')
    else:
        a = ctx.choice('a', [None] + list(range(-n, n + 1)))
        b = ctx.choice('b', [None] + list(range(-n, n + 1)))
        s = ctx.choice('s', [None, 2, -1])
        ident(ctx, d.get_times(slice(a, b, s)), gs[a:b:s], 'steps at positions')
        ident(ctx, [t for t in d.iter_times(slice(a, b, s))], gs[a:b:s], 'steps at positions')


def tdelta(ctx, n, unit):
    """selecting by a time delta, times in the given unit"""
    d, gs, ts = series(ctx, n)
    i = ctx.choice('delta', range(3))
    td, sec = [(np.timedelta64(90, 'm'), 5400), (np.timedelta64(2, 'h'), 7200), (np.timedelta64(36, 's'), 36)][i]
    v = sec / {'s': 1.0, 'm': 60.0, 'h': 3600.0}[unit]
    got = d.get_times(td, tdunit=unit)
    ctx.check(len(got) == 1, 'one step')
    k = [g is got[0] for g in gs].index(True)
    for t in ts:
        ctx.check(abs(ts[k] - v) <= abs(t - v) + 1e-9, 'nearest step')
    for t in ts:
        ctx.assume(abs(t - v) > 0.01)
    ident(ctx, d.get_times(slice(td, None), tdunit=unit), [g for g, t in zip(gs, ts) if bool(t > v)], 'steps after a time delta')
    ident(ctx, d.get_times(slice(None, td), tdunit=unit), [g for g, t in zip(gs, ts) if bool(t < v)], 'steps before a time delta')


def nested(ctx, n):
    """a data set that holds a time series, and contained times"""
    from viscid.dataset import Dataset
    d, gs, ts = series(ctx, n)
    top = Dataset(name='top')
    top.add(d)
    v = ctx.real('v', -30, 30)
    ident(ctx, top.get_times(), gs, 'through the parent')
    ctx.check(top.nr_times() == n, 'through the parent')
    got = top.get_times(1j * v)
    k = [g is got[0] for g in gs].index(True)
    for t in ts:
        ctx.check(abs(ts[k] - v) <= abs(t - v) + (0 if ctx.symbolic else 1e-9), 'nearest step through the parent')
    top.activate_time(1j * v)
    ctx.check(d.active_child is gs[k] or len(set([bool(abs(t - v) == abs(ts[k] - v)) for t in ts])) == 2, 'activated through the parent')
    d.remove_all_items()
    ctx.check(len(d.children) == 0, 'emptied')
    ctx.check(all(not any(p is d for p in g.parents) for g in gs), 'emptied')


def rng(ctx, n):
    """tslc_range: the values of the ends of a selection"""
    d, gs, ts = series(ctx, n)
    a = ctx.real('a', -30, 30)
    b = ctx.real('b', -30, 30)
    lo, hi = d.tslc_range(slice(1j * a, 1j * b))
    ctx.eq(lo, a, 'start of the range')
    ctx.eq(hi, b, 'end of the range')
    lo, hi = d.tslc_range(slice(None))
    ctx.eq(lo, ts[0], 'first time')
    ctx.eq(hi, ts[-1], 'last time')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for n in (1, 2, 3, 4) + ((5,) if T else ()):
        add('order/%d' % n, order, n, False, False)
        if n in (2, 3):
            add('order/deferred/%d' % n, order, n, True, False)
            add('order/equal/%d' % n, order, n, False, True)
        for how in ('child', 'grid', 'time', 'times', 'activate', 'field'):
            if n < 4 or T or how == 'child':
                add('nearest/%s/%d' % (how, n), single, n, how, weight=n)
        add('index/int/%d' % n, index, n, 'int')
        if n < 4 or T:
            add('index/slice/%d' % n, index, n, 'slice')
        for ends in ('a', 'b', 'ab', ''):
            for step in (None, 2, -1):
                if n < 4 or T or (step is None and ends != 'ab'):
                    add('interval/%s/%s/%d' % (ends or 'all', step, n), interval, n, ends, step, 'iter' if n == 2 else 'get', weight=n)
    add('nearest/deferred/3', single, 3, 'grid', True)
    for u in 'smh':
        add('time delta/' + u, tdelta, 2, u)
    add('nested/3', nested, 3)
    add('range/3', rng, 3)
    return out
