"""Information lookup through the tree of parents."""
import itertools
from sym.run import Case

PROP = 'P28'
ENCODED = ['viscid.tree.Node: __init__, prepare_child, tear_down_child, _parent_bfs, has_info, get_info, get_all_info, set_info, find_info_owner, '
           'find_info, update_info, find_attr, basetime, time (getter and setter), time_as_datetime64, t2datetime64']
BOUNDS = ("every graph of 4 nodes drawn from 6 or 7 possible parent links (cycles, shared and repeated ancestors included), every placement of one key (and "
          "every symbolic value) on the nodes; chains of file, dataset, grid and field objects; values that are None, false or empty on every node of a chain; times as symbolic numbers and as a set of "
          "time deltas and dates")
ASSUME = []
OUTSIDE = "more than 4 nodes; which of several equally near ancestors wins"

EDGES = {'dag': [(0, 1), (0, 2), (1, 3), (2, 3), (1, 2), (0, 3)], 'cycles': [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 0), (0, 2)],
         'loops': [(0, 2), (0, 1), (2, 1), (1, 1), (2, 0), (1, 3), (3, 3)]}


def graph(ctx, kind):
    from viscid.tree import Node
    nodes = [Node(name='n%d' % i) for i in range(4)]
    par = {i: [] for i in range(4)}
    for a, b in EDGES[kind]:
        if bool(ctx.bool('e%d%d' % (a, b))):
            par[a].append(b)
            nodes[a].parents.append(nodes[b])
    return nodes, par


def distances(par):
    d, lvl, n = {0: 0}, [0], 0
    while lvl:
        n += 1
        nxt = []
        for a in lvl:
            for b in par[a]:
                if b not in d:
                    d[b] = n
                    nxt.append(b)
        lvl = nxt
    return d


def nearest(d, has):
    """nodes that have it at the smallest distance"""
    near = sorted((d[i], i) for i in range(4) if i in d and has[i])
    return [i for k, i in near if k == near[0][0]] if near else []


def lookup(ctx, kind, how):
    nodes, par = graph(ctx, kind)
    has = [bool(ctx.bool('has%d' % i)) for i in range(4)]
    vals = [ctx.int('v%d' % i, -5, 5) for i in range(4)]
    for i in range(4):
        if has[i]:
            if how == 'attr':
                nodes[i].thing = vals[i]
            else:
                nodes[i].set_info('key', vals[i])
    best = nearest(distances(par), has)
    n = nodes[0]
    if how == 'attr':
        try:
            got = n.find_attr('thing')
        except AttributeError:
            got = None
        missing = n.find_attr('thing', default='default')
    else:
        try:
            got = n.find_info('key')
        except KeyError:
            got = None
        missing = n.find_info('key', default='default')
        try:
            owner = n.find_info_owner('key')
        except KeyError:
            owner = None
        ctx.check(owner is None if not best else any(owner is nodes[b] for b in best), 'owner is the nearest ancestor')
        ctx.check(n.has_info('key') == has[0], 'has_info')
        ai = n.get_all_info()
        ctx.check(('key' in ai) == bool(best), 'get_all_info finds it')
        if best:
            ctx.check(_one(ai['key'], best, vals, nodes), 'get_all_info: nearest value')
        try:
            own = n.get_info('key')
        except KeyError:
            own = None
        ctx.check((own is None) == (not has[0]), 'own value')
        if has[0]:
            ctx.eq(own, vals[0], 'own value')
        ctx.check(n.find_info('nothing', default=7) == 7, 'default for a missing key')
    if best:
        ctx.check(_one(got, best, vals, nodes), 'value of the nearest ancestor')
        ctx.check(_one(missing, best, vals, nodes), 'value of the nearest ancestor with a default')
    else:
        ctx.check(got is None, 'a missing key is an error')
        ctx.check(missing == 'default', 'a missing key gives the default')


def _one(v, best, vals, nodes):
    ok = False
    for b in best:
        ok = ok or bool(v == vals[b])
    return ok


def setting(ctx, kind, how):
    """a value set on one node is seen by that node and its descendants only"""
    nodes, par = graph(ctx, kind)
    has = [bool(ctx.bool('has%d' % i)) for i in range(4)]
    for i in range(4):
        if has[i]:
            nodes[i].set_info('key', i)
    new = ctx.int('new', 10, 20)
    if how == 'set':
        k = ctx.choice('on', range(4))
        nodes[k].set_info('key', new)
        owner = [k]
    else:
        owner = nearest(distances(par), has) or [0]
        nodes[0].update_info('key', new)
    own = [i for i in range(4) if nodes[i].has_info('key') and bool(nodes[i].get_info('key') == new)]
    ctx.check(len(own) == 1 and own[0] in owner, 'only one node changes')
    for i in range(4):
        if i not in own:
            ctx.check(nodes[i].has_info('key') == has[i] and (not has[i] or nodes[i].get_info('key') == i), 'other nodes keep their value')
    # what everybody sees now
    h2 = list(has)
    h2[own[0]] = True
    for i in range(4):
        d = {i: 0}
        lvl, n = [i], 0
        while lvl:
            n += 1
            nxt = [b for a in lvl for b in par[a] if b not in d]
            for b in nxt:
                d[b] = n
            lvl = nxt
        best = nearest(d, h2)
        got = nodes[i].find_info('key', default=None)
        if not best:
            ctx.check(got is None, 'unrelated nodes do not see it')
        else:
            ctx.check(any(bool(got == (new if b == own[0] else b)) for b in best), 'every node sees its nearest value')


def noupdate(ctx, kind):
    nodes, par = graph(ctx, kind)
    has = [bool(ctx.bool('has%d' % i)) for i in range(4)]
    for i in range(4):
        if has[i]:
            nodes[i].set_info('key', i)
    best = nearest(distances(par), has)
    try:
        nodes[0].update_info('key', 9, fallback=False)
        ok = True
    except KeyError:
        ok = False
    ctx.check(ok == bool(best), 'updating without fallback needs an existing value')


def chain(ctx):
    """file > dataset > grid > field"""
    import numpy as np
    import viscid
    from viscid.grid import Grid
    from viscid.dataset import Dataset
    from viscid.tree import Node
    top = Node(name='file')
    d = Dataset(name='d')
    top.prepare_child(d)
    g, g2 = Grid(name='g'), Grid(name='g2')
    d.add(g)
    d.add(g2)
    crds = viscid.wrap_crds('nonuniform_cartesian', [('x', np.array([0., 1., 2.]))])
    f = viscid.wrap_field(np.arange(3.), crds, name='f')
    f2 = viscid.wrap_field(np.arange(3.), crds, name='f2')
    g.add_field(f)
    g2.add_field(f2)
    nodes = [f, g, d, top]
    has = [bool(ctx.bool('has%d' % i)) for i in range(4)]
    vals = [ctx.real('v%d' % i, -5, 5) for i in range(4)]
    for n, h, v in zip(nodes, has, vals):
        if h:
            n.set_info('key', v)
            n.time = v
    r = (f + 1)
    for obj, first in ((f, 0), (r, 0), (g, 1), (d, 2), (top, 3)):
        own = [i for i in range(first, 4) if has[i]]
        got = obj.find_info('key', default=None)
        ctx.check((got is None) == (not own), 'found along the chain')
        if own:
            ctx.eq(got, vals[own[0]], 'value along the chain')
        t = obj.time
        if first == 0:          # fields have a time of their own
            ctx.eq(t, vals[0] if has[0] else 0, 'time of a field')
            continue
        ctx.check((t is None) == (not own), 'time along the chain')
        if own:
            ctx.eq(t, vals[own[0]], 'time along the chain')
    own = [i for i in (2, 3) if has[i]]
    got = f2.find_info('key', default=None)
    ctx.check((got is None) == (not own), 'siblings do not see it')
    d.tear_down_child(g)
    got = f.find_info('key', default=None)
    own = [i for i in (0, 1) if has[i]]
    ctx.check((got is None) == (not own), 'detached from its dataset')


def odd(ctx):
    """values that are false, None or NotImplemented are values too"""
    from viscid.tree import Node
    import numpy as np
    vals = [None, False, 0, '', (), {}, NotImplemented, 'text', np.zeros(2)]
    a, b, c = Node(name='a'), Node(name='b'), Node(name='c')
    a.parents.append(b)
    b.parents.append(c)
    nodes = [a, b, c]
    own = {}
    for k, n in enumerate(nodes):
        i = ctx.choice('v%d' % k, range(-1, len(vals)))
        if i >= 0:
            own[k] = vals[i]
            n.set_info('key', vals[i])
    key = ctx.choice('then', ['find', 'update', 'set'])
    if key == 'update':
        a.update_info('key', 99)
        own[min(own) if own else 0] = 99
    elif key == 'set':
        b.set_info('key', None)
        own[1] = None
    for k, n in enumerate(nodes):
        up = [j for j in range(k, 3) if j in own]
        ctx.check(n.has_info('key') == (k in own), 'odd values: has_info')
        got = n.find_info('key', default='nothing')
        ctx.check(got is own[up[0]] if up else got == 'nothing', 'odd values: the nearest value')
        try:
            o = n.find_info_owner('key')
        except KeyError:
            o = None
        ctx.check(o is (nodes[up[0]] if up else None), 'odd values: the owner')
        if k in own:
            ctx.check(n.get_info('key') is own[k] and n.get_info('key', 5) is own[k], 'odd values: own value')
        else:
            ctx.check(n.get_info('key', 5) == 5, 'odd values: own default')
        ai = n.get_all_info()
        ctx.check(('key' in ai) == bool(up) and (not up or ai['key'] is own[up[0]]), 'odd values: get_all_info')


def oddattr(ctx):
    """attributes that are false or None are found, NotImplemented means that an object does not have it"""
    from viscid.tree import Node
    vals = [None, False, 0, '', NotImplemented, 'text']
    nodes = [Node(name='n%d' % k) for k in range(3)]
    nodes[0].parents.append(nodes[1])
    nodes[1].parents.append(nodes[2])
    own = {}
    for k, n in enumerate(nodes):
        i = ctx.choice('v%d' % k, range(-1, len(vals)))
        if i >= 0:
            n.thing = vals[i]
            if vals[i] is not NotImplemented:
                own[k] = vals[i]
    for k, n in enumerate(nodes):
        up = [j for j in range(k, 3) if j in own]
        got = n.find_attr('thing', default='nothing')
        ctx.check(got is own[up[0]] if up else got == 'nothing', 'odd attributes: the nearest')
        try:
            got = n.find_attr('thing')
            ctx.check(bool(up) and got is own[up[0]], 'odd attributes: the nearest without a default')
        except AttributeError:
            ctx.check(not up, 'odd attributes: missing')


def times(ctx):
    """time from numbers, time deltas and dates"""
    import datetime
    import numpy as np
    from viscid.tree import Node
    base = np.datetime64('2000-01-01T00:00:00')
    top = Node(name='top', info={'basetime': base})
    i = ctx.choice('value', range(7))
    t = ctx.real('t', -1000, 1000)
    v, want = [(t, t), (ctx.int('n', -9, 9), None), (np.timedelta64(3, 'm'), 180), (datetime.timedelta(seconds=5), 5), (np.datetime64('2000-01-01T01:00:00'), 3600),
               (datetime.datetime(2000, 1, 1, 0, 0, 7), 7), (np.datetime64('1999-12-31T23:59:59.500'), -0.5)][i]
    if want is None:
        want = v
    how = ctx.choice('how', ['set', 'create'])
    if how == 'set':
        n = Node(name='n', parents=top)
        n.time = v
    else:
        n = Node(name='n', time=v, parents=[top])
    ctx.eq(n.time, want, 'time in seconds since the base time')
    ctx.check(top.time is None, 'other nodes keep their time')
    if i > 1:
        ctx.check(n.time_as_datetime64() == base + np.timedelta64(int(want * 1000), 'ms'), 'date of the time')
        ctx.check(n.t2datetime64(np.timedelta64(2, 's')) == base + np.timedelta64(2, 's'), 'date of a time delta')


def cases(tier):
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for kind in EDGES:
        for how in ('info', 'attr'):
            add('lookup/%s/%s' % (kind, how), lookup, kind, how, weight=4)
        for how in ('set', 'update'):
            add('setting/%s/%s' % (kind, how), setting, kind, how, weight=20 if how == 'set' else 4)
        add('update only/' + kind, noupdate, kind)
    add('chain', chain)
    add('odd values', odd, weight=3)
    add('odd attributes', oddattr)
    add('times', times)
    return out
