"""Topology values are a function of the two line ends; colors."""
import numpy as np
from sym.run import Case
from harness.common import raw, probe
from harness.P13 import vfield
from harness.P15 import limits, U

PROP = 'P16'
CYTHON = ['cyfield', 'cyamr', 'cycalc', 'integrate', 'streamline']
PROBES = {'streamline': '''
def _verif_topo(flags):
    cdef int c = flags
    return end_flags_to_topology_msphere(c), end_flags_to_topology_generic(c)
'''}
ENCODED = ['viscid/cython/streamline.pyx: end_flags_to_topology_msphere, end_flags_to_topology_generic, classify_endpoint, _py_streamline, '
           'calc_streamlines (translated from the Cython source)', 'viscid/calculator/topology.py: topology2color']
BOUNDS = ("every pair of reasons two ends can report; lines of up to two steps in each direction with symbolic seed, inner and outer radius, box face "
          "and length limit; every topology value in [-1, 9] as number, list, array and field")
ASSUME = ["lines traced in both directions (a line traced in one direction has one known end)"]
OUTSIDE = "parallel processes"

N, S = 3, 5
OB = [24, 40, 72, 136, 264, 520, 1032]
OTHER = [12288, 20480, 36864, 69632]


def expected(a, b):
    """documented class of a line with ends a, b; None: no class"""
    if a in OTHER or b in OTHER:
        return None
    ia, ib = a in (N, S), b in (N, S)
    if ia and ib:
        return 1
    if not ia and not ib:
        return 8
    e = a if ia else b
    return 2 if e == N else 4


def mapping(ctx):
    fn = probe('streamline', '_verif_topo')
    if fn is None:
        return
    ends = [N, S] + OB + OTHER
    a = ends[ctx.int('a', 0, len(ends) - 1)]
    b = ends[ctx.int('b', 0, len(ends) - 1)]
    ms, gen = fn(a | b)
    e = expected(a, b)
    ctx.check(int(gen) == a | b, 'generic value is the combination of both ends')
    if e is None:
        ctx.check(int(ms) not in (1, 2, 4, 8), 'no class for a line whose end did not reach a boundary')
        ctx.check(int(ms) & 4096 != 0, 'marked as ended for another reason')
    else:
        ctx.check(int(ms) == e, 'class of the line')
    ctx.check(int(fn(b | a)[0]) == int(ms), 'symmetric')


def traced(ctx, which, uk, inside):
    """both styles on the same lines, against the reasons of the single ends"""
    import viscid
    import sys
    sys.modules['viscid.cython.streamline']._global_fld = None
    v = U[uk]
    f = vfield(ctx, lambda *x: v, (2, 2, 2), -16., 16.)
    r = 0.25 if inside else 3
    x0 = ctx.reals('x', (3, 1), -r, r)
    x0[1 if uk != 'z' else 0, 0] = 0.125
    kw = limits(ctx, which)
    kw.setdefault('ibound', 1.5 if inside else 0.75)
    ctx.reach('run')
    h = 1.0

    def run(sd, style):
        return int(raw(viscid.calc_streamlines(f, x0, ds0=h, maxit=2, stream_dir=sd, topo_style=style, output=2, **kw)[1]).ravel()[0])
    fw, bw = run(1, 'generic'), run(2, 'generic')
    ctx.check(run(3, 'generic') == fw | bw, 'generic value is the combination of both ends')
    ms = run(3, 'msphere')
    known = [N, S] + OB + OTHER
    ctx.check(fw in known and bw in known, 'each end reports one reason')
    e = expected(fw, bw)
    if e is None:
        ctx.check(ms not in (1, 2, 4, 8), 'no class for a line whose end did not reach a boundary')
    else:
        ctx.check(ms == e, 'class of the line')


def constants(ctx):
    from viscid.cython import streamline as s
    ctx.check((s.TOPOLOGY_MS_CLOSED, s.TOPOLOGY_MS_OPEN_NORTH, s.TOPOLOGY_MS_OPEN_SOUTH, s.TOPOLOGY_MS_SW) == (1, 2, 4, 8), 'documented values')


COLORS = {1: (0.0, 0.8, 0.0), 2: (0.0, 0.0, 0.7), 4: (0.7, 0.0, 0.0), 8: (0.7, 0.7, 0.7)}


def colors(ctx, form, bad, n):
    import viscid
    from viscid.calculator import topology
    t = [ctx.int('t%d' % i, -1, 9 if n > 1 else 20) for i in range(n)]
    t = [int(x) for x in t]
    kw = dict(bad_color=(0.25, 0.5, 1.0)) if bad else {}
    want = [COLORS.get(x, (0.25, 0.5, 1.0) if bad else (0.0, 0.0, 0.0)) for x in t]
    style = {}
    if form == 'dict':
        style = dict(topo_style={1: (1.0, 0.5, 0.25), 9: (0.5, 0.5, 0.5)})
        want = [style['topo_style'].get(x, (0.25, 0.5, 1.0) if bad else (0.0, 0.0, 0.0)) for x in t]
    if form == 'number':
        got = [topology.topology2color(t[0], **kw)]
    elif form == 'list' or form == 'dict':
        got = topology.topology2color(t, **dict(kw, **style))
    elif form == 'array':
        got = topology.topology2color(np.array(t, dtype='i'), **kw)
    else:
        crds = viscid.wrap_crds('uniform_cartesian', [('x', [0., 1., n])])
        got = topology.topology2color(viscid.wrap_field(np.array(t, dtype='i'), crds, name='T'), **kw)
    ctx.check(len(got) == n, 'one color per value')
    for g, w in zip(got, want):
        ctx.check(len(g) == 3, 'rgb')
        for k in range(3):
            ctx.eq(float(g[k]), w[k], 'documented color')


def cases(tier):
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    add('mapping', mapping, weight=9)
    add('constants', constants)
    T = tier == 'thorough'
    for uk in ('a', 'x', 'z'):
        if T or uk == 'a':
            add('traced/inside/%s' % uk, traced, (), uk, True, weight=4)
        if T or uk == 'z':
            add('traced/ibound/%s' % uk, traced, ('ibound',), uk, False, weight=6)
        if T or uk == 'z':
            add('traced/ibound+r/%s' % uk, traced, ('r',), uk, False, weight=8)
        for w in ('xl', 'xh') if uk != 'z' else ('zl', 'zh'):
            if T or (w, uk) in (('zl', 'z'),):
                add('traced/face %s/%s' % (w, uk), traced, (w,), uk, False, weight=7)
        if T or uk == 'x':
            add('traced/length/%s' % uk, traced, ('length',), uk, False, weight=7)
    for form in ('number', 'list', 'array', 'field', 'dict'):
        for bad in (0, 1):
            add('colors/%s/%d' % (form, bad), colors, form, bad, 1 if form == 'number' else 2, weight=3)
    return out
