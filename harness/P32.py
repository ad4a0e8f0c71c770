"""Rotation matrices, quaternions, axis and angle, Euler angles."""
import itertools
import numpy as np
from sym.run import Case
from harness.common import raw

PROP = 'P32'
ENCODED = ['viscid.rotation: e_rot, e_dcm, angle2rot, eul2rot, angle2dcm, eul2dcm, rot2angle, rot2eul, dcm2angle, dcm2eul, rot2quat, dcm2quat, quat2rot, '
           'quat2dcm, rotmul, rotate, quatmul, quat_rotate, wxyz2rot, axang2rot, rot2wxyz, rot2axang, wxyz2quat, axang2quat, quat2wxyz, quat2axang, '
           'angle_between, a2b_rot, convert_angle']
BOUNDS = ("every angle in (-180, 180) degrees (half angles in (-360, 360)), through the tangent of its half up to 16, plus multiples of 90 degrees; every "
          "rotation matrix and quaternion (also not normalized), through its Cayley parameters up to 4, and rotations by exactly 180 degrees; every axis and "
          "vector with components up to 4; all 12 axis orders; single values and stacks of 2; radians and degrees")
ASSUME = ["sine and cosine of an angle are related by their algebraic identities only", "numpy.linalg.eigh of a v v' + b 1 gives the eigenvalues in "
          "ascending order and plus or minus v (any vectors for the multiple eigenvalue)",
          "Euler angles are extracted at least 0.01 away from the singular angle or exactly at it; quaternion norms within 1e-5 of one are exactly one; "
          "the axis is extracted for 16 axes (all octants, near and on the coordinate axes) and any angle; the axis of a rotation by a multiple of 180 degrees +- 0.01 is extracted at exactly that multiple"]
OUTSIDE = "rounding; the optional quaternion library; sympy helpers; 4x4 matrices"

ORDERS = ('zyx', 'yxz', 'xzy', 'xyz', 'yzx', 'zxy', 'zyz', 'zxz', 'yzy', 'yxy', 'xzx', 'xyx')
AX = 'xyz'


# ---- independent formulas on lists
def mm(A, B):
    return [[sum_(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def mv(A, v):
    return [sum_(A[i][k] * v[k] for k in range(3)) for i in range(3)]


def sum_(g):
    t = None
    for x in g:
        t = x if t is None else t + x
    return t


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def dot(a, b):
    return sum_(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def elem(ax, s, c):
    """right handed rotation of vectors around an axis"""
    i = AX.index(ax)
    j, k = (i + 1) % 3, (i + 2) % 3
    M = [[1.0 if a == b else 0.0 for b in range(3)] for a in range(3)]
    M[j][j], M[k][k], M[j][k], M[k][j] = c, c, -s, s
    return M


def rodr(k, s, c, kk=None):
    """rotation of vectors around axis k (length sqrt(kk)) as columns; s already divided by the length"""
    kk = dot(k, k) if kk is None else kk
    out = [[0] * 3 for _ in range(3)]
    for j in range(3):
        e = [1.0 if i == j else 0.0 for i in range(3)]
        kx = cross(k, e)
        for i in range(3):
            out[i][j] = e[i] * c + kx[i] * s + k[i] * k[j] * (1 - c) / kk
    return out


def qmat(q):
    w, x, y, z = q
    n = w * w + x * x + y * y + z * z
    return [[(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n],
            [2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n],
            [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n]]


def sqr(ctx, x):
    from sym.engine import sym_sqrt
    return sym_sqrt(x) if ctx.symbolic else float(np.sqrt(x))


def arr(ctx, a):
    a = np.array(a, dtype=object)
    if not ctx.symbolic:
        return a.astype('f8')
    from sym import shim
    for i in np.ndindex(*a.shape):
        a[i] = shim.exact(a[i])
    return shim.symarr(a)


def sc(ctx, a, unit='rad', mult=1):
    """sine and cosine of an angle"""
    if ctx.symbolic:
        from sym import shim
        f = shim.SNP.deg2rad if unit == 'deg' else (lambda x: x)
        b = f(a) * mult
        return shim.SNP.sin(b), shim.SNP.cos(b)
    b = np.deg2rad(a) if unit == 'deg' else a
    return np.sin(b * mult), np.cos(b * mult)


def eqm(ctx, got, want, label):
    g = raw(got)
    w = np.array(want, dtype=object)
    ctx.check(g.shape == w.shape, label + ': shape %s' % (g.shape,))
    for i in np.ndindex(*w.shape):
        ctx.eq(g[i], w[i], label)


def ang(ctx, name, unit='rad', special=True, half=False):
    """an angle, or an exact multiple of 90 degrees"""
    if special:
        k = ctx.choice(name + '.kind', ['any', 0, 90, 180, -90])
        if k != 'any':
            return float(k) if unit == 'deg' else (exact_pi(ctx, k))
    return ctx.angle(name, unit, half=half)


def exact_pi(ctx, deg):
    return np.deg2rad(float(deg))


def cayley(ctx, name='p', lim=4):
    """(w, x, y, z), any rotation"""
    p = list(raw(ctx.reals(name, (3,), -lim, lim)))
    if ctx.choice(name + '.half turn', [False, True]):
        ctx.assume(dot(p, p) >= 0.25)
        return [0.0] + p
    return [1.0] + p


def defmat(ctx, M):
    return [[ctx.define('r%d%d' % (i, j), M[i][j], -1, 1) for j in range(3)] for i in range(3)]


# ---- cases
def elementary(ctx, ax, unit):
    from viscid import rotation as r
    a = ang(ctx, 'a', unit)
    s, c = sc(ctx, a, unit)
    M = elem(ax, s, c)
    for axis in (ax, AX.index(ax), ax.upper()):
        eqm(ctx, r.e_rot(a, axis, unit=unit), M, 'elementary rotation')
    eqm(ctx, r.e_dcm(a, ax, unit=unit), tr(M), 'elementary direction cosines')
    b = ang(ctx, 'b', unit, special=False)
    s2, c2 = sc(ctx, b, unit)
    st = arr(ctx, [a, b])
    eqm(ctx, r.e_rot(st, ax, unit=unit), [M, elem(ax, s2, c2)], 'stack of elementary rotations')
    G = raw(r.e_rot(a, ax, unit=unit)).tolist()
    eqm(ctx, np.array(mm(G, tr(G)), dtype=object), np.eye(3), 'orthonormal')
    try:
        r.e_rot(a, 'q')
    except ValueError:
        pass
    else:
        ctx.fail('unknown axis is rejected')


def euler(ctx, order, unit, stack):
    """angles to matrices, from the product of the elementary rotations in the documented order"""
    from viscid import rotation as r
    angs, mats = [], []
    for k in range(2 if stack else 1):
        a = [ctx.angle('a%d%d' % (k, i), unit) for i in range(3)]
        angs.append(a)
        mats.append([elem(ax, *sc(ctx, x, unit)) for ax, x in zip(order, a)])
    A = arr(ctx, angs if stack else angs[0])
    # angle*: the first axis is applied first; eul*: the last axis is applied first
    first = [mm(m[2], mm(m[1], m[0])) for m in mats]
    last = [mm(m[0], mm(m[1], m[2])) for m in mats]
    t = [[tr(x) for x in m] for m in mats]
    dfirst = [mm(m[2], mm(m[1], m[0])) for m in t]
    dlast = [mm(m[0], mm(m[1], m[2])) for m in t]
    for fn, want in (('angle2rot', first), ('eul2rot', last), ('angle2dcm', dfirst), ('eul2dcm', dlast)):
        got = getattr(r, fn)(A, order, unit=unit)
        eqm(ctx, got, want if stack else want[0], fn)
    for fn, al in (('angle2rot', ('angles2rot', 'angle2rotm', 'angles2rotm')), ('eul2rot', ('eul2rotm',))):
        for x in al:
            ctx.check(getattr(r, x) is getattr(r, fn), 'alias ' + x)


def extract(ctx, order, unit, which):
    """matrices to angles and back"""
    from viscid import rotation as r
    to, fro = which
    # every rotation has such angles
    tb = order[0] != order[2]
    if not ctx.choice('singular', [False, True]):
        free = ctx.choice('any angle', [0, 1, 2])
        m = []
        for i, ax in enumerate(order):
            if i == free:
                s, c = sc(ctx, ctx.angle('a%d' % i, lim=8))
                if i == 1:
                    ctx.assume((c * c if tb else s * s) >= 0.0001)
            else:
                s, c = ctx.choice('a%d' % i, [(3, 4), (4, -3)] if i == 1 else [(3, 4), (-4, -3), (0, 5)])
                s, c = (frac(s, 5), frac(c, 5)) if ctx.symbolic else (s / 5.0, c / 5.0)
            if ctx.symbolic:
                ctx.hints += [s, c]
            m.append(elem(ax, s, c))
    else:
        a = [ctx.angle('a0', lim=8), None, ctx.angle('a2', lim=8)]
        a[1] = exact_pi(ctx, ctx.choice('a1', [90, -90] if tb else [0, 180]))
        (s0, c0), (s2, c2) = sc(ctx, a[0]), sc(ctx, a[2])
        if ctx.symbolic:
            ctx.hints += [ctx.define('h%d' % i, x, -1, 1) for i, x in enumerate((s0 * c2 + c0 * s2, s0 * c2 - c0 * s2, c0 * c2 + s0 * s2, c0 * c2 - s0 * s2))]
        m = [elem(ax, *sc(ctx, x)) for ax, x in zip(order, a)]
    if 'dcm' in to:
        m = [tr(x) for x in m]
    M = mm(m[2], mm(m[1], m[0])) if 'angle' in to else mm(m[0], mm(m[1], m[2]))
    R = arr(ctx, M)
    stack = unit == 'deg'
    if stack:
        R = R.reshape(1, 3, 3)
    A = getattr(r, to)(R, order, unit=unit, bad_matrix='ignore')
    ctx.check(raw(A).shape == ((1, 3) if stack else (3,)), 'shape of the angles')
    back = getattr(r, fro)(A, order, unit=unit)
    eqm(ctx, back, [M] if stack else M, '%s inverts %s' % (fro, to))


def quat(ctx, n, unit_norm):
    """quaternion to matrix, products, rotating vectors"""
    from viscid import rotation as r
    if unit_norm:
        p = list(raw(ctx.reals('p', (3,), -4, 4)))
        d = 1 + dot(p, p)
        q = [(2 - d) / d] + [2 * x / d for x in p]      # stereographic
    else:
        q = list(raw(ctx.reals('q', (4,), -4, 4)))
        nn = dot(q, q)
        ctx.assume(nn >= 0.01)
        nrm = sqr(ctx, nn)
        ctx.assume(abs(nrm - 1) > 0.001)
    Q = arr(ctx, q)
    keep = list(raw(Q))
    M = qmat(q)
    R = r.quat2rot(Q)
    eqm(ctx, R, M, 'quaternion to matrix')
    eqm(ctx, r.quat2dcm(Q), tr(M), 'quaternion to direction cosines')
    for a, b in zip(raw(Q), keep):
        ctx.eq(a, b, 'quaternion unchanged')
    G = raw(R).tolist()
    eqm(ctx, np.array(mm(G, tr(G)), dtype=object), np.eye(3), 'orthonormal')
    ctx.eq(dot(G[0], cross(G[1], G[2])), 1.0, 'determinant one')
    if n == 1:
        return
    v = list(raw(ctx.reals('v', (3,), -4, 4)))
    eqm(ctx, r.quat_rotate(arr(ctx, v), Q), mv(M, v), 'rotating a vector')
    w = list(raw(ctx.reals('w', (3,), -4, 4)))
    eqm(ctx, r.quat_rotate(arr(ctx, [v, w]), Q), [mv(M, v), mv(M, w)], 'rotating vectors')
    eqm(ctx, r.rotate(arr(ctx, v), arr(ctx, M)), mv(M, v), 'rotating by a matrix')
    eqm(ctx, r.rotate(arr(ctx, [v, w]), arr(ctx, M)), [mv(M, v), mv(M, w)], 'rotating by a matrix')


def hamilton(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


def products(ctx, kind):
    from viscid import rotation as r
    if kind == 'quat':
        q = [list(raw(ctx.reals('q%d' % i, (4,), -4, 4))) for i in range(3)]
        A = [arr(ctx, x) for x in q]
        eqm(ctx, r.quatmul(A[0], A[1]), hamilton(q[0], q[1]), 'product of two')
        eqm(ctx, r.quatmul(A[0], A[1], A[2]), hamilton(hamilton(q[0], q[1]), q[2]), 'product of three')
        eqm(ctx, r.quatmul(A[0]), q[0], 'product of one')
        S = arr(ctx, [q[0], q[1]])
        eqm(ctx, r.quatmul(S, A[2]), [hamilton(q[0], q[2]), hamilton(q[1], q[2])], 'stack times one')
        eqm(ctx, r.quatmul(A[2], S), [hamilton(q[2], q[0]), hamilton(q[2], q[1])], 'one times stack')
        eqm(ctx, r.quatmul(S, arr(ctx, [q[2], q[0]])), [hamilton(q[0], q[2]), hamilton(q[1], q[0])], 'stack times stack')
        P = qmat(hamilton(q[0], q[1]))
        ctx.assume(dot(q[0], q[0]) >= 0.01)
        ctx.assume(dot(q[1], q[1]) >= 0.01)
        eqm(ctx, np.array(mm(qmat(q[0]), qmat(q[1])), dtype=object), P, 'products agree')
    elif kind == 'vec':
        q = [list(raw(ctx.reals('q%d' % i, (4,), -4, 4))) for i in range(2)]
        for x in q:
            ctx.assume(dot(x, x) >= 0.01)
        A = [arr(ctx, x) for x in q]
        v = list(raw(ctx.reals('v', (3,), -4, 4)))
        M = [qmat(x) for x in q]
        eqm(ctx, r.quat_rotate(arr(ctx, v), A[0], A[1]), mv(M[0], mv(M[1], v)), 'rotating by a product: last first')
        eqm(ctx, r.quat_rotate(arr(ctx, v), arr(ctx, q)), [mv(M[0], v), mv(M[1], v)], 'rotating by a stack')
        eqm(ctx, r.quat_rotate(arr(ctx, [v, v]), arr(ctx, q)), [mv(M[0], v), mv(M[1], v)], 'rotating by a stack')
    else:
        m = [raw(ctx.reals('m%d' % i, (3, 3), -2, 2)).tolist() for i in range(3)]
        A = [arr(ctx, x) for x in m]
        v = list(raw(ctx.reals('v', (3,), -4, 4)))
        eqm(ctx, r.rotmul(A[0], A[1]), mm(m[0], m[1]), 'product of two')
        eqm(ctx, r.rotmul(A[0], A[1], A[2]), mm(mm(m[0], m[1]), m[2]), 'product of three')
        S = arr(ctx, [m[0], m[1]])
        eqm(ctx, r.rotmul(S, A[2]), [mm(m[0], m[2]), mm(m[1], m[2])], 'stack times one')
        eqm(ctx, r.rotmul(A[2], S), [mm(m[2], m[0]), mm(m[2], m[1])], 'one times stack')
        eqm(ctx, r.rotate(arr(ctx, v), A[0], A[1]), mv(m[0], mv(m[1], v)), 'rotating: last first')
        eqm(ctx, r.rotate(arr(ctx, v), S), [mv(m[0], v), mv(m[1], v)], 'rotating by a stack')
        eqm(ctx, r.rotate(arr(ctx, [v, v]), S), [mv(m[0], v), mv(m[1], v)], 'rotating by a stack')


def axis_angle(ctx, fn, unit, stack):
    """axis and angle to matrix and to quaternion"""
    from viscid import rotation as r
    toq = 'quat' in fn
    ks, angs, want = [], [], []
    for i in range(2 if stack in ('both', 'vectors') else 1):
        k = list(raw(ctx.reals('k%d' % i, (3,), -4, 4)))
        ctx.assume(dot(k, k) >= 0.25)
        ks.append(k)
    for i in range(2 if stack in ('both', 'angles') else 1):
        angs.append(ang(ctx, 'a%d' % i, unit, special=not stack, half=toq))
    n = max(len(ks), len(angs))
    for i in range(n):
        k, a = ks[min(i, len(ks) - 1)], angs[min(i, len(angs) - 1)]
        L = sqr(ctx, dot(k, k))
        if toq:
            s, c = sc(ctx, a, unit, 0.5)
            want.append([c] + [s * x / L for x in k])
        else:
            s, c = sc(ctx, a, unit)
            want.append(rodr(k, s / L, c))
    K = arr(ctx, ks if stack in ('both', 'vectors') else ks[0])
    A = arr(ctx, angs) if stack in ('both', 'angles') else angs[0]
    if fn.startswith('axang'):
        full = [list(k) + [a] for k, a in zip(ks, angs)]
        got = getattr(r, fn)(arr(ctx, full if stack else full[0]), unit=unit)
    else:
        got = getattr(r, fn)(A, K, unit=unit)
    eqm(ctx, got, want if stack else want[0], fn)


def quat2ax(ctx, fn, unit, stack):
    """quaternion to axis and angle, and back"""
    from viscid import rotation as r
    qs = []
    for i in range(2 if stack else 1):
        q = list(raw(ctx.reals('q%d' % i, (4,), -2, 2)))
        ctx.assume(q[1] * q[1] + q[2] * q[2] + q[3] * q[3] >= 0.01)
        qs.append(q)
    Q = arr(ctx, qs if stack else qs[0])
    if fn == 'quat2wxyz':
        w, k = r.quat2wxyz(Q, unit=unit)
        back = r.wxyz2quat(w, k, unit=unit)
        w, k = raw(w), raw(k)
    else:
        x = r.quat2axang(Q, unit=unit)
        back = r.axang2quat(x, unit=unit)
        w, k = raw(x)[..., 3], raw(x)[..., :3]
    B = raw(back)
    ctx.check(B.shape == ((2, 4) if stack else (4,)), 'shape')
    for i, q in enumerate(qs):
        b, kk = (B[i], k[i]) if stack else (B, k)
        L = sqr(ctx, dot(q, q))
        for j in range(4):
            ctx.eq(b[j], q[j] / L, 'same rotation')
        ctx.eq(dot(kk, kk), 1.0, 'unit axis')
    if not stack:
        z = r.quat2wxyz(arr(ctx, [2.0, 0.0, 0.0, 0.0]))
        ctx.eq(raw(z[0])[()], 0.0, 'no rotation')


AXES = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (-1, 0, 0), (3, 0, -4), (0, 4, 3), (-4, 3, 0), (2, -2, 1),
        (2, 3, 6), (-6, 2, 3), (1, -4, 8), (9999, 200, 0), (-9999, 0, 200), (-1, 2, 2), (-3, -6, -2), (7, 4, -4),
        (12, 16, 15), (-12, 16, -15)]


def fixed(ctx, i):
    k = AXES[i]
    n = int(round(float(np.sqrt(dot(k, k)))))
    return [frac(x, n) if ctx.symbolic else x / float(n) for x in k]


def circle(ctx, name, tilt):
    """unit vectors on a circle"""
    u = ctx.real(name, -2, 2)
    v = [0.0, 0.5, -2.0][tilt]
    d = 1 + u * u + v * v
    return [2 * u / d, 2 * v / d, (2 - d) / d]


def rot2ax(ctx, fn, unit, kind, quick):
    """matrix to axis and angle, and back"""
    from viscid import rotation as r
    k = fixed(ctx, ctx.choice('axis', range(4 * kind, 4 * kind + 4)))
    t = ctx.choice('turn', ['any', 'half', 'none'])
    if t == 'any':
        a = ctx.angle('a', lim=8)
        s, c = sc(ctx, a)
        ctx.assume(s * s >= 0.0001)
        M = rodr(k, s, c, 1.0)
        if ctx.symbolic:
            ctx.hints += [c, s, 4 * s * s]
    elif t == 'half':
        s, c = 0.0, -1.0
        M = rodr(k, 0.0, c, 1.0)
    else:
        s, c = 0.0, 1.0
        M = [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)]
    if ctx.symbolic:
        # symmetric part: c 1 + (1 - c) k k'
        ctx.eig_hints.append((k, 1 - c if t != 'none' else 0.0, c))
        ctx.hints += [symr(x) for x in k] + [symr(1.0), symr(-1.0), symr(0.0)]
    R = arr(ctx, M if unit == 'rad' else [M])
    if t == 'none' and not quick:
        return
    if fn == 'rot2wxyz':
        w, u = r.rot2wxyz(R, unit=unit, quick=quick, bad_matrix='ignore')
        back = r.wxyz2rot(w, u, unit=unit)
    else:
        x = r.rot2axang(R, unit=unit, quick=quick, bad_matrix='ignore')
        back = r.axang2rot(x, unit=unit)
    eqm(ctx, back, M if unit == 'rad' else [M], 'same rotation')


def rot2q(ctx, fn, stack):
    """matrix to quaternion"""
    from viscid import rotation as r
    qs, Ms = [], []
    for i in range(2 if stack else 1):
        q = cayley(ctx, 'p%d' % i)
        if ctx.symbolic:
            L = sqr(ctx, dot(q, q))
            # the matrix of Bar-Itzhack: 4/3 v v' - 1/3
            v = [-q[1] / L, -q[2] / L, -q[3] / L, q[0] / L]
            ctx.eig_hints.append((v, frac(4, 3), frac(-1, 3)))
        M = qmat(q)
        qs.append(q)
        Ms.append(M if fn == 'rot2quat' else tr(M))
    R = arr(ctx, Ms if stack else Ms[0])
    got = getattr(r, fn)(R)
    G = raw(got)
    ctx.check(G.shape == ((2, 4) if stack else (4,)), 'shape')
    for i, q in enumerate(qs):
        g = G[i] if stack else G
        ctx.eq(dot(list(g), list(g)), 1.0, 'unit quaternion')
        eqm(ctx, np.array(qmat(list(g)), dtype=object), qmat(q), 'same rotation')


def frac(a, b):
    from sym.engine import SymReal, rv
    from fractions import Fraction
    return SymReal(rv(Fraction(a, b)))


def symr(x):
    from sym import shim
    return shim.exact(x)


def between(ctx, unit, stack):
    from viscid import rotation as r
    l = ctx.real('l', 0.25, 4)
    e = circle(ctx, 'u', ctx.choice('tilt', [0, 1]))
    f = fixed(ctx, ctx.choice('b', [0, 1, 2, 4, 5, 7, 10]))
    a, b = [l * x for x in e], [2 * x for x in f]
    x = dot(e, f)
    if ctx.choice('swap', [False, True]):
        a, b = b, a
    ctx.assume(x * x <= 0.99)
    if ctx.symbolic:
        ctx.hints += [x]
    if stack:
        got = r.angle_between(arr(ctx, [a, b]), arr(ctx, b), unit=unit)
        ctx.check(raw(got).shape == (2,), 'shape')
        got = raw(got)[0]
    else:
        got = r.angle_between(arr(ctx, a), arr(ctx, b), unit=unit)
    s, c = sc(ctx, got, unit)
    ctx.eq(c, x, 'cosine of the angle')
    ctx.check(got >= 0, 'angle between 0 and 180 degrees')
    ctx.check(got <= (180.0 if unit == 'deg' else 3.1416), 'angle between 0 and 180 degrees')


def a2b(ctx, kind, roll):
    from viscid import rotation as r
    la, lb = ctx.real('la', 0.25, 4), ctx.real('lb', 0.25, 4)
    if kind in ('z', 'zpar'):
        e = [0.0, 0.0, 1.0]
    elif kind == 'xpar':
        e = [ctx.choice('e', [1.0, -1.0]), 0.0, 0.0]
    else:
        e = fixed(ctx, ctx.choice('e', [1, 4, 5, 7, 10, 13]))
    if kind == 'z' and roll:
        f = fixed(ctx, ctx.choice('f', [0, 1, 4, 5, 16, 17]))
        x = dot(e, f)
        if ctx.symbolic:
            ctx.hints += [symr(x), symr(1 - x * x), symr(1.0), symr(0.0), symr(-1.0)] + [symr(v) for v in f]
    elif kind in ('any', 'z'):
        f = circle(ctx, 'f', ctx.choice('tilt', [0, 1, 2] if kind == 'z' else [0, 1]))
        x = dot(e, f)
        ctx.assume(x * x <= 0.99)
        if ctx.symbolic:
            ctx.hints += [ctx.define('x', x, -0.995, 0.995), ctx.define('q', 1 - x * x, 0.01, 1)] + f + [symr(v) for v in e]
    else:
        g = ctx.choice('f', [1.0, -1.0])
        f = [g * x for x in e]
        if ctx.symbolic:
            ctx.hints += [symr(v) for v in e + f]
    a, b = [la * x for x in e], [lb * x for x in f]
    A, B = arr(ctx, a), arr(ctx, b)
    kw = {}
    if roll == 'deg' or roll == 'rad':
        al = ctx.angle('roll', roll)
        kw = dict(roll=al, unit=roll)
        if ctx.symbolic:
            ctx.assume(abs(al) > 0.01)
    elif roll == 'new_x':
        # new x: any direction in the plane perpendicular to b, plus any multiple of b
        e2 = cross([0.0, 0.0, 1.0], f) if kind == 'z' else [0.0, 1.0, 0.0]
        n2 = sqr(ctx, dot(e2, e2))
        e2 = [v / n2 for v in e2]
        e1 = cross(e2, f)
        be = ctx.choice('turn', [0, 90, 180, -90, 36, -143] if kind == 'z' else ['any', 0, 90, 180, -90])
        if be == 'any':
            sn, cs = sc(ctx, ctx.angle('beta', lim=4))
        else:
            sn, cs = {0: (0.0, 1.0), 90: (1.0, 0.0), 180: (0.0, -1.0), -90: (-1.0, 0.0), 36: (0.6, 0.8), -143: (-0.6, -0.8)}[be]
            if ctx.symbolic and abs(sn) + abs(cs) > 1:
                sn, cs = frac(int(round(sn * 5)), 5), frac(int(round(cs * 5)), 5)
        al = ctx.real('al', -2, 2)
        nx = [cs * p + sn * q + al * v for p, q, v in zip(e1, e2, f)]
        if ctx.symbolic:
            ctx.hints += [symr(sn), symr(cs)]
        kw = dict(new_x=arr(ctx, nx))
    R = r.a2b_rot(A, B, **kw)
    G = raw(R).tolist()
    ctx.check(np.shape(raw(R)) == (3, 3), 'shape')
    for x, y in zip(mv(G, e), f):
        ctx.eq(x, y, 'takes a to the direction of b')
    if roll != 'new_x':
        eqm(ctx, np.array(mm(G, tr(G)), dtype=object), np.eye(3), 'orthonormal')
    if roll in ('deg', 'rad'):
        R0 = raw(r.a2b_rot(A, B)).tolist()
        s, c = sc(ctx, al, roll)
        want = mm(rodr(f, s, c, 1.0), R0)
        eqm(ctx, R, want, 'roll around b')
    if roll == 'new_x':
        X = [G[i][0] for i in range(3)]
        for x, p, q in zip(X, e1, e2):
            ctx.eq(x, cs * p + sn * q, 'x axis along the projection of new x')


def units(ctx):
    from viscid import rotation as r
    a = ctx.real('a', -10, 10)
    import math
    for f in ('rad', 'deg', 'Degrees', 'radians'):
        for t in ('rad', 'deg'):
            got = r.convert_angle(a, f, t)
            d1, d2 = f.lower()[:3], t
            fac = 1.0 if d1 == d2 else (180.0 / math.pi if t == 'deg' else math.pi / 180.0)
            ctx.check(abs(got - a * fac) <= 1e-9, 'converted')
    try:
        r.convert_angle(a, 'rad', 'grad')
    except ValueError:
        pass
    else:
        ctx.fail('unknown unit is rejected')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, *a, **k):
        k.setdefault('reduce', True)
        out.append(Case(nm, lambda ctx: fn(ctx, *a), **k))
    for ax in AX:
        for u in ('rad', 'deg'):
            add('elementary/%s/%s' % (ax, u), elementary, ax, u)
    for i, o in enumerate(ORDERS):
        add('euler/%s/rad' % o, euler, o, 'rad', False)
        if i % 5 == 0 or T:
            add('euler/%s/deg/stack' % o, euler, o, 'deg', True)
        for w in (('rot2angle', 'angle2rot'), ('rot2eul', 'eul2rot'), ('dcm2angle', 'angle2dcm'), ('dcm2eul', 'eul2dcm')):
            if w[0] == 'rot2eul' or i % 4 == 0 or T:
                add('extract/%s/%s' % (w[0], o), extract, o, 'deg' if i % 2 else 'rad', w, weight=2)
    add('quat/unit', quat, 2, True)
    add('quat/any', quat, 2, False)
    for k in ('quat', 'vec', 'mat'):
        add('products/' + k, products, k)
    for fn in ('wxyz2rot', 'axang2rot', 'wxyz2quat', 'axang2quat'):
        for u in ('rad', 'deg'):
            add('%s/%s' % (fn, u), axis_angle, fn, u, '')
        add('%s/stack' % fn, axis_angle, fn, 'rad', 'both')
    for fn in ('wxyz2rot', 'wxyz2quat'):
        for s in ('vectors', 'angles'):
            add('%s/stack/%s' % (fn, s), axis_angle, fn, 'rad', s)
    for fn in ('quat2wxyz', 'quat2axang'):
        add('%s/rad' % fn, quat2ax, fn, 'rad', False)
        add('%s/deg/stack' % fn, quat2ax, fn, 'deg', True)
    for fn in ('rot2wxyz', 'rot2axang'):
        for kind in range(4):
            for q in (True, False):
                if q and fn == 'rot2axang' and kind > 1 and not T:
                    continue
                add('%s/%s/%s' % (fn, kind, 'quick' if q else 'eig'), rot2ax, fn, 'rad' if kind or fn == 'rot2axang' else 'deg', kind, q, weight=2)
    for fn in ('rot2quat', 'dcm2quat'):
        add(fn, rot2q, fn, False)
        add(fn + '/stack', rot2q, fn, True)
    for u in ('rad', 'deg'):
        add('between/' + u, between, u, u == 'deg')
    for kind in ('any', 'z', 'par', 'xpar', 'zpar'):
        add('a2b/%s' % kind, a2b, kind, '')
        if kind in ('z', 'zpar') or T:
            add('a2b/%s/roll' % kind, a2b, kind, 'deg' if kind == 'z' else 'rad')
    add('a2b/z/new_x', a2b, 'z', 'new_x', timeout_ms=1000)
    add('a2b/zpar/new_x', a2b, 'zpar', 'new_x')
    add('units', units)
    return out
