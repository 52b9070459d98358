"""C25: rotation matrices."""
import itertools
import numpy as np
from pyorb import kepler
from .. import ref, lat

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('all axes x an angle grid (0.5 deg plus neighbourhoods of quarter '
        'turns and large angles), all pairs of a coarser grid for '
        'composition; for the orientation matrix the full product of three '
        'angle grids, in both units, with every combination of scalar and '
        'vector arguments')
ASSUMPTIONS = ['|angle| <= 1e4 rad']
AX = {'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1]}
EPS = 2.0**-52


def angles():
    out = [j*np.pi/360 for j in range(-1440, 1441)]
    for q in range(-8, 9):
        for d in (1e-12, 1e-8, 1e-5):
            out += [q*np.pi/2 + d, q*np.pi/2 - d]
    out += [1e2, -1e3, 1e4, 12345.678e-1]
    return out


def coarse(tier):
    n = 15 if tier == 'quick' else 5
    out = [j*np.pi/180 for j in range(-360, 361, n)]
    return out + [1e-9, -1e-9, np.pi/2 + 1e-7, 0.1, 2.0, 50.0]


def tasks(tier):
    out = [dict(kind='axis', axis=a) for a in AX]
    out += [dict(kind='compose', axis=a, tier=tier) for a in AX]
    n = 30 if tier == 'quick' else 10
    inc = sorted(set([j*np.pi/180 for j in range(0, 181, n)]
                     + [1e-9, 0.3, 2.9, np.pi - 1e-9, -0.4, 4.0]
                     + [s*(q*np.pi/2 + d) for q in (0, 1, 2, 3) for s in (1, -1)
                        for d in (1e-12, -1e-9, 1e-7, -1e-5)]))
    out += [dict(kind='euler', inc=i, n=n) for i in inc]
    out += [dict(kind='forms')]
    return out


def proper(ctx, R, case, f32=False):
    R = ref.ld(R)
    tol = 2e-6 if f32 else 8*EPS
    if not np.all(np.abs(R @ R.T - np.eye(3)) <= tol):
        ctx.fail('matrix is not orthonormal', R=R, **case)
        return False
    d = (R[0] @ ref.cross(R[1], R[2]))
    if not abs(d - 1) <= 2*tol:
        ctx.fail('determinant is not one', R=R, **case)
        return False
    return True


def close(R, want, t, f32=False):
    tol = 1e-6 if f32 else 4*EPS*(1 + t)
    return bool(np.shape(R) == (3, 3)
                and np.all(np.abs(ref.ld(R) - want) <= tol))


def run(task, ctx):
    kind = task['kind']
    if kind == 'axis':
        ax = task['axis']
        f = getattr(kepler, 'rot_mat_' + ax)
        for t in angles():
            ctx.ev()
            ctx.outcome(ax, t)
            want = ref.rot(AX[ax], t)
            R = f(t)
            case = dict(axis=ax, angle=t)
            proper(ctx, R, case)
            if R.dtype != np.float64:
                ctx.fail('default type is not double', **case)
            if not close(R, want, 0):
                ctx.fail('not the right handed rotation about the axis',
                         got=R, want=want, **case)
            for dt in (np.float32, np.float64, np.longdouble):
                R = f(t, dtype=dt)
                if R.dtype != dt or not close(R, want, 0, dt == np.float32):
                    ctx.fail('wrong matrix for the requested type', **case)
            R = f(np.float64(t))
            if not close(R, want, 0):
                ctx.fail('numpy scalar angle gives another matrix', **case)
        for t in range(-7, 8):
            if not close(f(t), ref.rot(AX[ax], t), 0):
                ctx.fail('integer angle gives another matrix', axis=ax,
                         angle=t)
        ctx.sample(axis=ax, angle=0.5)
        return
    if kind == 'compose':
        ax = task['axis']
        f = getattr(kepler, 'rot_mat_' + ax)
        for a, b in itertools.product(coarse(task['tier']), repeat=2):
            ctx.ev()
            ctx.outcome(ax, a, b)
            R = ref.ld(f(a)) @ ref.ld(f(b))
            if not np.all(np.abs(R - ref.ld(f(a + b)))
                          <= 16*EPS*(1 + abs(a) + abs(b))):
                ctx.fail('rotations do not compose additively', axis=ax,
                         angles=[a, b])
        ctx.sample(axis=ax, angles=[a, b])
        return
    Z, X = AX['z'], AX['x']
    if kind == 'euler':
        i = task['inc']
        grid = [j*np.pi/180 for j in range(-360, 721, task['n'])] \
            + [1e-9, 0.1, 5.0] + [
                q*np.pi/2 + d for q in (0, 1, 2, 3) for d in (1e-7, -1e-9)]
        Ri = ref.rot(X, i)
        om, Om = lat.mesh(grid, grid)
        n = om.size
        vec = kepler.euler_rotation_matrix(np.full(n, i), om, Om)
        vecd = kepler.euler_rotation_matrix(
            np.degrees(np.full(n, i)), np.degrees(om), np.degrees(Om),
            degrees=True)
        if vec.shape != (3, 3, n) or vecd.shape != (3, 3, n):
            ctx.fail('vector angles give another shape', shape=vec.shape)
            return
        RO = {o: ref.rot(Z, o) for o in grid}
        for j in range(n):
            ctx.ev(3)
            o, O = float(om[j]), float(Om[j])
            ctx.outcome(i, o, O)
            want = RO[O] @ Ri @ RO[o]
            case = dict(inc=i, omega=o, Omega=O)
            if not close(vec[..., j], want, 1):
                ctx.fail('orientation matrix differs from the composition of '
                         'rotations (vector)', got=vec[..., j], want=want,
                         **case)
            R = kepler.euler_rotation_matrix(i, o, O)
            if not close(R, want, 1):
                ctx.fail('orientation matrix differs from the composition of '
                         'rotations', got=R, want=want, **case)
            elif not proper(ctx, R, case):
                pass
            if not close(vecd[..., j], want, 4 + abs(i) + abs(o) + abs(O)):
                ctx.fail('orientation matrix in degrees differs', **case)
            if j % 7 == 0:
                R = kepler.euler_rotation_matrix(
                    *np.degrees([i, o, O]).tolist(), degrees=True)
                P = kepler.rot_mat_z(O) @ kepler.rot_mat_x(i) \
                    @ kepler.rot_mat_z(o)
                if not close(R, want, 4 + abs(i) + abs(o) + abs(O)):
                    ctx.fail('orientation matrix in degrees differs', **case)
                if not close(P, want, 2):
                    ctx.fail('product of the elementary rotations differs',
                             **case)
            if ctx.nfail > 30:
                return
        ctx.sample(inc=i, omega=o, Omega=O)
        return
    # every combination of scalar and vector angles
    base = [np.array([0.3, 1.2, 2.9, 0.0]), np.array([4.0, -1.0, 0.2, 6.0]),
            np.array([1.0, 2.0, 3.0, 9.0])]
    for which in itertools.product((0, 1, 2), repeat=3):
        # 0: scalar, 1: vector, 2: numpy scalar
        for dg in (False, True):
            for dt in (np.float64, np.float32):
                u = 180/np.pi if dg else 1.0
                args = []
                for w, b in zip(which, base):
                    b = (b*u).astype(dt)
                    args.append(b.copy() if w == 1 else float(b[1]) if w == 0
                                else b[2])
                R = kepler.euler_rotation_matrix(*args, degrees=dg)
                n = 4 if 1 in which else 0
                shape = (3, 3, 4) if n else (3, 3)
                if R.shape != shape:
                    ctx.fail('wrong shape', which=which, shape=R.shape)
                    continue
                for j in range(4 if n else 1):
                    ctx.ev()
                    ctx.outcome(which, dg, dt.__name__, j)
                    v = [ref.L(float(np.asarray(a).flat[j if w == 1 else 0]))
                         for a, w in zip(args, which)]
                    if dg:
                        v = [ref.rad(x) for x in v]
                    want = ref.rot(Z, v[2]) @ ref.rot(X, v[0]) \
                        @ ref.rot(Z, v[1])
                    got = R[..., j] if n else R
                    if not close(got, want, 40, dt == np.float32):
                        ctx.fail('wrong matrix for mixed scalar and vector '
                                 'angles', which=which, degrees=dg, j=j,
                                 got=got, want=want)
    # whole numbers in every position and type
    whole = {'int': lambda b: b[1], 'npint': lambda b: np.int64(b[1]),
             'ints': lambda b: np.array(b), 'int32s': lambda b:
             np.array(b, dtype=np.int32), 'float': lambda b: float(b[1]),
             'floats': lambda b: np.array(b, dtype=float)}
    base = [[30, 2, 1, 0], [1, 100, -3, 7], [5, 2, -4, 60]]
    for names in itertools.product(whole, repeat=3):
        for dg in (False, True):
            args = [whole[w](b) for w, b in zip(names, base)]
            R = kepler.euler_rotation_matrix(*args, degrees=dg)
            n = 4 if any(np.ndim(a) for a in args) else 0
            if R.shape != ((3, 3, 4) if n else (3, 3)):
                ctx.fail('wrong shape', which=names, shape=R.shape)
                continue
            for j in range(n or 1):
                ctx.ev()
                ctx.outcome(names, dg, j)
                v = [ref.L(float(np.asarray(a).flat[j if np.ndim(a) else 0]))
                     for a in args]
                if dg:
                    v = [ref.rad(x) for x in v]
                want = ref.rot(Z, v[2]) @ ref.rot(X, v[0]) @ ref.rot(Z, v[1])
                if not close(R[..., j] if n else R, want, 400):
                    ctx.fail('wrong matrix for whole numbers', which=names,
                             degrees=dg, j=j, got=R, want=want)
    ctx.sample(which='all 27 combinations')
