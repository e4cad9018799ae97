"""C07: placement and misalignment of element groups compose and are reversible."""
import copy

import numpy as np
from scipy import stats
from scipy.spatial.transform import Rotation

from vmon import gen
from vmon.core import Registry

W = Registry('C07', rule='poses of all members after each operation were compared to composed reference matrices',
             require={'members': 2000, 'centre_moves': 100, 'operations': 300, 'misalignment_matrices': 20000},
             assumptions=['misalignments are rotations and translations; groups are scaled isotropically only',
                          'order of composition as in the documentation of Parallel.generate_elements'])


def parts(m):
    """translation, rotation, zoom of a matrix without shear"""
    z = np.linalg.norm(m[:3, :3], axis=0)
    r = m[:3, :3] / z
    if np.linalg.det(r) < 0:
        z, r = z * [-1, 1, 1], r * [-1, 1, 1]
    return m[:3, 3], r, z


def T(t):
    return gen.aff(t)


def R(r):
    return gen.aff([0, 0, 0], r)


def Z(z):
    return np.diag([*z, 1.])


def compose(G, U, elem, unc, common):
    """nominal place and own misalignment of one member: all rotations act
    about the centre of the member, all offsets in the frame of the group"""
    te, re, ze = parts(elem)
    tu, ru, zu = parts(unc)
    tc, rc, zc = parts(common)
    return G @ U @ T(tu) @ T(te) @ T(tc) @ R(ru) @ R(re) @ R(rc) @ Z(zu) @ Z(ze) @ Z(zc)


def small(rng, dt=3., da=.2):
    return gen.aff(rng.normal(size=3) * dt, Rotation.from_rotvec(rng.normal(size=3) * da).as_matrix())


def group_pose(rng):
    G = gen.rigid(rng)
    if rng.uniform() < .2:
        G = G @ Z([rng.uniform(.5, 2)] * 3)
    return G


def make(c, **over):
    """a random group, and what is needed to predict its members"""
    from marxs.optics import FlatDetector, FlatGrating, OrderSelector
    from marxs.simulator import Parallel
    rng = c.rng
    n = int(rng.integers(1, 7))
    G = group_pose(rng)
    elems = [gen.aff(rng.normal(size=3) * 100, gen.rot(rng), rng.uniform(.5, 2, 3) if rng.uniform() < .5 else 1.) for i in range(n)]
    how = rng.choice(['matrix', 'dict', 'dict-pos4d', 'dict-pos'])
    if how == 'matrix':
        ep = [e.copy() for e in elems]
    elif how == 'dict-pos4d':
        ep = {'pos4d': [e.copy() for e in elems]}
    elif how == 'dict':
        ep = {'position': [e[:3, 3].copy() for e in elems], 'orientation': [parts(e)[1] for e in elems],
              'zoom': [parts(e)[2] for e in elems]}
    else:
        elems = [T(e[:3, 3]) for e in elems]
        ep = {'position': [list(e[:3, 3]) for e in elems]}
    tc = rng.normal(size=3) * 5 * (rng.uniform() < .3)
    rc = gen.rot(rng) if rng.uniform() < .3 else np.eye(3)
    zc = rng.uniform(1, 9, 3) if rng.uniform() < .7 else np.ones(3)
    if over.pop('no_offset', False):
        tc = np.zeros(3)
    common = T(tc) @ R(rc) @ Z(zc)
    if rng.uniform() < .5:
        args = {'pos4d': common.copy()}
    else:
        args = {'position': tc, 'orientation': rc, 'zoom': zc}
    d = list(rng.uniform(1e-4, 5e-4, n)) if rng.uniform() < .6 else float(rng.uniform(1e-4, 5e-4))
    args.update(d=d, order_selector=OrderSelector([0, 1]))
    off = int(rng.choice([0, 0, 5, 1000]))
    kw = {'id_num_offset': off} if off else {}
    if rng.uniform() < .5:
        kw['id_col'] = 'facet'
    gk = {'pos4d': G.copy()}
    if rng.uniform() < .5:
        t, r, z = parts(G)
        gk = {'position': t, 'orientation': r, 'zoom': z}
    keep = copy.deepcopy((args['d'], ep))
    p = Parallel(elem_class=FlatGrating, elem_pos=ep, elem_args=args, **gk, **kw)
    c.note(n=n, how=str(how), offset=off, per_element=isinstance(d, list))
    c.seen('layout', (str(how), isinstance(d, list), bool(off)))
    return p, dict(n=n, G=G, elems=elems, common=common, d=d, off=off, idc=kw.get('id_col', 'element'))


def members(c, p, ref, U=None, unc=None, mech='composition', msg=''):
    U = np.eye(4) if U is None else U
    unc = [np.eye(4)] * ref['n'] if unc is None else unc
    if not c.check(len(p.elements) == ref['n'], mech, f'{msg}: number of members'):
        return
    for i, e in enumerate(p.elements):
        want = compose(ref['G'], U, ref['elems'][i], unc[i], ref['common'])
        c.close(e.pos4d, want, mech, f'{msg}: pose of member {i}', rtol=1e-9, atol=1e-7)
        c.count('members')
        c.check(e.id_num == ref['off'] + i, 'numbering', f'{msg}: id of member {i}: {e.id_num}')
        c.check(e.id_col == ref['idc'], 'numbering', f'{msg}: id column of member {i}')
        d = ref['d'][i] if isinstance(ref['d'], list) else ref['d']
        c.check(np.all(e.d(np.zeros((1, 2))) == d), 'own-arguments', f'{msg}: argument of member {i}')


@W(quick=200, thorough=3000)
def composition(c):
    p, ref = make(c)
    members(c, p, ref, msg='as built')
    U, unc = np.eye(4), [np.eye(4)] * ref['n']
    for op in c.rng.choice(['unc', 'elem', 'regen', 'neutral-unc', 'neutral-elem', 'one'], size=5):
        if op == 'unc':
            U = small(c.rng)
            p.uncertainty = U
        elif op == 'elem':
            unc = [small(c.rng) for i in range(ref['n'])]
            p.elem_uncertainty = unc
        elif op == 'one':   # one member only
            unc = list(unc)
            unc[c.rng.integers(ref['n'])] = small(c.rng)
            p.elem_uncertainty = unc
        elif op == 'neutral-unc':
            U = np.eye(4)
            p.uncertainty = U
        elif op == 'neutral-elem':
            unc = [np.eye(4)] * ref['n']
            p.elem_uncertainty = unc
        p.generate_elements()
        members(c, p, ref, U, unc, msg=f'after {op}')
        c.count('operations')
        c.seen('operation', op)
    p.uncertainty = np.eye(4)
    p.elem_uncertainty = [np.eye(4)] * ref['n']
    p.generate_elements()
    members(c, p, ref, mech='reset', msg='after reset')


@W(quick=200, thorough=3000)
def own_arguments(c):
    """each member works with its own arguments: check by running photons"""
    from marxs.optics import EnergyFilter
    from marxs.simulator import Parallel
    rng = c.rng
    n = int(rng.integers(2, 6))
    f = list(rng.uniform(.1, 1, n))
    pos = [gen.aff([0, 30. * i, 0]) for i in range(n)]
    per = rng.uniform() < .5
    funcs = [(lambda e, a=a: np.full(len(e), a)) for a in f] if per else (lambda e: np.full(len(e), f[0]))
    G = gen.rigid(rng)
    p = Parallel(elem_class=EnergyFilter, elem_pos=pos, elem_args={'filterfunc': funcs, 'zoom': 10.}, pos4d=G)
    for k in range(2):
        k0 = rng.integers(n, size=25)
        loc = np.column_stack([np.full(25, 50.), 30. * k0 + rng.uniform(-9, 9, 25), rng.uniform(-9, 9, 25)])
        t = gen.table(rng, loc @ G[:3, :3].T + G[:3, 3], np.tile(-G[:3, 0], (25, 1)))
        pr = np.array(t['probability'])
        o = p(t)
        c.close(o['probability'], pr * (np.array(f)[k0] if per else f[0]), 'own-arguments', 'filter of the member that was hit', rtol=1e-9)
        c.check(np.asarray(o['element']) == k0, 'numbering', 'id of the member hit')
        c.count('members', n)
        p.generate_elements()
    c.note(n=n, per=bool(per))


@W(quick=200, thorough=3000)
def move_center(c):
    p, ref = make(c, no_offset=True)
    before = [e.pos4d.copy() for e in p.elements]
    C = small(c.rng, 50., 1.) if c.rng.uniform() < .6 else T(c.rng.normal(size=3) * 50)
    p.move_center(C)
    c.count('centre_moves')
    for a, e in zip(before, p.elements):
        c.close(e.pos4d, a, 'move-center-in-place', 'members stay where they were', rtol=1e-9, atol=1e-7)
    c.close(p.pos4d, C @ ref['G'], 'move-center-pose', 'the new reference pose', rtol=1e-9, atol=1e-7)
    # later misalignments act around the new point
    U = small(c.rng)
    p.uncertainty = U
    p.generate_elements()
    G2 = C @ ref['G']
    M = G2 @ U @ np.linalg.inv(G2)
    for a, e in zip(before, p.elements):
        c.close(e.pos4d, M @ a, 'move-center-misalign', 'misalignment about the new reference pose', rtol=1e-8, atol=1e-6)
        c.count('members')
    if c.rng.uniform() < .5:     # and back
        p.uncertainty = np.eye(4)
        p.move_center(np.linalg.inv(C))
        for a, e in zip(before, p.elements):
            c.close(e.pos4d, a, 'move-center-in-place', 'moved there and back', rtol=1e-9, atol=1e-6)
        c.close(p.pos4d, ref['G'], 'move-center-pose', 'moved there and back', rtol=1e-9, atol=1e-6)


@W(quick=60, thorough=600)
def calculated(c):
    """groups that calculate their layout: centre, normal, direction"""
    from marxs.optics import FlatDetector
    from marxs.simulator import ParallelCalculated
    rng = c.rng
    n = int(rng.integers(1, 8))
    pos = np.column_stack([rng.normal(size=(n, 3)) * 100, np.ones(n)])
    focal = rng.normal(size=3) * 500
    nk = str(rng.choice(['point', 'dir', 'call']))
    pk = str(rng.choice(['dir', 'call', 'point']))
    nd = gen.unit(rng.normal(size=3))
    pd = gen.unit(rng.normal(size=3))
    nv = {'point': np.append(focal, 1.), 'dir': np.append(nd, 0.), 'call': lambda x: x * [1, 1, 1, 0]}[nk]
    pv = {'point': np.append(focal * 1.3 + 7, 1.), 'dir': np.append(pd, 0.), 'call': lambda x, y: np.tile(np.append(pd, 0.), (n, 1))}[pk]
    G = gen.rigid(rng)
    p = ParallelCalculated(pos_spec=pos if rng.uniform() < .5 else (lambda: pos), normal_spec=nv, parallel_spec=pv,
                           elem_class=FlatDetector, elem_args={'pixsize': .1, 'zoom': np.array([1, 20., 10.]), 'ignore_pixel_warning': True},
                           pos4d=G)
    c.note(n=n, normal=nk, parallel=pk)
    c.check(len(p.elements) == n, 'calculated', 'one member per position')
    for i, e in enumerate(p.elements):
        ce, ax, z = gen.frame(np.linalg.inv(G) @ e.pos4d)
        c.close(ce, pos[i, :3], 'calculated', 'centre', atol=1e-7)
        c.close(z, [1, 20, 10], 'calculated', 'size', rtol=1e-9)
        wn = {'point': gen.unit(pos[i, :3] - focal), 'dir': nd, 'call': gen.unit(pos[i, :3])}[nk]
        c.close(abs(ax[:, 0] @ wn), 1., 'calculated', f'normal along the {nk}', atol=1e-9)
        if nk != 'point':
            c.check(ax[:, 0] @ wn > 0, 'calculated', 'sense of the normal')
        wp = gen.unit(pos[i, :3] - (focal * 1.3 + 7)) if pk == 'point' else pd
        c.close(ax[:, 2] @ wp, 0., 'calculated', 'direction lies in the plane of normal and y side', atol=1e-8)
        c.close(np.linalg.det(ax), 1., 'calculated', 'proper rotation', atol=1e-9)
        c.count('members')


@W(quick=16, thorough=100)
def random_misalignment(c):
    from marxs.design.uncertainties import generate_facet_uncertainty
    rng = c.rng
    n = 3000
    s = rng.uniform(0, 5, 3) * (rng.uniform(size=3) < .7)
    a = rng.uniform(0, .05, 3) * (rng.uniform(size=3) < .7)
    to = rng.normal(size=3) * (rng.uniform() < .5)
    ro = rng.normal(size=3) * .1 * (rng.uniform() < .5)
    kw = {}
    if np.any(to):
        kw['trans_offset'] = to
    if np.any(ro):
        kw['rot_offset'] = ro
    m = generate_facet_uncertainty(n, s, a, **kw)
    c.note(xyz=s, angle=a, trans_offset=to, rot_offset=ro)
    if not c.check(len(m) == n, 'misalignment', 'number of matrices'):
        return
    m = np.array(m)
    c.count('misalignment_matrices', n)
    c.close(m[:, 3], np.tile([0, 0, 0, 1.], (n, 1)), 'misalignment', 'affine', atol=1e-12)
    c.close(np.einsum('nij,nkj->nik', m[:, :3, :3], m[:, :3, :3]), np.tile(np.eye(3), (n, 1, 1)), 'misalignment', 'rotation', atol=1e-9)
    c.close(np.linalg.det(m[:, :3, :3]), 1., 'misalignment', 'rotation', atol=1e-9)
    ang = Rotation.from_matrix(m[:, :3, :3]).as_euler('xyz')   # static x, y, z
    for j in range(3):
        for x, sg, o, w in ((m[:, j, 3], s[j], to[j], 'shift'), (ang[:, j], a[j], ro[j], 'rotation')):
            if sg == 0:
                c.close(x, o, 'misalignment-zero', f'{w} {j} without uncertainty', atol=1e-9)
            else:
                c.pvalue(stats.kstest(x, stats.norm(o, sg).cdf).pvalue, 'misalignment-distribution', f'{w} {j}: sigma {sg}')
    X = np.column_stack([m[:, j, 3] for j in range(3)] + [ang[:, j] for j in range(3)])
    live = X.std(0) > 1e-9
    X = X[:, live]
    for i in range(X.shape[1]):
        for j in range(i):
            c.pvalue(stats.spearmanr(X[:, i], X[:, j]).pvalue, 'misalignment-independent', f'{i} {j}')


@W(quick=2, thorough=4)
def rejects(c):
    from marxs.optics import FlatDetector
    from marxs.simulator import Parallel, SimulationSetupError
    c.raises(ValueError, lambda: Parallel(elem_class=FlatDetector, elem_pos={'position': [[0, 0, 0]], 'zoom': [1, 2]}), 'reject', 'unequal lists')
    sh = np.eye(4)
    sh[0, 1] = .5
    c.raises(ValueError, lambda: Parallel(elem_class=FlatDetector, elem_pos=[np.eye(4)], elem_args={'pos4d': sh}), 'reject', 'shear in elem_args')
    p = Parallel(elem_class=FlatDetector, elem_pos=[np.eye(4)], elem_args={'ignore_pixel_warning': True})
    p.elem_uncertainty = [sh]
    c.raises(SimulationSetupError, p.generate_elements, 'reject', 'shear in misalignment')
