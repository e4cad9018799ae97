"""C20: polarization vectors are transported without distortion."""
import astropy.units as u
import numpy as np
from astropy.table import Column

from vmon import gen
from vmon.core import Registry

W = Registry('C20', rule='polarization vectors from the real functions and elements were compared to elementary rotations',
             require={'angles': 6000, 'pairs': 5000, 'same': 40, 'opposite': 40, 'element_photons': 2000, 'jones': 40, 'reflections': 1000},
             assumptions=['rays closer than 1e-7 rad to unchanged or reversed directions may be treated as unchanged'])

ELEMENTS = ['PerfectLens', 'ThinLens', 'FlatGrating', 'ReflectionGrating', 'CATGrating', 'CylinderGrating',
            'NonParallelCATGrating', 'L2Diffraction', 'RandomGaussianScatter', 'FlatGratingChirp']


def directions(rng, n):
    v = rng.normal(size=(n, 3))
    k = rng.integers(0, 6, n)
    i = rng.integers(0, 3, n)
    ax = np.eye(3)[i] * rng.choice([-1, 1], n)[:, None]
    v = np.where((k == 0)[:, None], ax, v)
    v = np.where((k == 1)[:, None], ax + rng.normal(size=(n, 3)) * 10.**rng.uniform(-9, -2, n)[:, None], v)
    return v / np.linalg.norm(v, axis=1)[:, None]


def h(v):
    return np.hstack([v, np.zeros((len(v), 1))])


def turn(d1, d2, p):
    """rotate p by the smallest rotation that maps d1 to d2"""
    a = np.cross(d1, d2)
    c = np.sum(d1 * d2, axis=1)[:, None]
    # R p = p c + a x p + a (a.p) / (1 + c)
    return p * c + np.cross(a, p) + a * np.sum(a * p, axis=1)[:, None] / (1 + c)


@W(quick=300, thorough=6000)
def angle2vector(c):
    from marxs.math.polarization import polarization_vectors
    rng = c.rng
    n = int(rng.choice([0, 1, 100]))
    d = directions(rng, n)
    ang = rng.uniform(-7, 7, n)
    border = np.hypot(d[:, 0], d[:, 2])
    scale = 10**rng.uniform(-3, 3, (n, 1)) if rng.uniform() < .3 else 1.
    D = h(d * scale)
    unit = rng.integers(5)
    a = [lambda: ang, lambda: ang * u.rad, lambda: (ang * u.rad).to(u.deg), lambda: Column(np.rad2deg(ang), unit=u.deg),
         lambda: Column(ang)][unit]()
    D0, a0 = D.copy(), np.array(a)
    p = np.asarray(polarization_vectors(D, a))
    c.note(n=n, unit=int(unit), dirs=d[:5])
    c.check(np.array_equal(D, D0) and np.array_equal(np.array(a), a0), 'input', 'input arrays not modified')
    c.check(p.shape == (n, 4) and np.all(p[:, 3] == 0), 'shape', 'homogeneous direction')
    p = p[:, :3]
    # within 1e-7 rad of the y axis either convention is possible
    ok = (border < 1e-10) | (border > 3e-7)
    c.close(np.linalg.norm(p, axis=1), np.ones(n), 'unit', 'unit length', atol=1e-9)
    tol = 1e-9 + 1e-14 / np.maximum(border, 1e-9)
    c.check(np.abs(np.sum(p * d, axis=1)) < tol, 'perpendicular', 'perpendicular to the ray')
    ref = np.where((border < 1e-9)[:, None], [1., 0, 0], [0., 1., 0])
    e = np.cross(np.cross(d, ref), d)
    e /= np.linalg.norm(e, axis=1)[:, None]
    want = np.cos(ang)[:, None] * e + np.sin(ang)[:, None] * np.cross(d, e)
    tol = 1e-8 + 1e-14 / np.maximum(border, 1e-9)[ok, None] * (border[ok, None] > 1e-9)
    c.check(np.abs(p - want)[ok] < tol, 'angle', 'at the right angle from the projected axis')
    c.count('angles', n)


@W(quick=300, thorough=6000)
def transport(c):
    from marxs.math import polarization as P
    rng = c.rng
    n = int(rng.choice([0, 1, 200]))
    d1 = directions(rng, n)
    kind = rng.integers(0, 8, n)
    d2 = directions(rng, n)
    near = d1 + rng.normal(size=(n, 3)) * 10.**rng.uniform(-6, -1, n)[:, None]
    d2 = np.where((kind == 0)[:, None], near, d2)
    d2 = np.where((kind == 1)[:, None], d1, d2)
    d2 = np.where((kind == 2)[:, None], -d1, d2)
    d2 /= np.linalg.norm(d2, axis=1)[:, None]
    s = np.linalg.norm(np.cross(d1, d2), axis=1)
    same, opp = kind == 1, (s < 1e-7) & (np.sum(d1 * d2, axis=1) < 0)
    gen_ = (s > 1e-7)
    scale = 10**rng.uniform(-3, 3, (2, n, 1)) if rng.uniform() < .3 else np.ones((2, n, 1))
    p = rng.normal(size=(n, 3))
    if rng.uniform() < .5:
        p = np.cross(p, d1)
    a, b, q = h(d1 * scale[0]), h(d2 * scale[1]), h(p)
    a0, b0, q0 = a.copy(), b.copy(), q.copy()
    out = P.parallel_transport(a, b, q)
    c.note(n=n, d1=d1[:3], d2=d2[:3])
    c.check(np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(q, q0), 'input', 'input arrays not modified')
    c.check(out.shape == (n, 4) and np.all(out[:, 3] == 0), 'shape', 'homogeneous direction')
    o = out[:, :3]
    close = lambda x, y, mech, msg, sel, atol=1e-8: c.close(x[sel], y[sel], mech, msg, atol=atol)
    tol = 1e-7
    close(o, turn(d1, d2, p), 'rotation', 'smallest rotation from old to new direction', gen_ & ~opp & (np.sum(d1 * d2, axis=1) > -1 + 1e-6), 1e-6)
    close(np.linalg.norm(o, axis=1), np.linalg.norm(p, axis=1), 'isometry', 'length', np.ones(n, bool), tol)
    m = P.paralleltransport_matrix(d1, d2)
    c.check(m.shape == (n, 3, 3), 'shape', 'one matrix for each pair')
    close(np.einsum('nij,nkj->nik', m, m), np.tile(np.eye(3), (n, 1, 1)), 'isometry', 'orthogonal matrix', np.ones(n, bool), tol)
    close(np.einsum('nij,nj->ni', m, d1), d2, 'direction', 'old direction maps to new one', gen_ | same, tol)
    cr = np.cross(d1, d2)
    close(np.einsum('nij,nj->ni', m, cr), cr, 's', 'component perpendicular to both rays unchanged', gen_, tol)
    close(np.linalg.det(m), np.ones(n), 'handed', 'no mirror image', np.ones(n, bool), tol)
    back = P.parallel_transport(b, a, out)
    close(back[:, :3], p, 'undo', 'transport back undoes the transport', np.ones(n, bool), 1e-6)
    close(o, p, 'unchanged', 'nothing happens for an unchanged direction', same, 0)
    c.count('pairs', n)
    c.count('same', int(same.sum()))
    c.count('opposite', int(opp.sum()))
    nan = P.paralleltransport_matrix(d1, d2, replace_nans=False)
    c.check(np.isnan(nan[same]).all(axis=(1, 2)) if same.any() else True, 'nan', 'undefined transport marked on request')
    c.check(np.isfinite(nan[gen_]).all(), 'nan', 'defined transport is finite')
    if same.any() and not np.isnan(P.parallel_transport(a, b, q, replace_nans=False)[same, :3]).all():
        c.check(False, 'nan', 'option handed through')


@W(quick=200, thorough=2000)
def jones(c):
    from marxs.math import polarization as P
    rng = c.rng
    n = 50
    d1, d2 = directions(rng, n), directions(rng, n)
    s = np.cross(d1, d2)
    ok = np.linalg.norm(s, axis=1) > 1e-5
    J = np.array([np.diag(rng.uniform(0, 1, 2)), np.diag([1., 0]), np.diag([0, 1.]), rng.normal(size=(2, 2))][rng.integers(4)])
    m = P.paralleltransport_matrix(d1, d2, jones=J)
    s = s[ok] / np.linalg.norm(s[ok], axis=1)[:, None]
    m, d1, d2 = m[ok], d1[ok], d2[ok]
    p1, p2 = np.cross(d1, s), np.cross(d2, s)
    E = rng.normal(size=(len(s), 2))
    inn = E[:, :1] * s + E[:, 1:] * p1
    O = E @ J.T
    c.note(jones=J)
    c.close(np.einsum('nij,nj->ni', m, inn), O[:, :1] * s + O[:, 1:] * p2, 'jones', 'Jones matrix acts on s and p', atol=1e-8)
    c.count('jones')


@W(quick=200, thorough=2000)
def reflection(c):
    from marxs.math import polarization as P
    rng = c.rng
    n = int(rng.choice([0, 1, 100]))
    d1 = directions(rng, n)
    nrm = directions(rng, n)
    cosi = np.abs(np.sum(nrm * d1, axis=1))
    ok = cosi > 1e-3
    d1, nrm = d1[ok], nrm[ok]
    d2 = d1 - 2 * np.sum(d1 * nrm, axis=1)[:, None] * nrm
    delta = h(d1 - d2)
    keep = delta.copy()
    q = P.Q_reflection(delta)
    c.check(np.array_equal(keep, delta), 'input', 'input not modified')
    c.check(q.shape == (len(d1), 4, 4), 'shape', 'one matrix per ray')
    p = rng.normal(size=d1.shape)
    out = np.einsum('nij,nj->ni', q, h(p))
    want = p - 2 * np.sum(p * nrm, axis=1)[:, None] * nrm
    c.close(out, h(want), 'reflection', 'mirror image at the surface', atol=1e-8)
    c.close(np.einsum('nij,nj->ni', q, h(d1)), h(d2), 'reflection', 'old direction maps to new one', atol=1e-8)
    c.raises(ValueError, lambda: P.Q_reflection(np.ones(4)), 'reject', 'single vector')
    c.count('reflections', len(d1))


@W(quick=200, thorough=2500)
def elements(c):
    """polarization-neutral elements turn polarization with the ray"""
    rng = c.rng
    S = gen.specs()
    name = ELEMENTS[c.idx % len(ELEMENTS)]
    s = S[name]
    p4 = s.pose(rng)
    t = s.photons(rng, p4, 60)
    e = s.make(rng, p4)
    d1, p1 = t['dir'].data[:, :3].copy(), t['polarization'].data[:, :3].copy()
    d1 /= np.linalg.norm(d1, axis=1)[:, None]
    out = e(t.copy())
    d2, p2 = out['dir'].data[:, :3], out['polarization'].data[:, :3]
    ok = np.isfinite(d2).all(axis=1)
    d2 = d2 / np.linalg.norm(d2, axis=1)[:, None]
    ok &= np.sum(d1 * d2, axis=1) > -.9999
    moved = ok & (np.linalg.norm(d2 - d1, axis=1) > 1e-9)
    c.note(element=name, moved=int(moved.sum()))
    c.close(p2[ok], turn(d1, d2, p1)[ok], 'element', f'{name}: polarization turns with the ray', atol=2e-6)
    c.count('element_photons', int(moved.sum()))
