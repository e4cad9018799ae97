"""C02: results do not depend on the coordinate frame."""
import numpy as np

from vmon import gen
from vmon.core import Registry

W = Registry('C02', rule='photons met the element and both runs were compared',
             require={'photons_compared': 3000, 'photons_redirected': 500, 'elements_moved': 100},
             assumptions=['both runs start from the same state of the numpy random number generator',
                          'for isotropic scatter only the deflection angle is compared, not the random azimuth'])

AZIMUTH_FREE = ('L2Diffraction', 'RandomGaussianScatter', 'FlatStackGrating', 'CATL1L2Stack')
VEC = ('pos', 'dir', 'polarization')


def compare(c, name, o1, o2, M, t, azimuth_free=False, sel=None):
    sel = np.ones(len(o1), bool) if sel is None else sel
    # evanescent orders have no direction in either frame
    fin = np.isfinite(o1['dir'].data).all(1)
    c.check(np.isfinite(o2['dir'].data).all(1) == fin, 'frame-dependent:dir', f'{name}: same photons propagate')
    sel = sel & fin
    w = gen.move(o1, M)
    c.check(set(o1.colnames) == set(o2.colnames), 'columns-differ', f'{name}: same columns in both frames')
    scale = np.nanmax(np.abs(w['pos'].data)) + np.nanmax(np.abs(o1['pos'].data)) + 1
    for k in o1.colnames:
        if k in ('dir', 'polarization') and azimuth_free:
            continue
        a, b = np.asarray(w[k])[sel], np.asarray(o2[k])[sel]
        if a.dtype.kind in 'fc':
            tol = 1e-9 * scale if k == 'pos' else 1e-7
            c.close(b, a, f'frame-dependent:{k}', f'{name}: column {k}', rtol=1e-7,
                    atol=max(tol, 1e-7) if k not in ('pos',) else tol + 1e-7)
        else:
            c.check(a == b, f'frame-dependent:{k}', f'{name}: column {k}')
    if azimuth_free:
        ang = lambda a, b: np.arccos(np.clip(np.einsum('ij,ij->i', gen.unit(a['dir'].data[:, :3]),
                                                      gen.unit(b['dir'].data[:, :3])), -1, 1))
        c.close(ang(o2, gen.move(t, M))[sel], ang(o1, t)[sel], 'frame-dependent:deflection', f'{name}: size of deflection',
                atol=2e-3 if 'Stack' in name else 1e-6)
    c.count('photons_compared', sel.sum())
    c.count('photons_redirected', (np.abs(o1['dir'].data - t['dir'].data).max(axis=1) > 1e-9).sum())


@W(quick=1000, thorough=8000)
def element(c):
    S = gen.specs()
    names = list(S)
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng, shift=c.rng.choice([0., 200.]))
    M = gen.rigid(c.rng, kind=c.rng.choice(['any', 'any', 'swap', 'small']))
    seed = int(c.rng.integers(2**31))
    e1 = s.make(np.random.default_rng(seed), p4)
    e2 = s.make(np.random.default_rng(seed), M @ p4)
    t = s.photons(c.rng, p4, 40)
    c.note(element=s.name, pose=p4, motion=M)
    c.seen('element', s.name)
    lim = (-np.pi, np.pi) if s.surface == 'plane' else tuple(e1.geometry.coos_limits[0])
    dec, hit = gen.ref_hits(p4, t, s.surface, lim)
    t = t[dec]
    hit = hit[dec]
    if not hit.any():
        c.skip()
    np.random.seed(seed % 2**32)
    o1 = e1(t.copy())
    np.random.seed(seed % 2**32)
    o2 = e2(gen.move(t, M))
    c.count('elements_moved')
    compare(c, s.name, o1, o2, M, t, s.name in AZIMUTH_FREE)


@W(quick=200, thorough=1500)
def group(c):
    """sequences and parallel groups of elements"""
    from marxs.simulator import Sequence, Parallel
    from marxs import optics
    rng = c.rng
    M = gen.rigid(rng, kind='any')
    seed = int(rng.integers(2**31))
    names = [n for n in gen.CHAINABLE if n not in AZIMUTH_FREE]
    t = gen.beam(rng, 30)
    chain = []
    S = gen.specs()
    probe = t.copy()
    kinds = rng.choice(names, 3)
    for k in kinds:
        p4 = gen.place(rng, probe, S[k])
        sd = int(rng.integers(2**31))
        chain.append((k, p4, sd))
        if np.isfinite(probe['dir'].data).all():
            probe = S[k].make(np.random.default_rng(sd), p4)(probe)
    gp = gen.pose(rng)
    gp[:3, :3] /= np.linalg.norm(gp[:3, :3], axis=0)
    ok = np.isfinite(probe['dir'].data).all(1)
    if ok.sum() < 3:
        c.skip()
    gp[:3, 3] = np.median(probe['pos'].data[ok][:, :3], axis=0) + 30 * np.median(probe['dir'].data[ok][:, :3], axis=0)
    epos = [gen.aff(rng.normal(size=3) * 15, gen.rot(rng)) for _ in range(4)]
    unc = gen.aff(rng.normal(size=3), gen.rot(rng, 'small'))

    def build(T):
        el = [S[k].make(np.random.default_rng(sd), T @ p) for k, p, sd in chain]
        par = Parallel(elem_class=optics.FlatDetector, pos4d=T @ gp, elem_pos=epos, id_col='CCD',
                       elem_args={'zoom': [1., 12., 9.], 'pixsize': .5, 'ignore_pixel_warning': True})
        par.uncertainty = unc
        par.generate_elements()
        return Sequence(elements=el + [par])
    c.note(chain=list(kinds), motion=M)
    np.random.seed(seed % 2**32)
    o1 = build(np.eye(4))(t.copy())
    np.random.seed(seed % 2**32)
    o2 = build(M)(gen.move(t, M))
    ok = np.isfinite(o1['dir'].data).all(1)
    if not ok.all():
        c.skip()
    c.count('elements_moved', len(chain) + 4)
    compare(c, 'chain', o1, o2, M, t, sel=ok)


@W(quick=90, thorough=900)
def aperture(c):
    from marxs import optics
    rng = c.rng
    M = gen.rigid(rng, kind='any')
    seed = int(rng.integers(2**31))
    k = c.idx % 3
    z = rng.uniform(5, 50)
    p4 = gen.aff(rng.normal(size=3) * 50, gen.rot(rng), [1., z, z if k else rng.uniform(5, 50)])
    phi = sorted(rng.uniform(0, 6, 2))
    ri = rng.uniform(0, .9) * z

    def build(T):
        if k == 0:
            return optics.RectangleAperture(pos4d=T @ p4)
        if k == 1:
            return optics.CircleAperture(pos4d=T @ p4, phi=list(phi), r_inner=ri)
        off = gen.aff(p4[:3, 1] * 5)
        return optics.MultiAperture(elements=[optics.RectangleAperture(pos4d=T @ p4),
                                              optics.CircleAperture(pos4d=T @ off @ p4, phi=list(phi), r_inner=ri)])
    t = gen.table(rng, np.zeros((30, 3)), -p4[:3, 0] + .1 * rng.normal(size=(30, 3)))
    t.remove_column('pos')
    c.note(kind=k, pose=p4, phi=phi, r_inner=ri, motion=M)
    np.random.seed(seed % 2**32)
    o1 = build(np.eye(4))(t.copy())
    np.random.seed(seed % 2**32)
    o2 = build(M)(gen.move(t, M))
    c.seen('element', ['RectangleAperture', 'CircleAperture', 'MultiAperture'][k])
    c.count('elements_moved')
    c.close(build(M).area.to_value('mm2'), build(np.eye(4)).area.to_value('mm2'), 'frame-dependent:area', 'area')
    compare(c, 'aperture', o1, o2, M, t)


@W(quick=140, thorough=1500)
def posespec(c):
    """pos4d and position/orientation/zoom describe the same element"""
    from marxs import optics
    rng = c.rng
    seed = int(rng.integers(2**31))
    scal = c.idx % 3 == 0
    z = np.ones(3) * rng.uniform(3, 30) if scal else rng.uniform(3, 30, 3)
    R, pos = gen.rot(rng), rng.normal(size=3) * 100
    p4 = gen.aff(pos, R, z)
    kinds = [('FlatDetector', dict(pixsize=.5, ignore_pixel_warning=True)),
             ('PerfectLens', dict(focallength=500.)), ('EnergyFilter', dict(filterfunc=lambda e: .5 + 0 * e)),
             ('FlatGrating', dict(d=3e-4, order_selector=optics.OrderSelector([-1, 2]), groove_angle=.3)),
             ('RectangleAperture', {}), ('Baffle', {}),
             ('CircularDetector', dict(pixsize=.3))]
    name, kw = kinds[c.idx % len(kinds)]
    cls = getattr(optics, name)
    if name == 'CircularDetector':
        z = np.array([z[0], z[0], z[2]])
        p4 = gen.aff(pos, R, z)
    a = cls(pos4d=p4, **kw)
    pk = dict(position=pos, orientation=R, zoom=z)
    if scal:
        pk['zoom'] = float(z[0])
    b = cls(**pk, **kw)
    c.note(cls=name, pos=pos, zoom=z, scalar=scal)
    c.close(b.pos4d, p4, 'pose-spec', f'{name}: matrix from position, orientation, zoom', atol=1e-9)
    c.close(a.pos4d, p4, 'pose-spec', f'{name}: matrix given', atol=1e-12)
    t = gen.aim(rng, p4, 30, surface='cyl' if name == 'CircularDetector' else 'plane', maxangle=.5)
    np.random.seed(seed % 2**32)
    o1 = a(t.copy())
    np.random.seed(seed % 2**32)
    o2 = b(t.copy())
    c.count('elements_moved')
    compare(c, name, o1, o2, np.eye(4), t)
    # defaults: nothing given is the unit pose at the origin
    d = cls(**kw)
    c.close(d.pos4d, np.eye(4), 'pose-spec', 'default pose')
    c.raises(ValueError, lambda: cls(pos4d=p4, position=pos, **kw), 'pose-conflict', 'both ways given at the same time')
    bad = p4.copy()
    bad[:3, int(rng.integers(3))] = 0
    c.raises(ValueError, lambda: cls(pos4d=bad, **kw), 'pose-conflict', 'singular matrix')
    if c.idx % 2:
        zz = z.copy()
        zz[int(rng.integers(3))] = rng.choice([0., -2.])
        c.raises(ValueError, lambda: cls(position=pos, zoom=zz, **kw), 'pose-conflict', 'zoom must be positive')
