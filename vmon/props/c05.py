"""C05: photon vectors stay physical through every element."""
import numpy as np

from vmon import gen
from vmon.core import Registry

W = Registry('C05', rule='vectors of photons behind real elements were observed',
             require={'photons_checked': 5000, 'redirected': 1000, 'boundaries': 100},
             assumptions=['incoming polarization is unit and perpendicular to the ray',
                          'evanescent orders (no propagating solution of the grating equation) are excluded'])


def physical(c, name, t, sel=None, tol=1e-7):
    pos, d, pol = (np.asarray(t[k]) for k in ('pos', 'dir', 'polarization'))
    if sel is not None:
        pos, d, pol = pos[sel], d[sel], pol[sel]
    c.check(np.isfinite(pos), 'position', f'{name}: finite position')
    c.check(np.isfinite(d), 'direction', f'{name}: finite direction')
    c.check(pos[:, 3] == 1, 'homogeneous', f'{name}: position is a point', w=pos[:, 3])
    c.close(d[:, 3], 0., 'homogeneous', f'{name}: direction is a vector', atol=1e-12)
    n = np.linalg.norm(d[:, :3], axis=1)
    c.check(n > 1e-6, 'direction', f'{name}: direction is not zero')
    c.close(pol[:, 3], 0, 'homogeneous', f'{name}: polarization is a vector', atol=1e-12)
    c.close(np.linalg.norm(pol[:, :3], axis=1), 1., 'polarization-length', f'{name}: unit polarization', atol=tol)
    c.close(np.einsum('ij,ij->i', pol[:, :3], d[:, :3]) / n, 0, 'polarization-angle',
            f'{name}: polarization perpendicular to the ray', atol=tol)
    c.count('photons_checked', len(d))


def propagating(o):
    return np.isfinite(o['dir'].data[:, :3]).all(1)


@W(quick=560, thorough=10000)
def element(c):
    S = gen.specs()
    names = list(S)
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng)
    e = s.make(c.rng, p4)
    t = s.photons(c.rng, p4, 40)
    if c.idx % 5 == 0:     # directions that are not normalised
        t['dir'] = t['dir'] * c.rng.uniform(.5, 2)
    t0 = t.copy()
    c.note(element=s.name, pose=p4)
    c.seen('element', s.name)
    o = e(t)
    if s.name == 'CylinderGrating':    # any angle of incidence: grazing orders may not propagate
        sel = propagating(o)
    else:
        sel = None
    physical(c, s.name, o, sel)
    if not s.redirects:
        for k in ('dir', 'polarization'):
            c.same(np.asarray(o[k]), np.asarray(t0[k]), 'redirected', f'{s.name}: {k} is left alone')
    else:
        a = np.abs(gen.unit(o['dir'].data[:, :3]) - gen.unit(t0['dir'].data[:, :3])).max(axis=1) > 1e-9
        c.count('redirected', a.sum())


@W(quick=200, thorough=4000)
def chain(c):
    rng = c.rng
    S = gen.specs()
    t = gen.beam(rng, 40)
    kinds = []
    for k in range(int(rng.integers(3, 9))):
        name = str(rng.choice(gen.CHAINABLE))
        e = S[name].make(rng, gen.place(rng, t, S[name]))
        kinds.append(name)
        before = t['dir'].data.copy()
        t = e(t)
        ok = propagating(t)
        c.check(ok | ('rating' in name or name in ('L1', 'CATL1L2Stack')), 'direction', f'{name}: direction lost')
        t = t[ok]
        if len(t) < 4:
            break
        physical(c, '>'.join(kinds[-2:]), t, tol=1e-6)
        c.seen('pair', '>'.join(kinds[-2:]))
        c.count('boundaries')
    c.note(chain=kinds)


@W(quick=60, thorough=800)
def sources(c):
    """vectors made by pointings, lab sources and apertures"""
    import astropy.units as u
    from astropy.coordinates import SkyCoord
    from marxs import source, optics
    from marxs.math.utils import xyz2zxy
    rng = c.rng
    ra, dec = rng.uniform(0, 360), np.degrees(np.arcsin(rng.uniform(-1, 1)))
    co = SkyCoord(ra, dec, unit='deg')
    kw = dict(coords=co, roll=rng.uniform(0, 360) * u.deg)
    if c.idx % 2:
        kw['reference_transform'] = xyz2zxy if c.idx % 4 == 1 else gen.aff([0, 0, 0], gen.rot(rng))
    pnt = source.FixedPointing(**kw) if c.idx % 3 else source.JitterPointing(jitter=rng.uniform(0, 100) * u.arcsec, **kw)
    src = source.DiskSource(coords=co, a_outer=rng.uniform(.1, 60) * u.arcmin, flux=1. / u.s / u.cm**2,
                            geomarea=1 * u.cm**2, energy=1. * u.keV)
    p = pnt(src.generate_photons(50 * u.s))
    if len(p) == 0:
        c.skip()
    c.note(ra=ra, dec=dec)
    ap = optics.CircleAperture(position=rng.normal(size=3), zoom=10)
    physical(c, 'pointing+aperture', ap(p))
    ax = gen.unit(rng.normal(size=3))
    if c.idx % 4 == 0:
        ax = np.eye(3)[int(rng.integers(3))] * rng.choice([-1., 1.])
    lab = source.LabPointSourceCone(position=rng.normal(size=3), half_opening=rng.uniform(.01, 1) * u.rad,
                                    direction=ax, flux=1. / u.s, energy=1. * u.keV)
    try:
        q = lab.generate_photons(50 * u.s)
    except TypeError:
        raise
    physical(c, 'LabPointSourceCone', q)
    c.note(axis=ax)
    c.count('boundaries', 2)
