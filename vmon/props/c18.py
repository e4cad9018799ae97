"""C18: laboratory sources emit from their position into their cone only."""
import astropy.units as u
import numpy as np
from scipy import stats

from vmon import gen
from vmon.core import Registry

W = Registry('C18', rule='photons of real laboratory sources were compared to the stated position, cone, aperture and polarization convention',
             require={'photons': 60000, 'statistical': 150, 'axis_cases': 15, 'full_sphere': 8, 'narrow': 8, 'far': 25, 'rejected': 5, 'polarized': 20000},
             assumptions=['polarization angle is counted from the projected y axis towards dir x y (x axis for photons along y), as documented',
                          'half_opening is an angle in radian'])

AXES = np.vstack([np.eye(3), -np.eye(3), [[1, 1, 0], [0, 1, 1], [1e-9, 0, 1], [0, 1e-7, -1], [1e-4, 0, -1], [0, 1e-3, 1]]]).astype(float)


def pol_expected(d, ang):
    e = np.cross(np.cross(d, [0., 1., 0.]), d)
    bad = np.hypot(d[:, 0], d[:, 2]) < 1e-6
    e[bad] = np.cross(np.cross(d[bad], [1., 0, 0]), d[bad])
    e /= np.linalg.norm(e, axis=1)[:, None]
    return np.cos(ang)[:, None] * e + np.sin(ang)[:, None] * np.cross(d, e)


def common(c, t, n_expected=None):
    n = len(t)
    d, p, x = np.asarray(t['dir']), np.asarray(t['polarization']), np.asarray(t['pos'])
    for a, k in ((d, 'dir'), (p, 'polarization'), (x, 'pos')):
        c.check(a.shape == (n, 4) and np.isfinite(a).all(), 'valid', f'{k}: one finite homogeneous vector per photon')
    c.check(np.all(d[:, 3] == 0) and np.all(p[:, 3] == 0), 'valid', 'directions are vectors')
    c.close(x[:, 3], np.ones(n), 'valid', 'positions are points', atol=1e-12)
    d, p, x = d[:, :3], p[:, :3], x[:, :3]
    c.close(np.linalg.norm(d, axis=1), np.ones(n), 'unit', 'unit directions', atol=1e-10)
    c.close(np.linalg.norm(p, axis=1), np.ones(n), 'unit', 'unit polarization', atol=1e-10)
    c.close(np.sum(p * d, axis=1), np.zeros(n), 'perpendicular', 'polarization perpendicular to the ray', atol=1e-9)
    border = np.hypot(d[:, 0], d[:, 2])
    ok = (border > 1e-4) | (border < 1e-10)
    ang = np.asarray(t['polangle'])
    tol = 1e-8 + 1e-12 / np.maximum(border[ok], 1e-5)[:, None]
    c.check(np.abs(p - pol_expected(d, ang))[ok] < tol, 'polarization', 'polarization vector of the polarization angle')
    c.count('polarized', int(ok.sum()))
    c.count('photons', n)
    return d, p, x


def number(c, t, rate, T):
    c.check(abs(len(t) - rate * T) <= 1 + 1e-9 * rate * T, 'number', 'photons follow from rate and exposure', n=len(t), expected=rate * T)


@W(quick=220, thorough=3000)
def cone(c):
    from marxs.source import LabPointSourceCone
    rng = c.rng
    kw, T = {}, 10**rng.uniform(-1, 2)
    N = int(rng.choice([1, 1500, 1500]))
    rate = (N + .5) / T
    kw['flux'] = (rate / u.s).to([1 / u.s, 1 / u.h][rng.integers(2)])
    pos = np.zeros(3)
    if rng.uniform() < .8:
        pos = rng.normal(size=3) * 10**rng.uniform(-1, 4)
        kw['position'] = list(pos) if rng.uniform() < .5 else pos.copy()
    axis = np.array([1., 0, 0])
    if rng.uniform() < .9:
        axis = AXES[rng.integers(len(AXES))] if rng.uniform() < .6 else rng.normal(size=3)
        near = rng.uniform() < .3
        if near:   # close to one of the coordinate axes or planes
            axis = (gen.unit(np.asarray(AXES[rng.integers(len(AXES))], float)) if rng.uniform() < .5 else np.array([0, 0, rng.choice([-1., 1.])])) + gen.unit(rng.normal(size=3)) * 10**rng.uniform(-6, -1)
            c.count('near_axis')
        axis = axis * 10**rng.uniform(-2, 2)
        kw['direction'] = list(axis) if rng.uniform() < .5 else axis.copy()
        c.count('axis_cases')
    kind = rng.choice([0, 1, 2, 3, 4], p=[.2, .3, .15, .2, .15])
    half = [np.pi, 10**rng.uniform(-4, -2), np.pi / 2, rng.uniform(.01, 1.), rng.uniform(1., np.pi)][kind]
    if kind != 0 or rng.uniform() < .5:
        kw['half_opening'] = half
    c.count({0: 'full_sphere', 1: 'narrow'}.get(int(kind), 'cones'))
    c.note(pos=pos, axis=axis, half=half, rate=rate, T=T)
    keep = {k: np.array(v) for k, v in kw.items() if k in ('position', 'direction')}
    s = LabPointSourceCone(energy=1. * u.keV, **kw)
    t = s.generate_photons(T * u.s)
    number(c, t, rate, T)
    for k, v in keep.items():
        c.check(np.array_equal(np.asarray(kw[k]), v), 'input', f'{k} not modified')
    d, p, x = common(c, t)
    c.check(np.all(x == pos), 'position', 'photons start at the source')
    a = axis / np.linalg.norm(axis)
    ang = np.arctan2(np.linalg.norm(np.cross(d, a), axis=1), d @ a)
    c.check(ang <= half * (1 + 1e-6) + 1e-8, 'cone', 'directions inside the cone', worst=float(ang.max()))
    if N > 1:
        lim = np.sin(half / 2)**2
        q = np.sin(ang / 2)**2 / lim
        # solid angle inside angle a is proportional to sin^2(a/2)
        c.pvalue(stats.kstest(np.clip(q, 0, 1), 'uniform').pvalue, 'solid-angle', 'uniform in solid angle')
        e1 = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
        e1 /= np.linalg.norm(e1)
        az = np.arctan2(d @ np.cross(a, e1), d @ e1) / 2 / np.pi % 1
        c.pvalue(stats.kstest(az, 'uniform').pvalue, 'azimuth', 'uniform in azimuth')
        c.pvalue(stats.spearmanr(q, az).pvalue, 'independent', 'angle and azimuth independent')
        c.pvalue(stats.spearmanr(q, np.arange(len(q))).pvalue, 'independent', 'angle does not depend on time')
        c.count('statistical', 4)


@W(quick=60, thorough=2000)
def far(c):
    from marxs.source import FarLabPointSource
    rng = c.rng
    N = int(rng.choice([1, 1500, 1500]))
    T = 10**rng.uniform(-1, 2)
    rate = (N + .5) / T
    if rng.uniform() < .5:
        p4 = gen.pose(rng)
        geo = {'pos4d': p4}
    else:
        from transforms3d.affines import compose
        R, z, ctr = gen.rot(rng), 10**rng.uniform(-1, 2, 3), rng.normal(size=3) * 10
        p4 = compose(ctr, R, z)
        geo = {'position': ctr, 'orientation': R, 'zoom': z}
    ctr, ax, half = gen.frame(p4)
    dist = half.max() * 10**rng.uniform(.1, 4)
    off = gen.unit(rng.normal(size=3))
    if abs(off @ ax[:, 0]) < .05:
        off = gen.unit(off + ax[:, 0])
    src = ctr + dist * off
    src_in = list(src) if rng.uniform() < .5 else src.copy()
    c.note(p4=p4, src=src, rate=rate, T=T)
    s = FarLabPointSource(src_in, flux=rate / u.s, energy=2 * u.keV, **geo)
    t = s.generate_photons(T * u.s)
    number(c, t, rate, T)
    d, p, x = common(c, t)
    loc = (x - ctr) @ ax / half
    scale = np.abs(ctr).max() / half.min() + 1
    c.check(np.abs(loc[:, 0]) * half[0] < 1e-10 * (np.abs(ctr).max() + half.max()), 'aperture', 'photons start in the aperture plane')
    c.check(np.abs(loc[:, 1:]) <= 1 + 1e-11 * scale, 'aperture', 'photons start inside the aperture')
    want = x - src
    want /= np.linalg.norm(want, axis=1)[:, None]
    c.close(d, want, 'line', 'photon travels on the line from the source', atol=1e-9)
    c.count('far')
    if N > 1:
        for i in (1, 2):
            c.pvalue(stats.kstest(np.clip((loc[:, i] + 1) / 2, 0, 1), 'uniform').pvalue, 'uniform', 'aperture is illuminated uniformly')
        c.pvalue(stats.spearmanr(loc[:, 1], loc[:, 2]).pvalue, 'independent', 'coordinates independent')
        c.count('statistical', 3)


@W(quick=6, thorough=50)
def reject(c):
    from marxs.source import LabPointSourceCone
    rng = c.rng
    c.raises(ValueError, lambda: LabPointSourceCone(position=rng.normal(size=4)), 'reject', 'position not euclidean')
    c.raises(ValueError, lambda: LabPointSourceCone(direction=rng.normal(size=[2, 4][rng.integers(2)])), 'reject', 'direction not euclidean')
    c.count('rejected', 2)


@W(quick=20, thorough=300)
def defaults(c):
    """rate of one photon per second unless given; angle as quantity; polarized flux"""
    from marxs.source import FarLabPointSource, LabPointSourceCone
    rng = c.rng
    n = int(rng.integers(1, 200))
    pol = rng.uniform(0, 360) * u.deg
    if rng.uniform() < .5:
        s = LabPointSourceCone(half_opening=[.3, .3 * u.rad, 17. * u.deg][rng.integers(3)], polarization=pol, direction=rng.normal(size=3))
    else:
        s = FarLabPointSource([1000., rng.normal(), rng.normal()], polarization=pol)
    t = s.generate_photons((n - .5) * u.s)
    c.check(len(t) == n, 'default-rate', 'default rate is one per second', n=len(t), want=n)
    c.close(np.asarray(t['polangle']), np.full(n, pol.to_value(u.rad)), 'polangle', 'constant polarization angle', atol=1e-12)
    common(c, t)
