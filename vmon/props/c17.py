"""C17: pointing maps the sky rigidly into the instrument frame."""
import os
import tempfile

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord
from astropy.table import Table
from scipy import stats

from vmon import gen
from scipy.spatial.transform import Rotation

from vmon.core import Registry

W = Registry('C17', rule='sky positions and polarization angles were sent through a real pointing and compared to spherical trigonometry',
             require={'photons': 20000, 'statistical': 40, 'frames': 4, 'poles': 10, 'dithered': 2000, 'transforms': 20, 'asol': 4, 'rejected': 5},
             assumptions=['x points to the target, roll is the position angle of the z axis',
                          'jitter turns the spacecraft around axes perpendicular to the optical axis; angle is gaussian'])

POS = [(0., 0.), (359.9999, 10.), (0.0001, -20.), (180., 45.), (120., 89.5), (30., -89.), (77., 90.), (200., -90.), (266., -29.)]


def vec(ra, dec):
    ra, dec = np.deg2rad(ra), np.deg2rad(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]).T


def triad(ra, dec):
    """direction to, east and north; vectorised"""
    ra = np.atleast_1d(np.asarray(ra, float))
    dec = np.atleast_1d(np.asarray(dec, float))
    r = vec(ra, dec)
    a = np.deg2rad(ra)
    e = np.stack([-np.sin(a), np.cos(a), np.zeros(len(a))], -1)
    return r, e, np.cross(r, e)


def inst(ra, dec, roll):
    """matrices (n, 3, 3) from celestial to instrument coordinates"""
    r, e, n = triad(ra, dec)
    roll = np.atleast_1d(roll)[:, None]
    z = np.cos(roll) * n + np.sin(roll) * e
    return np.stack([r, np.cross(z, r), z], -2)


def target(c, poles=True):
    rng = c.rng
    if rng.uniform() < .5:
        ra, dec = POS[rng.integers(len(POS))]
    else:
        ra, dec = rng.uniform(0, 360), np.rad2deg(np.arcsin(rng.uniform(-1, 1)))
    if not poles:
        dec = np.clip(dec, -85, 85)
    coo = SkyCoord(ra, dec, unit='deg')
    frame = ['icrs', 'icrs', 'fk5', 'galactic', 'fk4'][rng.integers(5)]
    if abs(dec) > 88:
        c.count('poles')
        frame = 'icrs'
    if frame != 'icrs':
        coo = coo.transform_to(frame)
    c.seen('frames', frame)
    c.mon.counts['frames'] = len(c.mon.distinct['frames'])
    return coo, ra, dec


def roll_angle(rng):
    r = rng.uniform(-180, 360) if rng.uniform() < .7 else rng.choice([0., 90., 180., -90., 360.])
    q = r * u.deg
    return (q if rng.uniform() < .5 else q.to(u.rad)), np.deg2rad(r)


def photons(rng, n, ra0, dec0, wide=True):
    k = rng.integers(3) if wide else 0
    if k == 0:      # near the target
        v = vec(ra0, dec0) + rng.normal(size=(n, 3)) * 10**rng.uniform(-5, -1)
        v /= np.linalg.norm(v, axis=1)[:, None]
        ra, dec = np.rad2deg(np.arctan2(v[:, 1], v[:, 0])) % 360, np.rad2deg(np.arcsin(np.clip(v[:, 2], -1, 1)))
    else:
        ra, dec = rng.uniform(0, 360, n), np.rad2deg(np.arcsin(rng.uniform(-1, 1, n)))
    if n:
        ra[0], dec[0] = ra0, dec0
    pol = rng.uniform(0, 2 * np.pi, n)
    t = Table({'ra': ra, 'dec': dec, 'time': np.sort(rng.uniform(0, 2000, n)), 'energy': np.ones(n), 'probability': np.ones(n)})
    unit = rng.integers(3)
    t['polangle'] = np.rad2deg(pol) if unit == 1 else pol
    if unit < 2:
        t['polangle'].unit = [u.rad, u.deg][unit]
    t['time'].unit, t['energy'].unit = u.s, u.keV
    t['ra'].unit = t['dec'].unit = u.deg
    return t, ra, dec, pol


def expected(ra, dec, pol, M, ref):
    r, e, n = triad(ra, dec)
    p = np.cos(pol)[:, None] * n + np.sin(pol)[:, None] * e
    f = lambda v: np.einsum('ij,...jk,...k->...i', ref, M, v)
    return f(-r), f(p)


def untouched(c, t, out):
    c.check(len(t) == len(out), 'number', 'photons kept')
    for k in t.colnames:
        c.check(np.array_equal(np.asarray(t[k]), np.asarray(out[k])), 'untouched', f'column {k} not changed')


def valid(c, out):
    d, p = np.asarray(out['dir']), np.asarray(out['polarization'])
    n = len(out)
    # the polarization of photons from the celestial pole itself is not defined (documented)
    c.check(d.shape == (n, 4) and p.shape == (n, 4), 'shape', 'homogeneous vectors')
    c.check(np.all(d[:, 3] == 0) and np.all((p[:, 3] == 0) | ~np.isfinite(p[:, 0])), 'direction', 'last component is zero')
    c.close(np.linalg.norm(d, axis=1), np.ones(n), 'unit', 'unit direction', atol=1e-10)
    return d[:, :3], p[:, :3]


def ref_transform(c):
    if c.rng.uniform() < .5:
        return np.eye(4), {}
    R = np.eye(4)
    R[:3, :3] = gen.rot(c.rng)
    c.count('transforms')
    return R, {'reference_transform': R}


@W(quick=150, thorough=12000)
def fixed(c):
    from marxs.source import FixedPointing
    rng = c.rng
    coo, ra0, dec0 = target(c)
    q, roll = roll_angle(rng)
    ref, kw = ref_transform(c)
    if rng.uniform() < .8:
        kw['roll'] = q
    else:
        roll = 0.
    n = int(rng.choice([0, 1, 300]))
    t, ra, dec, pol = photons(rng, n, ra0, dec0)
    c.note(ra=ra0, dec=dec0, roll=roll, frame=coo.frame.name, n=n)
    p = FixedPointing(coords=coo, **kw)
    out = p(t.copy())
    untouched(c, t, out)
    d, po = valid(c, out)
    ed, ep = expected(ra, dec, pol, inst(ra0, dec0, roll)[0], ref[:3, :3])
    c.close(d, ed, 'direction', 'direction of photons from the sky', atol=3e-9)
    polar = np.abs(dec) < 89.9
    c.close(np.sum(d * po, axis=1)[polar], np.zeros(polar.sum()), 'perpendicular', 'polarization perpendicular to the ray', atol=1e-9)
    tol = 3e-9 / np.cos(np.deg2rad(dec[polar]))[:, None]
    c.check(np.abs(po - ep)[polar] < tol, 'polarization', 'polarization angle counts from north through east', worst=float(np.max(np.abs(po - ep)[polar], initial=0)))
    for k, v in [('RA_PNT', ra0), ('DEC_PNT', dec0), ('ROLL_PNT', np.rad2deg(roll)), ('RA_NOM', ra0), ('DEC_NOM', dec0), ('ROLL_NOM', np.rad2deg(roll))]:
        got = out.meta[k][0]
        diff = (got - v + 180) % 360 - 180
        if k[0:2] == 'RA' and abs(dec0) > 89.99:
            continue
        c.check(abs(diff) < 1e-6 / max(np.cos(np.deg2rad(dec0)), 1e-3), 'header', f'{k} in the header', got=got, want=v)
    if n > 1:
        s1 = vec(ra, dec) @ vec(ra, dec).T
        c.close(d @ d.T, s1, 'rigid', 'angular separations are preserved', atol=1e-9)
        c.close(d[0], -ref[:3, 0], 'aim', 'the target travels along the optical axis', atol=3e-9)
    c.count('photons', n)


@W(quick=40, thorough=3000)
def jitter(c):
    from marxs.source import FixedPointing, JitterPointing
    rng = c.rng
    coo, ra0, dec0 = target(c)
    q, roll = roll_angle(rng)
    ref, kw = ref_transform(c)
    sig = 10**rng.uniform(-6, -2)
    n = 3000
    t, ra, dec, pol = photons(rng, n, ra0, dec0)
    onaxis = rng.uniform() < .6
    if onaxis:
        t['ra'], t['dec'] = ra0, dec0
        t['ra'].unit = t['dec'].unit = u.deg
    amp = (sig * u.rad).to([u.rad, u.arcsec, u.deg][rng.integers(3)]) * rng.choice([1, 1, -1])
    c.note(ra=ra0, dec=dec0, sig=sig, roll=roll, onaxis=bool(onaxis), ref=ref)
    f = FixedPointing(coords=coo, roll=q, **kw)(t.copy())
    j = JitterPointing(coords=coo, roll=q, jitter=amp, **kw)(t.copy())
    untouched(c, t, j)
    d, p = valid(c, j)
    d0, p0 = valid(c, f)
    ok = np.abs(np.asarray(t['dec'])) < 89.9
    c.close(np.sum(d * p, axis=1)[ok], np.zeros(ok.sum()), 'perpendicular', 'polarization perpendicular after jitter', atol=1e-9)
    c.close(np.sum(p * p, axis=1)[ok], np.ones(ok.sum()), 'unit', 'polarization stays normalised', atol=1e-9)
    dev = np.linalg.norm(d - d0, axis=1)
    c.check(dev < 6.8 * sig + 1e-9, 'amplitude', 'deflection compatible with the width', worst=float(dev.max() / sig))
    # rotation around the cross product of the rays also moves the polarization
    z = JitterPointing(coords=coo, roll=q, jitter=0 * u.arcsec, **kw)(t.copy())
    c.close(np.asarray(z['dir']), np.asarray(f['dir']), 'zero', 'no jitter is a fixed pointing', atol=1e-13)
    c.close(np.asarray(z['polarization']), np.asarray(f['polarization']), 'zero', 'no jitter keeps polarization', atol=1e-13)
    if onaxis:
        c.count('statistical', 4)
        ang = 2 * np.arcsin(np.clip(dev / 2, 0, 1))
        c.pvalue(stats.kstest(ang / sig, 'halfnorm').pvalue, 'amplitude', 'deflection is gaussian')
        y, zz = d @ ref[:3, 1], d @ ref[:3, 2]
        phi = np.arctan2(zz, y)
        c.pvalue(stats.kstest((phi / 2 / np.pi) % 1, 'uniform').pvalue, 'azimuth', 'deflection is isotropic around the optical axis')
        # consecutive photons independent
        c.pvalue(stats.spearmanr(phi[:-1], phi[1:]).pvalue, 'independent', 'jitter of consecutive photons independent')
        c.pvalue(stats.spearmanr(ang, phi).pvalue, 'independent', 'amplitude and azimuth independent')
        if ok.all():
            # rigid rotation of (dir, pol): angle of turn of pol around old dir-plane
            a = np.cross(d0, d)
            na = np.linalg.norm(a, axis=1)
            g = na > 1e-3 * sig
            a = a[g] / na[g][:, None]
            co, si = np.sum(d * d0, axis=1)[g][:, None], na[g][:, None]
            want = p0[g] * co + np.cross(a, p0[g]) * si + a * np.sum(a * p0[g], axis=1)[:, None] * (1 - co)
            c.close(p[g], want, 'together', 'polarization turns with the direction', atol=1e-9)
    else:
        # moved in the plane perpendicular to an axis in the aperture plane: deflection of photon scales with its distance from that axis
        x = ref[:3, 0]
        perp = np.linalg.norm(np.cross(d0, x), axis=1)
        mean = np.mean(dev**2 / sig**2 / (1 - perp**2 / 2))
        c.check(abs(mean - 1) < 7 * np.sqrt(4. / n) + 3 * sig, 'off-axis', 'mean square deflection off axis', mean=mean)
    c.count('photons', n)


@W(quick=50, thorough=3000)
def dither(c):
    from marxs.missions.chandra import LissajousDither
    from marxs.source import FixedPointing
    rng = c.rng
    coo, ra0, dec0 = target(c, poles=False)
    dec0c = dec0
    q, roll = roll_angle(rng)
    ref, kw = ref_transform(c)
    n = int(rng.choice([0, 1, 100, 100]))
    t, ra, dec, pol = photons(rng, n, ra0, dec0, wide=rng.uniform() < .5)
    if rng.uniform() < .4:
        amp = np.zeros(3)
    else:
        amp = rng.uniform(0, 40, 3) * (rng.uniform(size=3) < .7)
    per, ph = 10**rng.uniform(1, 5, 3), rng.uniform(0, 2 * np.pi, 3) * (rng.uniform() < .5)
    c.note(ra=ra0, dec=dec0, roll=roll, amp=amp, period=per, phase=ph, n=n)
    A = (amp * u.arcsec).to([u.arcsec, u.rad][rng.integers(2)])
    L = LissajousDither(coords=coo, roll=q, DitherAmp=A, DitherPeriod=per * u.s, DitherPhase=ph * u.rad, **kw)
    out = L(t.copy())
    untouched(c, t, out)
    d, p = valid(c, out)
    time = np.asarray(t['time'])
    a = np.deg2rad(amp / 3600)
    off = a * np.sin(2 * np.pi * time[:, None] / per + ph)          # angles on the sky at time t, in instrument y, z; roll
    # pointing as function of time
    P = np.asarray(L.pointing(time)).reshape(-1, 3)
    if n:
        # MARX (and the recorded MARX aspect solution in the repository) turns the pattern against the roll
        v = np.einsum('ijk,ik->ij', inst(np.full(n, ra0), np.full(n, dec0), -(roll + off[:, 2])), vec(np.rad2deg(P[:, 0]), np.rad2deg(P[:, 1])))
        second = 3 * (a.max() + 1e-12)**2 / np.cos(np.deg2rad(dec0))**2 + 1e-8
        c.check(np.abs(v[:, 1] - off[:, 0]) < second, 'lissajous', 'first dither coordinate', worst=float(np.abs(v[:, 1] - off[:, 0]).max()), allowed=second)
        c.check(np.abs(v[:, 2] - off[:, 1]) < second, 'lissajous', 'second dither coordinate')
        dr = (P[:, 2] - roll - off[:, 2] + np.pi) % (2 * np.pi) - np.pi
        c.close(dr, np.zeros(n), 'lissajous', 'roll dither', atol=1e-9)
        M = inst(np.rad2deg(P[:, 0]), np.rad2deg(P[:, 1]), P[:, 2])
        ed, ep = expected(ra, dec, pol, M, ref[:3, :3])
        c.close(d, ed, 'direction', 'each photon sees the pointing of its arrival time', atol=1e-8)
    ok = np.abs(dec) < 80
    c.close(np.sum(d * p, axis=1)[ok], np.zeros(ok.sum()), 'perpendicular', 'polarization perpendicular', atol=1e-9)
    if n:
        allow = 1e-8 + 4 * a.sum() / np.cos(np.deg2rad(dec0)) / np.cos(np.deg2rad(dec[ok]))[:, None]
        c.check(np.abs(p - ep)[ok] < allow, 'polarization', 'polarization follows the sky within the dither angle')
    if not amp.any():
        f = FixedPointing(coords=coo, roll=q, **kw)(t.copy())
        c.close(d, np.asarray(f['dir'])[:, :3].reshape(-1, 3), 'zero', 'no dither is a fixed pointing', atol=1e-8)
    c.count('dithered', n)


@W(quick=6, thorough=60)
def asol(c):
    from marxs.missions.chandra import LissajousDither
    rng = c.rng
    coo, ra0, dec0 = target(c, poles=False)
    q, roll = roll_angle(rng)
    L = LissajousDither(coords=coo, roll=q)
    t, *_ = photons(rng, 5, ra0, dec0)
    T = rng.uniform(50, 400)
    t.meta['EXPOSURE'] = (T, 'exposure')
    out = L(t)
    step = rng.uniform(.2, 3)
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'asol.fits')
        L.write_asol(out, f, timestep=step)
        a = Table.read(f)
    n = len(np.arange(0, T, step))
    c.check(len(a) == n, 'asol', 'one row for each time step')
    rel = np.asarray(a['time']) - a['time'][0]
    tstart = a.meta.get('TSTART')
    if tstart is not None:
        c.close(float(a['time'][0]), float(np.atleast_1d(tstart)[0]), 'asol', 'times start at the start of the observation', rtol=0, atol=1e-4)
        c.count('asol starts')
    c.close(rel, np.arange(n) * step, 'asol', 'time steps', atol=1e-5)
    P = L.pointing(np.arange(n) * step)
    c.close(np.array([a['ra'], a['dec'], a['roll']]).T, np.rad2deg(P), 'asol', 'pointing in the aspect solution in degrees', atol=1e-9)
    # quaternion turns x towards the pointing direction
    qu = np.asarray(a['q_att'])
    c.close(np.linalg.norm(qu, axis=1), np.ones(n), 'asol', 'unit quaternions', atol=1e-9)
    # scalar last, as in the aspect solution that MARX writes: x is the direction of the pointing, z is turned from North to West by the roll angle
    A = Rotation.from_quat(qu).as_matrix()
    pd = np.array([np.cos(P[:, 1]) * np.cos(P[:, 0]), np.cos(P[:, 1]) * np.sin(P[:, 0]), np.sin(P[:, 1])]).T
    c.close(A[:, :, 0], pd, 'attitude', 'the attitude turns the x axis to the pointing direction', rtol=0, atol=1e-9)
    north = np.array([-np.sin(P[:, 1]) * np.cos(P[:, 0]), -np.sin(P[:, 1]) * np.sin(P[:, 0]), np.cos(P[:, 1])]).T
    west = np.array([np.sin(P[:, 0]), -np.cos(P[:, 0]), 0 * P[:, 0]]).T
    c.close(A[:, :, 2], np.cos(P[:, 2:]) * north + np.sin(P[:, 2:]) * west, 'attitude', 'the attitude has the roll of the aspect solution', rtol=0, atol=1e-9)
    c.count('asol')


@W(quick=8, thorough=40)
def reject(c):
    from marxs.source import FixedPointing, JitterPointing
    for cls, kw in [(FixedPointing, {}), (JitterPointing, {'jitter': 1 * u.arcsec})]:
        c.raises(ValueError, lambda: cls(coords=SkyCoord(c.rng.uniform(0, 90, 2), [1, 2], unit='deg'), **kw), 'reject', 'several targets')
        c.count('rejected')
