"""C13: scattering deflects by the stated random angles in the stated planes."""
import numpy as np
import astropy.units as u
from scipy import stats

from vmon import gen
from vmon.core import Registry

W = Registry('C13', rule='deflections behind real scattering elements were measured from the directions and compared to the recorded angles and their nominal distribution',
             require={'radial': 8000, 'isotropic': 10000, 'statistical': 200, 'zero_width': 1500, 'custom': 1500,
                      'on_axis': 300},
             assumptions=['sign of the recorded angles is a convention that must be the same for all photons',
                          'rays through the centre of the element have no plane of reflection; any plane is accepted'])


def angle(a, b):
    a, b = gen.unit(a), gen.unit(b)
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=1), np.einsum('ij,ij->i', a, b))


def one_sign(c, got, rec, mech, msg, atol=2e-8):
    """got == rec or got == -rec, same choice for the whole list"""
    e = min(np.max(np.abs(got - rec)), np.max(np.abs(got + rec)))
    k = np.argmax(np.minimum(np.abs(got - rec), np.abs(got + rec)))
    c.check(e <= atol, mech, msg, worst=e, got=got[k], recorded=rec[k])


def gauss(c, x, sig, msg, mech='distribution'):
    c.count('statistical', 2)
    c.pvalue(stats.kstest(x / sig, 'norm').pvalue, mech, f'{msg}: Gaussian of the requested width')
    c.pvalue(2 * stats.norm.sf(abs(x.mean()) / sig * np.sqrt(len(x))), mech, f'{msg}: zero mean')


def physical(c, o, sel, msg):
    d, pol = o['dir'].data[sel], o['polarization'].data[sel]
    c.close(d[:, 3], 0., 'homogeneous', f'{msg}: directions are vectors', atol=1e-14)
    c.close(o['pos'].data[sel][:, 3], 1., 'homogeneous', f'{msg}: positions are points', atol=1e-9)
    c.close(pol[:, 3], 0., 'homogeneous', f'{msg}: polarizations are vectors', atol=1e-14)
    c.close(np.linalg.norm(pol[:, :3], axis=1), 1., 'polarization', f'{msg}: polarizations have unit length', atol=1e-7)
    c.close(np.einsum('ij,ij->i', gen.unit(d[:, :3]), pol[:, :3]), 0., 'polarization', f'{msg}: polarizations are perpendicular to the rays', atol=1e-7)


def untouched(c, t0, o, sel, msg):
    for k in ('dir', 'polarization', 'pos', 'probability'):
        c.same(o[k][sel], t0[k][sel], 'missed', f'{msg}: {k} of photons that miss')


def radial_angles(cen, p, d):
    """polar angle from, and azimuth around, the line from the centre to the photon"""
    r = gen.unit(p - cen)
    return r, angle(d, r)


UNITS = [u.arcsec, u.rad, u.deg, u.arcmin]


@W(quick=60, thorough=800)
def radial(c):
    from marxs.optics import RadialMirrorScatter
    rng = c.rng
    p4 = gen.pose(rng)
    cen = p4[:3, 3]
    n = 400
    si, sp = 10**rng.uniform(-6, -2, 2)
    mode = c.idx % 4
    if mode == 1:
        si = 0.
    elif mode == 2:
        sp = 0.
    elif mode == 3 and rng.uniform() < .3:
        si = sp = 0.
    kw = dict(inplanescatter=(si * u.rad).to(UNITS[rng.integers(4)]))
    if sp or rng.uniform() < .5:
        kw['perpplanescatter'] = (sp * u.rad).to(UNITS[rng.integers(4)])
    el = RadialMirrorScatter(pos4d=p4, **kw)
    t = gen.aim(rng, p4, n, maxangle=.6, spread=1.1)
    # most photons were just on the surface of a mirror, i.e. at a finite distance from the axis
    if rng.uniform() < .5:
        t['dir'] *= rng.uniform(.3, 3, (n, 1))
    t0 = t.copy()
    o = el(t)
    dec, hit = gen.ref_hits(p4, t0)
    c.note(pose=p4, inplane=si, perp=sp)
    untouched(c, t0, o, dec & ~hit, 'radial')
    hit &= dec
    a, b = np.asarray(o['inplanescatter'])[hit], np.asarray(o['perpplanescatter'])[hit]
    P, D0, D = t0['pos'].data[hit, :3], t0['dir'].data[hit, :3], o['dir'].data[hit, :3]
    r = gen.unit(P - cen)
    pol0, pol1 = angle(D0, r), angle(D, r)
    good = (pol0 > .05) & (pol0 < np.pi - .05)     # ray well separated from the radial direction
    if good.any():
        one_sign(c, (pol1 - pol0)[good], a[good], 'inplane', 'angle in the plane of ray and centre is the recorded one')
        e0 = D0 - np.einsum('ij,ij->i', D0, r)[:, None] * r
        e1 = D - np.einsum('ij,ij->i', D, r)[:, None] * r
        az = np.arctan2(np.einsum('ij,ij->i', r, np.cross(e0, e1)), np.einsum('ij,ij->i', e0, e1))
        one_sign(c, az[good], b[good], 'outofplane', 'rotation out of the plane of ray and centre is the recorded one')
        c.count('radial', good.sum())
    physical(c, o, hit, 'radial')
    if si == 0:
        c.close(a, 0., 'zero', 'zero in-plane width', atol=0)
        c.count('zero_width', len(a))
    if sp == 0:
        c.close(b, 0., 'zero', 'zero out-of-plane width', atol=0)
        c.count('zero_width', len(b))
    if si == 0 and sp == 0:
        c.close(gen.unit(D), gen.unit(D0), 'zero', 'zero width leaves directions unchanged', atol=1e-12)
    c.close(np.asarray(o['probability']), np.asarray(t0['probability']), 'probability', 'scatter does not absorb', rtol=1e-14)
    if len(a) > 50:
        if si:
            gauss(c, a, si, 'in-plane')
        if sp:
            gauss(c, b, sp, 'out-of-plane')
        if si and sp:
            c.count('statistical')
            c.pvalue(stats.spearmanr(a, b).pvalue, 'independence', 'both angles are independent')


@W(quick=12, thorough=80)
def on_axis(c):
    """rays straight through the centre"""
    from marxs.optics import RadialMirrorScatter
    rng = c.rng
    p4 = gen.pose(rng)
    cen, ax, z = gen.frame(p4)
    n = 60
    s = 1e-3
    el = RadialMirrorScatter(pos4d=p4, inplanescatter=s * u.rad, perpplanescatter=(0 if c.idx % 2 else s) * u.rad)
    d = gen.unit(ax[:, 0] + .3 * rng.normal(size=(n, 3)))
    dist = rng.uniform(1, 100, n)
    dist[::3] = 0.
    t = gen.table(rng, cen - dist[:, None] * d, d)
    t0 = t.copy()
    o = el(t)
    c.note(pose=p4)
    _, hit = gen.ref_hits(p4, t0)
    D = o['dir'].data[:, :3]
    c.check(np.isfinite(D).all() and np.isfinite(o['polarization'].data).all(), 'centre-finite', 'rays through the centre have a direction')
    c.check(angle(D, d) < 10 * s, 'centre-small', 'rays through the centre are scattered by small angles')
    x = np.hypot(np.asarray(o['inplanescatter']), np.asarray(o['perpplanescatter']))
    fin = np.isfinite(x)
    c.close(angle(D, d)[fin], x[fin], 'centre-angle', 'deflection agrees with the recorded angles', rtol=.05, atol=1e-6)
    c.count('on_axis', n)


@W(quick=60, thorough=800)
def isotropic(c):
    from marxs.optics import RandomGaussianScatter
    rng = c.rng
    p4 = gen.pose(rng)
    n = 400
    sig = 10**rng.uniform(-6, -1)
    mode = c.idx % 5
    if mode == 1:
        sig = 0.
    rec = []
    width = (sig * u.rad).to(UNITS[rng.integers(4)])
    if mode == 2:
        def func(photons, intersect, interpos, intercoos):
            a = rng.normal(size=intersect.sum()) * sig
            rec.append((np.array(a), np.array(intersect), np.array(interpos), np.array(intercoos)))
            return (a * u.rad).to(UNITS[rng.integers(4)])
        el = RandomGaussianScatter(pos4d=p4, scatter=func)
    elif mode == 3:
        class Mine(RandomGaussianScatter):
            scatter = width
            scattername = 'wobble'
        el = Mine(pos4d=p4)
    else:
        el = RandomGaussianScatter(pos4d=p4, scatter=width)
    col = 'wobble' if mode == 3 else 'scatter'
    t = gen.aim(rng, p4, n, spread=1.1)
    if rng.uniform() < .3:     # along the axes of the coordinate system
        ax = np.eye(3)[rng.integers(0, 3)] * rng.choice([-1, 1])
        t['pos'][:, :3] = gen.aim_points(rng, p4, n)[0] - 5 * ax
        t['dir'][:, :3] = ax
        t['polarization'][:, :3] = gen.perp_pol(rng, t['dir'].data[:, :3])
    t0 = t.copy()
    o = el(t)
    c.note(pose=p4, sigma=sig, mode=mode)
    dec, hit = gen.ref_hits(p4, t0)
    untouched(c, t0, o, dec & ~hit, 'isotropic')
    hit &= dec
    if not hit.any():
        c.skip()
    D0, D = t0['dir'].data[hit, :3], o['dir'].data[hit, :3]
    a = np.asarray(o[col])[hit]
    c.close(angle(D0, D), np.abs(a), 'deflection', 'deflection is the recorded angle', rtol=1e-7, atol=3e-8)
    c.count('isotropic', hit.sum())
    physical(c, o, hit, 'isotropic')
    c.close(np.asarray(o['probability']), np.asarray(t0['probability']), 'probability', 'scatter does not absorb', rtol=1e-14)
    if mode == 1:
        c.close(a, 0., 'zero', 'zero width', atol=0)
        c.close(gen.unit(D), gen.unit(D0), 'zero', 'zero width leaves directions unchanged', atol=1e-12)
        c.count('zero_width', hit.sum())
        return
    if mode == 2:
        c.check(len(rec) == 1, 'custom', 'function is called once')
        full = np.full(n, np.nan)
        full[rec[0][1]] = rec[0][0]
        c.close(np.abs(np.asarray(o[col])), np.abs(full), 'custom', 'angles of the function are used', rtol=1e-9, atol=1e-15)
        c.check(rec[0][1][dec] == hit[dec], 'custom', 'function is told which photons hit')
        c.close(rec[0][2][hit], o['pos'].data[hit], 'custom', 'function receives the points of impact', atol=1e-6)
        c.count('custom', hit.sum())
    if hit.sum() < 60:
        return
    if mode != 2:
        gauss(c, a, sig, 'isotropic')
    # azimuth in a frame of the test's own
    d = gen.unit(D0)
    g = gen.unit(np.array([.31, -.52, .79]))
    e1 = gen.unit(np.cross(d, g))
    e2 = np.cross(d, e1)
    delta = D - d * np.einsum('ij,ij->i', D, d)[:, None]
    az = np.arctan2(np.einsum('ij,ij->i', delta, e2), np.einsum('ij,ij->i', delta, e1))
    big = np.abs(a) > 1e-9
    c.count('statistical', 2)
    c.pvalue(stats.kstest(az[big] / (2 * np.pi) + .5, 'uniform').pvalue, 'azimuth', 'azimuth is uniform')
    c.pvalue(stats.kstest((2 * az[big] / (2 * np.pi)) % 1, 'uniform').pvalue, 'azimuth', 'azimuth is uniform (modulo pi)')
    c.count('statistical')
    c.pvalue(stats.spearmanr(az[big], np.abs(a)[big]).pvalue, 'azimuth', 'azimuth does not depend on the angle')


@W(quick=8, thorough=60)
def missing_and_override(c):
    from marxs.optics import RandomGaussianScatter
    c.raises(ValueError, lambda: RandomGaussianScatter(), 'missing', 'width is required')
    rng = c.rng

    class Mine(RandomGaussianScatter):
        scatter = 1e-6 * u.rad
    el = Mine(zoom=10, scatter=.01 * u.rad)
    n = 200
    t = gen.aim(rng, np.diag([10., 10, 10, 1]), n, spread=.9, away=0.)
    d0 = t['dir'].data[:, :3].copy()
    o = el(t)
    gauss(c, np.asarray(o['scatter']), .01, 'instance overrides the class')
    c.close(angle(d0, o['dir'].data[:, :3]), np.abs(np.asarray(o['scatter'])), 'deflection', 'deflection is the recorded angle', atol=3e-8)
    c.check(Mine.scatter == 1e-6 * u.rad, 'override', 'class default is unchanged')
    c.count('custom', n)


@W(quick=10, thorough=80)
def channels(c):
    """scatter limited to photons of certain mirror modules"""
    from marxs.missions.athena.spo import ScatterPerChannel
    rng = c.rng
    p4 = gen.pose(rng)
    n = 400
    s = 1e-4
    lo, hi = sorted(rng.integers(0, 20, 2))
    hi += 1
    el = ScatterPerChannel(pos4d=p4, min_id=lo, max_id=hi, inplanescatter=s * u.rad, perpplanescatter=s * u.rad)
    t = gen.aim(rng, p4, n, maxangle=.3, spread=3)
    t['xou'] = rng.integers(-1, 22, n)
    t0 = t.copy()
    o = el(t)
    x = np.asarray(t0['xou'])
    sel = (x >= lo) & (x < hi)
    c.note(lo=lo, hi=hi)
    for k in ('dir', 'polarization', 'pos', 'probability'):
        c.same(o[k][~sel], t0[k][~sel], 'channel', f'{k} of photons in other channels')
    c.same(o['pos'][sel], t0['pos'][sel], 'channel', 'scatter happens at the point of the last interaction')
    physical(c, o, sel, 'channel')
    if sel.any():
        c.check(angle(t0['dir'].data[sel, :3], o['dir'].data[sel, :3]) > 0, 'channel', 'photons of the channel are scattered')
        c.count('radial', sel.sum())
        if sel.sum() > 50:
            gauss(c, np.asarray(o['inplanescatter'])[sel], s, 'channel')
