"""C12: idealised mirrors image the sky onto the focal plane."""
import numpy as np
import astropy.units as u

from vmon import gen
from vmon.core import Registry

W = Registry('C12', rule='rays behind real lenses were extended to the predicted image point; survival probabilities were compared to the reflectivity at the measured deflection',
             require={'rays_focused': 8000, 'images': 200, 'reflectivity': 3000, 'thin_rays': 1500, 'thin_images': 50,
                      'segments': 3000, 'shells': 500},
             assumptions=['perfect lens: the image of a direction lies where the unbroken ray through the point of the optical axis '
                          'has travelled the focal length (spherical focal surface), as documented in the code',
                          'thin lens: deflection by (distance from centre)/(focal length), lens equation to first order in the angles'])


def miss(pos, d, p):
    """distance of the point p from the lines pos + s d"""
    d = gen.unit(d)
    v = p - pos
    return np.linalg.norm(v - np.einsum('ij,ij->i', v, d)[:, None] * d, axis=1)


def turned(d0, d1):
    d0, d1 = gen.unit(d0), gen.unit(d1)
    return np.arctan2(np.linalg.norm(np.cross(d0, d1), axis=1), np.einsum('ij,ij->i', d0, d1))


def cone(rng, axis, n, maxang):
    th = maxang * np.sqrt(rng.uniform(0, 1, n))
    ph = rng.uniform(0, 2 * np.pi, n)
    e2 = gen.unit(np.cross(axis, rng.normal(size=3)))
    e3 = np.cross(axis, e2)
    return np.cos(th)[:, None] * axis + np.sin(th)[:, None] * (np.cos(ph)[:, None] * e2 + np.sin(ph)[:, None] * e3)


@W(quick=300, thorough=2500)
def perfect(c):
    from marxs import optics
    rng = c.rng
    p4 = gen.pose(rng)
    cen, ax, z = gen.frame(p4)
    f = 10**rng.uniform(1.5, 4.5) * max(1., z[1:].max() / 30)
    off = rng.choice([0., rng.uniform(0, .4), -rng.uniform(0, .2)]) * f
    calls = []

    def refl(en, ang, grid=True):
        calls.append((np.array(en), np.array(ang), grid))
        return np.clip(.9 * np.exp(-np.asarray(ang) * 3) * (1 - .05 * np.asarray(en)), 0, 1)
    kw = {}
    if off:
        kw['d_center_optical_axis'] = off
    use = rng.uniform() < .7
    if use:
        kw['reflectivity_interpolator'] = refl
    lens = optics.PerfectLens(pos4d=p4, focallength=f, **kw)
    nsky, n = int(rng.integers(1, 6)), 40
    side = rng.choice([-1., 1.])
    sky = cone(rng, side * ax[:, 0], nsky, rng.choice([0., .05, .5]))
    which = rng.integers(0, nsky, n)
    tgt, loc = gen.aim_points(rng, p4, n, spread=1.15)
    if rng.uniform() < .3:
        tgt[0] = cen
    d = sky[which]
    back = rng.uniform(size=n) < .1
    dist = rng.uniform(1, 1000, n) * np.where(back, -1, 1)
    t = gen.table(rng, tgt - dist[:, None] * d, d)
    if rng.uniform() < .2:
        t['dir'] *= rng.uniform(.1, 5, (n, 1))
    t0 = t.copy()
    o = lens(t)
    dec, hit = gen.ref_hits(p4, t0)
    hit &= dec
    axis_point = cen - off * ax[:, 2]
    c.note(f=f, off=off, n=n, pose=p4, refl=use)
    if not hit.any():
        c.skip()
    P, D = o['pos'].data[hit, :3], o['dir'].data[hit, :3]
    F = axis_point + f * d[hit]
    c.check(np.isfinite(D).all(), 'finite', 'finite directions behind the lens')
    scale = f + np.abs(p4).max()
    c.close(miss(P, D, F), 0, 'focus', 'all rays of one direction pass through one point at the focal length', atol=1e-9 * scale)
    c.check(np.einsum('ij,ij->i', F - P, D) > 0, 'converging', 'rays travel towards the image')
    c.count('rays_focused', hit.sum())
    c.count('images', len(np.unique(which[hit])))
    # detection: image scale. Two directions map to points separated by f * 2 sin(angle / 2)
    ang = turned(t0['dir'].data[hit, :3], D)
    en = np.asarray(t0['energy'])[hit]
    want = np.asarray(t0['probability'])[hit].copy()
    if use:
        want *= (np.clip(.9 * np.exp(-ang / 4 * 3) * (1 - .05 * en), 0, 1))**2
        c.count('reflectivity', hit.sum())
        c.check(all(not k[2] for k in calls), 'reflectivity', 'reflectivity evaluated for the list of photons')
        if dec.all() and calls:
            c.close(np.concatenate([k[1] for k in calls]), ang / 4, 'grazing', 'grazing angle is a quarter of the deflection', rtol=1e-6, atol=1e-7)
            c.close(np.concatenate([k[0] for k in calls]), en, 'energy', 'energies handed to the reflectivity', rtol=1e-12)
    # arccos in the angle: 1e-8 rad is its resolution near zero deflection
    c.close(np.asarray(o['probability'])[hit], want, 'probability', 'reflectivity once per reflection', rtol=1e-6, atol=1e-9)
    m = dec & ~hit
    c.same(o['dir'][m], t0['dir'][m], 'missed', 'photons that miss keep their direction')
    c.same(o['probability'][m], t0['probability'][m], 'missed', 'photons that miss keep their probability')
    # polarization: parallel transported, i.e. component perpendicular to both directions is kept
    k = np.cross(gen.unit(t0['dir'].data[hit, :3]), gen.unit(D))
    ok = np.linalg.norm(k, axis=1) > 1e-6
    k = gen.unit(k[ok])
    c.close(np.einsum('ij,ij->i', k, o['polarization'].data[hit, :3][ok]),
            np.einsum('ij,ij->i', k, t0['polarization'].data[hit, :3][ok]), 'polarization',
            'polarization component perpendicular to the plane of reflection is kept', atol=1e-6)


@W(quick=30, thorough=300)
def through_centre(c):
    """rays through the centre of the lens are not broken and not attenuated more than at normal reflectivity"""
    from marxs import optics
    rng = c.rng
    p4 = gen.pose(rng)
    cen, ax, z = gen.frame(p4)
    n = 200
    d = cone(rng, ax[:, 0], n, 1.)
    t = gen.table(rng, cen - rng.uniform(1, 100, (n, 1)) * d, d)
    t0 = t.copy()
    thin = c.idx % 2
    if thin:
        o = optics.ThinLens(pos4d=p4, focallength=rng.uniform(100, 1e4))(t)
    else:
        o = optics.PerfectLens(pos4d=p4, focallength=rng.uniform(100, 1e4),
                               reflectivity_interpolator=lambda e, a, grid: .8 * np.exp(-np.asarray(a)))(t)
    c.note(pose=p4, thin=bool(thin))
    c.close(gen.unit(o['dir'].data[:, :3]), d, 'unbroken', 'direction of rays through the centre', atol=1e-9)
    c.close(np.asarray(o['probability']), np.asarray(t0['probability']) * (1. if thin else .64), 'central-probability',
            'probability of rays through the centre', rtol=1e-6)
    c.count('rays_focused', n)


@W(quick=120, thorough=800)
def thin(c):
    """deflection of single rays and the lens equation for point sources at any distance"""
    from marxs import optics
    rng = c.rng
    p4 = gen.pose(rng)
    cen, ax, z = gen.frame(p4)
    side = rng.choice([-1., 1.])
    axis = side * ax[:, 0]
    f = rng.uniform(300, 5000) * max(1., z[1:].max() / 10)
    lens = optics.ThinLens(pos4d=p4, focallength=f)
    n = 30
    t = gen.aim(rng, p4, n, side=side, maxangle=.9, spread=1.1)
    # a few rays close to the centre
    near = cen + (10**rng.uniform(-7, 0, (5, 1)) * gen.unit(rng.normal(size=(5, 2))) * z[1:].min()) @ ax[:, 1:].T
    t['pos'][:5, :3] = near - 7. * t['dir'].data[:5, :3]
    t0 = t.copy()
    o = lens(t)
    dec, hit = gen.ref_hits(p4, t0)
    hit &= dec
    P, D, D0 = o['pos'].data[hit, :3], o['dir'].data[hit, :3], t0['dir'].data[hit, :3]
    h = P - cen
    r = np.linalg.norm(h, axis=1)
    c.note(f=f, pose=p4)
    if hit.any():
        c.close(turned(D0, D), r / f, 'thin-angle', 'deflection is the distance from the centre over the focal length', rtol=1e-6, atol=1e-9)
        c.close(np.einsum('ij,ij->i', gen.unit(np.cross(D0, h)), D), 0, 'thin-plane', 'ray stays in the plane with the centre', atol=1e-7)
        c.check(np.einsum('ij,ij->i', D - D0, h) < 1e-12, 'thin-sign', 'ray is bent towards the centre')
        # the whole frame of the ray turns around the axis perpendicular to both directions
        k = np.cross(D0, D)
        s = np.linalg.norm(k, axis=1)
        w = s > 1e-6
        k = k[w] / s[w, None]
        p0, p1 = t0['polarization'].data[hit, :3][w], o['polarization'].data[hit, :3][w]
        dot = lambda a, b: np.einsum('ij,ij->i', a, b)
        c.close(dot(p1, k), dot(p0, k), 'thin-polarization', 'component perpendicular to the plane of deflection is kept', atol=1e-6)
        c.close(dot(p1, np.cross(k, gen.unit(D[w]))), dot(p0, np.cross(k, gen.unit(D0[w]))), 'thin-polarization',
                'component in the plane of deflection turns with the ray', atol=1e-6)
        c.close(np.asarray(o['probability'])[hit], np.asarray(t0['probability'])[hit], 'thin-probability', 'no absorption', rtol=1e-12)
        c.count('thin_rays', hit.sum())
    # imaging: object at distance a, image at distance b, 1/a + 1/b = 1/f, lateral magnification -b/a
    n = 60
    eps = 1e-3
    a = f * rng.choice([1.2, 2., 5., 1e3])
    b = 1 / (1 / f - 1 / a)
    e2, e3 = ax[:, 1], ax[:, 2]
    yo = rng.uniform(-1, 1, 2) * eps * a
    src = cen - a * axis + yo[0] * e2 + yo[1] * e3
    lim = min(eps * f, .95 * z[1:].min())
    rho = rng.uniform(-1, 1, (n, 2)) * lim
    tgt = cen + rho[:, :1] * e2 + rho[:, 1:] * e3
    t = gen.table(rng, np.tile(src, (n, 1)), tgt - src)
    o = lens(t)
    P, D = o['pos'].data[:, :3], gen.unit(o['dir'].data[:, :3])
    q = P + D * (b / (D @ axis))[:, None]
    img = cen + b * axis - (yo[0] * e2 + yo[1] * e3) * b / a
    # third-order terms: eps**2 of the lateral size
    tol = 20 * eps**2 * max(b, f) * eps + 1e-9 * (np.abs(p4).max() + a + b)
    c.close(np.linalg.norm(q - img, axis=1), 0, 'lens-equation', 'image according to the lens equation', atol=tol)
    c.count('thin_images')


@W(quick=12, thorough=60)
def coated_segment(c):
    """lens with tabulated mirror coating: reflectivity at the nodes of the table"""
    from astropy.table import Table
    from marxs.missions.lynx.mirror import PerfectLensSegment
    rng = c.rng
    tab = Table.read(gen.repo_data('missions', 'lynx', 'data', 'ir_reflectivity.dat'), format='ascii.ecsv')
    angs = np.deg2rad(np.array([float(k) for k in tab.colnames[1:]]))
    en = np.asarray(tab['energy'].quantity.to(u.keV, equivalencies=u.spectral()).value if hasattr(tab['energy'], 'quantity')
                    else tab['energy'].to(u.keV).value)
    Z = np.stack([np.asarray(tab[k]) for k in tab.colnames[1:]]).T
    f = rng.uniform(3000, 12000)
    R, shift = gen.rot(rng), rng.normal(size=3) * 100
    p4 = gen.aff(shift, R, [1, 5000, 5000])
    lens = PerfectLensSegment(conf={'focallength': f, 'mirrorcoating': 'ir_reflectivity.dat'}, pos4d=p4)
    n = 400
    i, j = rng.integers(0, len(en), n), rng.integers(0, len(angs), n)
    j = np.where(np.tan(4 * angs[j]) * f < 4900, j, 0)
    h = f * np.tan(4 * angs[j])
    ph = rng.uniform(0, 2 * np.pi, n)
    axis = -R[:, 0]
    tgt = shift + h[:, None] * (np.cos(ph)[:, None] * R[:, 1] + np.sin(ph)[:, None] * R[:, 2])
    t = gen.table(rng, tgt - 300 * axis, np.tile(axis, (n, 1)), prob=1.)
    t['energy'] = en[i]
    o = lens(t)
    c.note(f=f, n=n)
    c.close(np.asarray(o['probability']), Z[i, j]**2, 'coating', 'two reflections at the tabulated reflectivity', rtol=2e-3, atol=1e-6)
    c.count('segments', n)
    # between the nodes: between the values of the neighbouring nodes (monotonic interpolation), never outside [0, 1]
    e = rng.uniform(en[0], en[-1], n)
    t = gen.table(rng, tgt - 300 * axis, np.tile(axis, (n, 1)), prob=1.)
    t['energy'] = e
    o = lens(t)
    k = np.clip(np.searchsorted(en, e) - 1, 0, len(en) - 2)
    nb = np.clip(k[:, None] + np.arange(-2, 4), 0, len(en) - 1)
    lo, hi = Z[nb, j[:, None]].min(1)**2, Z[nb, j[:, None]].max(1)**2
    p = np.asarray(o['probability'])
    mar = .2 * (hi - lo) + .01 * hi
    c.check((p >= lo - mar) & (p <= hi + mar), 'coating-between', 'between the tabulated energies')
    # between the tabulated angles as well, and more often where the reflectivity has edges
    jump = np.abs(np.diff(Z, axis=0)).max(1)
    k = np.where(rng.random(n) < .5, rng.integers(0, len(en) - 1, n), rng.choice(len(jump), n, p=jump / jump.sum()))
    j = np.minimum(rng.integers(0, len(angs) - 1, n), rng.integers(0, len(angs) - 1, n))
    j = np.where(np.tan(4 * angs[j + 1]) * f < 4900, j, 0)
    e = en[k] + rng.random(n) * (en[k + 1] - en[k])
    a = angs[j] + rng.random(n) * (angs[j + 1] - angs[j])
    h = f * np.tan(4 * a)
    tgt = shift + h[:, None] * (np.cos(ph)[:, None] * R[:, 1] + np.sin(ph)[:, None] * R[:, 2])
    t = gen.table(rng, tgt - 300 * axis, np.tile(axis, (n, 1)), prob=1.)
    t['energy'] = e
    p = np.asarray(lens(t)['probability'])
    nk = np.clip(k[:, None] + np.arange(-2, 4), 0, len(en) - 1)
    nj = np.clip(j[:, None] + np.arange(-1, 3), 0, len(angs) - 1)
    cell = Z[nk[:, :, None], nj[:, None, :]]**2
    lo, hi = cell.min((1, 2)), cell.max((1, 2))
    c.check((p >= lo - .2 * (hi - lo)) & (p <= hi + .2 * (hi - lo)), 'coating-between', 'between the tabulated energies and angles')
    c.check(p <= 1, 'coating-between', 'no reflectivity above one')
    c.count('segments', 2 * n)


@W(quick=12, thorough=60)
def meta_shells(c):
    """shell mirror: probability is tabulated effective over geometric area of the shell that was recorded"""
    from marxs.missions.lynx import lynx
    from marxs.missions.lynx.mirror import MetaShell, MetaShellAperture
    rng = c.rng
    conf = lynx.conf
    geom, eff = conf['metashellgeometry'], conf['metashelleff']
    if c.idx % 3 == 2:
        # a table of efficiencies that promises more area than there is, for some shells
        eff = eff.copy()
        for k in eff.colnames[1:]:
            eff[k] *= rng.choice([1, 1, 30.])
        conf = dict(conf, metashelleff=eff)
        c.count('bright tables')
    # few photons: shells with a single photon, and without any
    n = 500 if c.idx % 2 else int(rng.integers(1, 20))
    e = np.asarray(eff['energy'])[rng.integers(0, len(eff), n)]
    t = gen.table(rng, np.zeros((n, 3)), np.tile([-1., 0, 0], (n, 1)), prob=1.)
    t['energy'] = e
    t.remove_column('pos')
    t = MetaShellAperture(conf)(t)
    p0 = np.asarray(t['probability']).copy()
    r = np.linalg.norm(t['pos'].data[:, 1:3], axis=1)
    sh = np.asarray(t['shell'])
    for row in geom:
        s = sh == row['Metashell Serial Number']
        c.check((r[s] >= row['r_inner'] - 1e-6) & (r[s] <= row['r_outer'] + 1e-6), 'shell-radius', 'recorded shell is the one crossed')
    o = MetaShell(conf)(t)
    want = np.full(n, np.nan)
    for i, row in enumerate(geom):
        num = row['Metashell Serial Number']
        s = sh == num
        area = np.pi * (float(row['r_outer'])**2 - float(row['r_inner'])**2) / 100.
        ee = np.asarray(eff['energy'])
        want[s] = np.interp(e[s], ee, np.asarray(eff[str(num)])) / area
        c.seen('shell', num)
    # energies that are listed twice in the table have two valid values
    ee = np.asarray(eff['energy'])
    uniq = np.array([np.sum(np.isclose(ee, x)) == 1 for x in e])
    ok = uniq & np.isfinite(want)
    c.check(np.isfinite(want).all(), 'shell-known', 'every photon has a shell')
    c.close(np.asarray(o['probability'])[ok], (p0 * np.clip(want, 0, 1))[ok], 'shell-efficiency', 'tabulated efficiency of the shell', rtol=1e-7)
    foc = np.zeros(3)
    miss_ = miss(o['pos'].data[:, :3], o['dir'].data[:, :3], foc)
    c.check(miss_ < 10000 * 2e-6 * 8, 'shell-focus', 'photons reach the focus within the scatter')
    c.count('shells', n)


@W(quick=6, thorough=40)
def spo_channels(c):
    """silicon pore optics: all modules share one focus"""
    from marxs.missions.athena import spo
    rng = c.rng
    geom = spo.spogeom
    f = np.asarray(geom['focal_length'], dtype=float)
    r2 = lambda en, ang, grid=True: .8 + 0 * np.asarray(en)
    entrance = np.array([0., 0, 12000])
    m = spo.SPOChannelMirror(position=entrance, reflectivity_interpolator=r2, spo_pos4d=spo.spo_pos4d, spo_geom=geom)
    n = 500
    k = rng.integers(0, len(geom), n)
    d = gen.unit(np.array([rng.normal() * 1e-3, rng.normal() * 1e-3, -1.]))
    tgt = np.array([np.asarray(m.elements[i].pos4d) @ np.r_[0, rng.uniform(-.9, .9, 2), 1] for i in k])[:, :3]
    t = gen.table(rng, tgt - 500 * d, np.tile(d, (n, 1)), prob=1.)
    o = m(t)
    c.note(d=d)
    id_ = np.asarray(o['xou'])
    c.check(id_ >= 0, 'module', 'photons aimed at a module meet one')
    hit = id_ >= 0
    F = entrance + f[id_[hit]][:, None] * d
    c.close(miss(o['pos'].data[hit, :3], o['dir'].data[hit, :3], F), 0, 'module-focus', 'all modules image to the same point', atol=1e-5)
    c.close(np.asarray(o['probability'])[hit], .64, 'module-refl', 'two reflections', rtol=1e-9)
    c.count('segments', n)
