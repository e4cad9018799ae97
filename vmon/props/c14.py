"""C14: absorbers and mirror coatings attenuate by their stated transmission."""
import numpy as np
from scipy import constants as const

from vmon import gen
from vmon.core import Registry

HC_NM = const.h * const.c / const.e * 1e6     # keV nm

W = Registry('C14', rule='survival probabilities, directions and polarizations behind real absorbers and mirrors were compared to an independent calculation',
             require={'filtered': 1500, 'global': 1500, 'baffled': 2000, 'rejected': 20, 'reflected': 3000, 'coated': 2000, 'fresnel': 1500},
             assumptions=['photons with zero reflected intensity have no defined polarization',
                          'the polarization of light is an axis: its sign is not judged',
                          'reflected field: component perpendicular to the plane of incidence changes sign relative to the one in the plane'])

KEEP = ('dir', 'polarization', 'energy', 'time', 'serial')


def untouched(c, t0, o, sel, msg, cols=KEEP + ('probability', 'pos')):
    for k in cols:
        c.same(np.asarray(o[k])[sel], np.asarray(t0[k])[sel], 'untouched', f'{msg}: {k}')


def curve(rng, rec):
    kind = rng.integers(5)
    a, b = rng.uniform(0, 1), rng.uniform(0, 4)
    from scipy.interpolate import interp1d
    tab = interp1d(np.linspace(0, 12, 30), rng.uniform(0, 1, 30))
    base = [lambda e: 0 * e + a, lambda e: a * np.cos(b * e)**2, lambda e: (e > b / 2).astype(float), tab,
            lambda e: np.exp(-b / e)][kind]

    def f(en):
        rec.append(np.array(en, dtype=float))
        if kind == 0 and f.scalar:
            return a
        return base(np.asarray(en, dtype=float))
    f.scalar = rng.uniform() < .5
    return f, lambda e: base(np.asarray(e, dtype=float)), kind


@W(quick=80, thorough=1000)
def energy_filter(c):
    from marxs import optics
    rng = c.rng
    p4 = gen.pose(rng)
    rec = []
    f, ref, kind = curve(rng, rec)
    n = int(rng.choice([1, 100]))
    t = gen.aim(rng, p4, n, spread=1.2, energy=(.1, 11.))
    t0 = t.copy()
    o = optics.EnergyFilter(pos4d=p4, filterfunc=f)(t)
    dec, hit = gen.ref_hits(p4, t0)
    c.note(kind=kind, n=n, pose=p4)
    p0, p1 = np.asarray(t0['probability']), np.asarray(o['probability'])
    e = np.asarray(t0['energy'])
    h = hit & dec
    c.close(p1[h], p0[h] * ref(e[h]), 'filter', 'transmission at the energy of the photon', rtol=1e-12)
    untouched(c, t0, o, h, 'crossed', KEEP)
    untouched(c, t0, o, dec & ~hit, 'missed')
    c.count('filtered', h.sum())


@W(quick=60, thorough=600)
def global_filter(c):
    from marxs import optics
    rng = c.rng
    rec = []
    f, ref, kind = curve(rng, rec)
    n = int(rng.choice([0, 1, 100, 100]))
    t = gen.beam(rng, n, energy=(.1, 11.))
    t0 = t.copy()
    o = optics.GlobalEnergyFilter(filterfunc=f)(t)
    c.note(kind=kind, n=n)
    c.close(np.asarray(o['probability']), np.asarray(t0['probability']) * ref(t0['energy']), 'global', 'transmission for every photon', rtol=1e-12)
    untouched(c, t0, o, np.ones(n, bool), 'global', KEEP + ('pos',))
    c.count('global', n)


@W(quick=30, thorough=200)
def invalid_filter(c):
    from marxs import optics
    rng = c.rng
    n = 50
    p4 = gen.pose(rng)
    t = gen.aim(rng, p4, n, spread=.9, away=0.)
    bad = float(rng.choice([1 + 1e-6, 2., 1e9, -1e-6, -.5]))
    who = rng.integers(n)
    e = float(t['energy'][who])
    f = lambda en: np.where(np.asarray(en) == e, bad, .5)
    el = optics.EnergyFilter(pos4d=p4, filterfunc=f) if c.idx % 2 else optics.GlobalEnergyFilter(filterfunc=f)
    c.note(bad=bad, kind=type(el).__name__)
    c.raises(ValueError, lambda: el(t), 'invalid', 'transmission outside of [0, 1]')
    c.count('rejected')


@W(quick=60, thorough=600)
def baffle(c):
    from marxs import optics
    rng = c.rng
    p4 = gen.pose(rng)
    n = int(rng.choice([1, 100, 100]))
    t = gen.aim(rng, p4, n, spread=1.8, away=.2)
    t0 = t.copy()
    o = optics.Baffle(pos4d=p4)(t)
    dec, hit = gen.ref_hits(p4, t0)
    c.note(n=n, pose=p4)
    p0, p1 = np.asarray(t0['probability']), np.asarray(o['probability'])
    h, m = hit & dec, dec & ~hit
    c.same(p1[h], p0[h], 'baffle-open', 'photons inside the opening keep their probability')
    c.check(p1[m] == 0, 'baffle-closed', 'all others are removed')
    untouched(c, t0, o, dec, 'baffle', KEEP)
    c.count('baffled', dec.sum())


# ----------------------------------------------------------------- mirrors --
def reflected(nrm, d):
    return d - 2 * (d @ nrm)[:, None] * nrm


def field(nrm, d, pol, rs, rp):
    """reflected amplitudes for intensity reflectivities rs, rp: (intensity, field)"""
    s = np.cross(d, nrm)
    s = gen.unit(s)
    p = np.cross(d, s)
    q = np.cross(reflected(nrm, d), s)
    a, b = (pol * s).sum(1), (pol * p).sum(1)
    E = (-np.sqrt(rs) * a)[:, None] * s + (np.sqrt(rp) * b)[:, None] * q
    return (E**2).sum(1), E


def check_mirror(c, p4, t0, o, rs, rp, extra, msg, prob_mech='reflectivity'):
    dec, hit = gen.ref_hits(p4, t0)
    h = hit & dec
    nrm = p4[:3, 0] / np.linalg.norm(p4[:3, 0])
    d = gen.unit(t0['dir'].data[h, :3])
    I, E = field(nrm, d, gen.unit(t0['polarization'].data[h, :3]), rs(t0, h), rp(t0, h))
    c.close(gen.unit(o['dir'].data[h, :3]), reflected(nrm, d), 'specular', f'{msg}: specular reflection', atol=1e-9)
    p0, p1 = np.asarray(t0['probability']), np.asarray(o['probability'])
    c.close(p1[h], p0[h] * np.clip(I, 0, 1) * extra(t0, o, h), prob_mech, f'{msg}: survival probability', rtol=2e-3 if prob_mech == 'coating' else 1e-7,
            atol=5e-5 if prob_mech == 'coating' else 1e-9)
    nz = I > 1e-8
    pol = o['polarization'].data[h, :3]
    c.close(np.abs((pol[nz] * gen.unit(E[nz])).sum(1)), 1., 'mirror-polarization', f'{msg}: reflected field', atol=1e-7)
    c.close(np.linalg.norm(pol[nz], axis=1), 1., 'mirror-polarization', f'{msg}: unit length', atol=1e-9)
    untouched(c, t0, o, dec & ~hit, msg)
    for k in ('energy', 'time', 'serial'):
        c.same(np.asarray(o[k]), np.asarray(t0[k]), 'untouched', f'{msg}: {k}')
    return h, nz


def special_pol(rng, t, p4):
    """some photons purely s or p polarized, some at normal incidence"""
    nrm = p4[:3, 0] / np.linalg.norm(p4[:3, 0])
    d = gen.unit(t['dir'].data[:, :3])
    s = gen.unit(np.cross(d, nrm))
    k = rng.integers(0, 6, len(t))
    t['polarization'][:, :3] = np.where((k == 0)[:, None], s, np.where((k == 1)[:, None], np.cross(d, s), t['polarization'].data[:, :3]))


@W(quick=60, thorough=600)
def brewster(c):
    from marxs.optics import FlatBrewsterMirror
    rng = c.rng
    p4 = gen.pose(rng)
    n = 100
    t = gen.aim(rng, p4, n, spread=1.1, maxangle=1.5)
    special_pol(rng, t, p4)
    if rng.uniform() < .3:
        t['dir'] *= rng.uniform(.3, 3, (n, 1))
    t0 = t.copy()
    o = FlatBrewsterMirror(pos4d=p4)(t)
    c.note(pose=p4)
    h, _ = check_mirror(c, p4, t0, o, lambda t, h: np.ones(h.sum()), lambda t, h: np.zeros(h.sum()), lambda *a: 1., 'Brewster')
    c.count('reflected', h.sum())


@W(quick=40, thorough=400)
def fresnel(c):
    """derived mirror classes give their own reflectivities for both polarizations"""
    from marxs.optics import FlatBrewsterMirror
    rng = c.rng
    p4 = gen.pose(rng)
    a, b, k = rng.uniform(0, 1, 3)
    # single photons at normal incidence are part of the input here
    rs = lambda e: a * np.exp(-k * e)
    rp = lambda e: b * np.exp(-k * e**2)

    class Mirror(FlatBrewsterMirror):
        def fresnel(self, photons, intersect, intersection, local):
            e = np.asarray(photons['energy'][intersect])
            return rs(e), rp(e)
    n = 80
    t = gen.aim(rng, p4, n, spread=1.1, maxangle=1.5)
    special_pol(rng, t, p4)
    t0 = t.copy()
    o = Mirror(pos4d=p4)(t)
    c.note(pose=p4, a=a, b=b)
    h, nz = check_mirror(c, p4, t0, o, lambda t, h: rs(np.asarray(t['energy'])[h]), lambda t, h: rp(np.asarray(t['energy'])[h]),
                         lambda *a: 1., 'Fresnel')
    c.count('fresnel', h.sum())
    # normal incidence: both polarizations are the same physical situation
    nrm = p4[:3, 0] / np.linalg.norm(p4[:3, 0])
    m = 20
    t = gen.table(rng, gen.aim_points(rng, p4, m, spread=.9)[0] + 7 * nrm, np.tile(-nrm, (m, 1)))
    t0 = t.copy()

    class Same(FlatBrewsterMirror):
        def fresnel(self, photons, intersect, intersection, local):
            return np.full(intersect.sum(), a), np.full(intersect.sum(), a)
    o = Same(pos4d=p4)(t)
    c.close(o['dir'].data[:, :3], nrm, 'specular', 'normal incidence: straight back', atol=1e-9)
    c.close(np.asarray(o['probability']), a * np.asarray(t0['probability']), 'reflectivity', 'normal incidence', rtol=1e-9)
    c.count('fresnel', m)
    # reflectivities that cannot be are refused, even if they apply to one photon only
    one = int(rng.integers(m))

    class Bad(FlatBrewsterMirror):
        def fresnel(self, photons, intersect, intersection, local):
            r = np.full(len(photons), a)
            r[one] = rng.uniform(1.1, 3.)
            return r[intersect], r[intersect]
    c.raises(ValueError, lambda: Bad(pos4d=p4)(t0.copy()), 'reflectivity-above-one', 'more light comes out than goes in')


FILES = ['A12113.txt', 'A13164.txt', 'testFile_mirror.txt', 'A14070B.txt', 'A14080B.txt']


def read(name):
    import os
    with open(os.path.join(gen.repo_data('optics', 'data'), name)) as f:
        rows = [l.split() for l in f.read().splitlines() if l.strip() and l[0].isdigit()]
    return rows


@W(quick=60, thorough=600)
def multilayer(c):
    import os
    from marxs.optics.multiLayerMirror import MultiLayerMirror
    from marxs.optics.multiLayerMirror import MultiLayerEfficiency
    rng = c.rng
    name = FILES[c.idx % len(FILES)]
    rows = read(name)
    X, peak, lam, fwhm = (np.array([float(r[i]) for r in rows]) for i in (0, 1, 3, 4))
    pol = np.array([[float(v) for v in r[:2]] for r in read('ALSpolarization2.txt')])
    p4 = gen.pose(rng)
    half = max(X[-1] / 2 * rng.uniform(.9, 1.1), .5)
    p4[:3, 1] *= half / np.linalg.norm(p4[:3, 1])
    d = gen.repo_data('optics', 'data')
    cls = [MultiLayerMirror, MultiLayerEfficiency][c.idx // len(FILES) % 2]
    el = cls(pos4d=p4, reflFile=os.path.join(d, name), testedPolarization=os.path.join(d, 'ALSpolarization2.txt'))
    n = 120
    t = gen.aim(rng, p4, n, spread=1.1, maxangle=1.2)
    special_pol(rng, t, p4)
    # energies close to the local maximum of the reflectivity
    cen, ax, z = gen.frame(p4)
    s0 = t['pos'].data[:, :3]
    d0 = t['dir'].data[:, :3]
    k = ((cen - s0) @ ax[:, 0]) / (d0 @ ax[:, 0])
    y = ((s0 + k[:, None] * d0 - cen) @ ax[:, 1])
    L, F, P = (np.interp(y + half, X, q) for q in (lam, fwhm, peak))
    wl = L + F * rng.normal(size=n) * .7
    wl = np.where(rng.uniform(size=n) < .1, rng.uniform(2, 8, n), np.maximum(wl, .5))
    t['energy'] = HC_NM / wl
    t0 = t.copy()
    o = el(t)
    c.note(file=name, cls=cls.__name__, pose=p4)
    c.seen('coating', name)
    frac = np.interp(HC_NM / wl, pol[:, 0] / 1000, pol[:, 1])
    with np.errstate(divide='ignore', invalid='ignore'):
        R = np.where(F > 0, P / 100 / frac * np.exp(-4 * np.log(2) * (wl - L)**2 / F**2), 0.)
    if cls is MultiLayerMirror:
        one = lambda t, h: np.ones(h.sum())
        h, _ = check_mirror(c, p4, t0, o, one, lambda t, h: np.zeros(h.sum()), lambda t, o, h: R[h], name, 'coating')
    else:
        dec, hit = gen.ref_hits(p4, t0)
        h = dec & hit
        c.close(np.asarray(o['probability'])[h], np.asarray(t0['probability'])[h] * R[h], 'coating',
                f'{name}: reflectivity of the table at the point of impact', rtol=2e-3, atol=5e-5)
        untouched(c, t0, o, h, 'efficiency', KEEP)
        untouched(c, t0, o, dec & ~hit, 'efficiency')
    c.count('coated', h.sum())
