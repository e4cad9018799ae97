"""C10: detector coordinates identify the impact point."""
import warnings

import astropy.units as u
import numpy as np
from astropy.table import QTable
from scipy import stats

from vmon import gen
from vmon.core import Registry

W = Registry('C10', rule='detector columns were compared to the impact point found by independent geometry',
             require={'impacts': 8000, 'misses': 1000, 'energies_redrawn': 50000, 'corner_pixels': 50},
             assumptions=['photons within a relative 1e-7 of an edge are not decided',
                          'the pixel in the corner has (0, 0) at its centre (documented)'])


def flat(rng, p4, ps, how):
    from marxs import optics
    from marxs.simulator import Parallel
    if how == 'detector':
        return optics.FlatDetector(pos4d=p4, pixsize=ps, ignore_pixel_warning=True)
    if how == 'stack':
        return optics.FlatStack(pos4d=p4, elements=[optics.EnergyFilter, optics.FlatDetector],
                                keywords=[{'filterfunc': lambda e: np.full(len(e), .5)}, {'pixsize': ps, 'ignore_pixel_warning': True}])
    t, ax, z = gen.frame(p4)
    return Parallel(elem_class=optics.FlatDetector, elem_pos=[np.eye(4)], pos4d=gen.aff(t, ax),
                    elem_args={'pixsize': ps, 'zoom': z, 'ignore_pixel_warning': True})


@W(quick=240, thorough=4000)
def flat_detector(c):
    rng = c.rng
    p4 = gen.pose(rng, ysize=(.5, 60))
    cen, ax, z = gen.frame(p4)
    npx = rng.integers(1, 3000, 2)
    ps = 2 * z[1] / npx[0]
    npx[1] = max(1, int(np.round(z[2] / (ps / 2))))
    p4[:3, 2] *= npx[1] * ps / 2 / z[2]
    cen, ax, z = gen.frame(p4)
    how = ['detector', 'stack', 'parallel'][c.idx % 3]
    d = flat(rng, p4, ps, how)
    t = gen.aim(rng, p4, 50, spread=1.3, maxangle=1.3)
    t0 = t.copy()
    o = d(t)
    dec, hit = gen.ref_hits(p4, t0)
    c.note(npix=npx, pixsize=ps, pose=p4, how=how)
    c.seen('how', how)
    h, m = dec & hit, dec & ~hit
    if not hit.any():
        c.skip()
    if not h.any():
        return
    dl = t0['dir'].data[:, :3] @ ax
    with np.errstate(all='ignore'):
        k = -((t0['pos'].data[:, :3] - cen) @ ax)[:, 0] / dl[:, 0]
    ref = ((t0['pos'].data[:, :3] + k[:, None] * t0['dir'].data[:, :3]) - cen) @ ax
    sc = np.abs(p4).max() + np.abs(t0['pos'].data).max()
    x, y = np.asarray(o['det_x']), np.asarray(o['det_y'])
    px, py = np.asarray(o['detpix_x']), np.asarray(o['detpix_y'])
    c.close(x[h], ref[h, 1], 'local-position', 'det_x is the impact point', atol=1e-8 * sc)
    c.close(y[h], ref[h, 2], 'local-position', 'det_y is the impact point', atol=1e-8 * sc)
    for a, b, n, w in ((px, x, npx[0], 'x'), (py, y, npx[1], 'y')):
        c.close(a[h], b[h] / ps + (n - 1) / 2, 'pixel-map', f'detpix_{w} from det_{w}', rtol=1e-7, atol=1e-7 * n + 1e-7)
        c.check((a[h] > -.5 - 1e-6 * n) & (a[h] < n - .5 + 1e-6 * n), 'pixel-range', f'pixel numbers on the chip {w}')
    # impact point recovered from pixels
    back = cen + ((px - (npx[0] - 1) / 2) * ps)[:, None] * ax[:, 1] + ((py - (npx[1] - 1) / 2) * ps)[:, None] * ax[:, 2]
    c.close(back[h], o['pos'].data[h, :3], 'recover-impact', 'impact point from pixel numbers', atol=1e-7 * sc)
    for a in (x, y, px, py):
        c.check(np.isnan(a[m]), 'miss-coordinates', 'photons that miss have no coordinates')
    c.count('impacts', h.sum())
    c.count('misses', m.sum())
    # centres of the corner pixels
    cp = np.array([[0, 0], [npx[0] - 1, 0], [0, npx[1] - 1], npx - 1.])
    pts = cen + ((cp[:, :1] + .5) * ps - z[1]) * ax[:, 1] + ((cp[:, 1:] + .5) * ps - z[2]) * ax[:, 2]
    t = gen.table(rng, pts + 3 * ax[:, 0], np.tile(-ax[:, 0], (4, 1)))
    o = d(t)
    c.count('corner_pixels', 4)
    c.close(np.column_stack([o['detpix_x'], o['detpix_y']]), cp, 'corner-pixel', 'centre of corner pixels', atol=1e-6 * npx.max())


@W(quick=160, thorough=2500)
def circular(c):
    from marxs import optics
    rng = c.rng
    ell = c.idx % 3 == 2
    a = rng.uniform(5, 300)
    p4 = gen.aff(rng.normal(size=3) * 200, gen.rot(rng), [a, a * (rng.uniform(.5, 2) if ell else 1), rng.uniform(5, 100)])
    ps = rng.uniform(.01, 2)
    lim = [-np.pi, np.pi]
    kw = {}
    if c.idx % 2:
        lim = list(np.sort(rng.uniform(-np.pi, np.pi, 2)))
        kw['phi_lim'] = lim
    if rng.uniform() < .2:
        ps, d = 1, optics.CircularDetector(pos4d=p4, **kw)
    else:
        d = optics.CircularDetector(pos4d=p4, pixsize=ps, **kw)
    t = gen.aim(rng, p4, 40, surface='cyl', spread=1.3)
    t0 = t.copy()
    dec, hit = gen.ref_hits(p4, t0, 'cyl', lim)
    o = d(t)
    c.note(pose=p4, pixsize=ps, lim=lim)
    h, m = dec & hit, dec & ~hit
    if not h.any():
        c.skip()
    cen, ax, z = gen.frame(p4)
    q = (o['pos'].data[:, :3] - cen) @ ax
    phi = np.arctan2(q[:, 1] / z[1], q[:, 0] / z[0])
    dp = np.asarray(o['det_phi'])
    c.close(np.abs(np.exp(1j * dp[h]) - np.exp(1j * phi[h])), 0., 'local-position', 'det_phi is the impact point', atol=1e-6)
    c.close(np.asarray(o['det_y'])[h], q[h, 2], 'local-position', 'det_y is the impact point', atol=1e-6 * np.abs(p4).max())
    c.close(np.asarray(o['detpix_x'])[h] * ps, dp[h] * z[0], 'pixel-map', 'detpix_x is the arc in pixels', rtol=1e-9, atol=1e-9)
    c.close(np.asarray(o['detpix_y'])[h] * ps, np.asarray(o['det_y'])[h], 'pixel-map', 'detpix_y', rtol=1e-9, atol=1e-9)
    phi2, z2 = np.asarray(o['detpix_x']) * ps / z[0], np.asarray(o['detpix_y']) * ps
    back = cen + (z[0] * np.cos(phi2))[:, None] * ax[:, 0] + (z[1] * np.sin(phi2))[:, None] * ax[:, 1] + z2[:, None] * ax[:, 2]
    c.close(back[h], o['pos'].data[h, :3], 'recover-impact', 'impact point from pixel numbers', atol=1e-6 * np.abs(p4).max())
    for k in ('det_phi', 'det_y', 'detpix_x', 'detpix_y'):
        c.check(np.isnan(np.asarray(o[k])[m]), 'miss-coordinates', 'photons that miss have no coordinates')
    c.count('impacts', h.sum())
    c.count('misses', m.sum())


def width_table(rng):
    n = int(rng.integers(1, 6))
    en = np.sort(rng.uniform(.2, 8, n))
    sig = rng.uniform(.005, .2, n)
    fwhm = rng.uniform() < .5
    eu = u.Unit(str(rng.choice(['keV', 'eV'])))
    su = u.Unit(str(rng.choice(['keV', 'eV'])))
    t = QTable({'energy': (en * u.keV).to(eu)})
    t['FWHM' if fwhm else 'sigma'] = (sig * u.keV * (2 * np.sqrt(2 * np.log(2)) if fwhm else 1)).to(su)
    return t, en, sig


@W(quick=40, thorough=400)
def redistribution(c):
    from marxs.optics.detector import CCDRedistNormal
    rng = c.rng
    tab, en, sig = width_table(rng)
    keep = tab.copy()
    p4 = gen.pose(rng)
    r = CCDRedistNormal(pos4d=p4, tab_width=tab)
    c.check(tab.colnames == keep.colnames, 'table-modified', 'the table of widths is not modified', got=tab.colnames)
    for k in keep.colnames:
        c.check(np.all(tab[k] == keep[k]), 'table-modified', k)
    t = gen.aim(rng, p4, 3000, spread=1.3, maxangle=.8, energy=(.2, 8.))
    if rng.uniform() < .4:
        t['energy'] = rng.uniform(.2, 8)
    t0 = t.copy()
    dec, hit = gen.ref_hits(p4, t0)
    o = r(t)
    c.note(energy=en, sigma=sig, units=[str(tab[k].unit) for k in tab.colnames], cols=tab.colnames)
    for k in t0.colnames:
        if k != 'pos':
            c.same(o[k], t0[k], 'redraw-else', f'{k} is left alone')
    h, m = dec & hit, dec & ~hit
    e = np.asarray(t0['energy'], float)
    got = np.asarray(o['energy_detected'], float)
    s = np.interp(e, en, sig)
    x = ((got - e) / s)[h]
    c.count('energies_redrawn', h.sum())
    c.pvalue(stats.kstest(x, 'norm').pvalue, 'resolution', 'distribution of detected energies')
    half = h & (e > np.median(e))
    if half.sum() > 100:
        c.pvalue(stats.kstest(((got - e) / s)[half], 'norm').pvalue, 'resolution', 'distribution at high energies')
        c.pvalue(stats.kstest(((got - e) / s)[h & ~half], 'norm').pvalue, 'resolution', 'distribution at low energies')
    # the width is the one at the energy of the same photon
    order = np.argsort(e[h])
    for part in (x, *np.array_split(x[order], 3), *np.array_split(x, 3)):
        if len(part) > 30:
            q = (part**2).sum()
            c.pvalue(min(1, 2 * min(stats.chi2.cdf(q, len(part)), stats.chi2.sf(q, len(part)))), 'resolution', 'variance of detected energies')
    c.check(np.isnan(got[m]), 'miss-coordinates', 'no energy for photons that miss')
    # tools used for order sorting
    ee = rng.uniform(.3, 7, 30) * u.keV
    if rng.uniform() < .4:
        ee = ee.to(u.eV)
    sk = np.interp(ee.to_value(u.keV), en, sig)
    c.close(u.Quantity(r.sig_ccd(ee)).to_value(u.keV), sk, 'sigma', 'interpolated width', rtol=1e-9)
    c.close(u.Quantity(r.sig_ccd(ee.to(u.Angstrom, equivalencies=u.spectral()))).to_value(u.keV), sk, 'sigma', 'width from wavelength', rtol=1e-6)
    q = ee + rng.normal(size=30) * sk * u.keV
    c.close(np.asarray(r.cdf(q, ee), float), stats.norm.cdf((q - ee).to_value(u.keV) / sk), 'cdf', 'cumulative distribution', atol=1e-9)
    f = rng.uniform(.1, .999)
    lo, hi = u.Quantity(r.interval(f, ee)).to_value(u.keV)
    z = stats.norm.ppf(.5 + f / 2)
    c.close(lo, ee.to_value(u.keV) - z * sk, 'interval', 'lower limit', rtol=1e-7)
    c.close(hi, ee.to_value(u.keV) + z * sk, 'interval', 'upper limit', rtol=1e-7)
    c.close(r.cdf(hi * u.keV, ee) - r.cdf(lo * u.keV, ee), f, 'interval', 'enclosed fraction', atol=1e-7)


@W(quick=40, thorough=200)
def warnings_given(c):
    """detectors that are no integer number of pixels are reported"""
    from marxs.optics import FlatDetector
    from marxs.utils import SimulationSetupWarning
    rng = c.rng
    n = int(rng.integers(2, 200))
    ps = rng.uniform(.01, 2)
    frac = rng.uniform(.05, .45) * rng.choice([-1, 1])
    which = c.idx % 3     # 0: fits, 1: y, 2: z
    z = [1., (n + frac * (which == 1)) * ps / 2, (n + 3 + frac * (which == 2)) * ps / 2]
    c.note(n=n, which=which, pixsize=ps)
    for ignore in (False, True):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            d = FlatDetector(zoom=z, pixsize=ps, ignore_pixel_warning=ignore)
        k = [x for x in w if issubclass(x.category, SimulationSetupWarning)]
        c.check(len(k) == (which > 0 and not ignore), 'pixel-warning', f'{len(k)} warnings, case {which}, ignore {ignore}')
        c.check(list(d.npix) == [n, n + 3], 'npix', f'number of pixels {d.npix}')
        c.count('corner_pixels')
