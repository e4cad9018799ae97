"""C16: extended sources have the stated shape anywhere on the sky."""
import astropy.units as u
import numpy as np
from astropy.coordinates import FK5, SkyCoord
from scipy import stats

from vmon.core import Registry

W = Registry('C16', rule='sky positions of photons from real sources were converted to separation and position angle around the source and tested',
             require={'photons': 100000, 'statistical': 300, 'poles': 15, 'large': 4, 'symbol': 10, 'points': 20, 'frames': 3},
             assumptions=['DiskSource and GaussSource are small-angle approximations (documented), tested up to a degree',
                          'the letter F lies along the direction of east, with its arms pointing north'])

POS = [(0., 0.), (359.9999, 10.), (0.0001, -20.), (180., 45.), (120., 89.9), (30., -89.95), (77., 90.), (200., -90.), (266., -29.)]


def position(c):
    rng = c.rng
    if rng.uniform() < .6:
        ra, dec = POS[rng.integers(len(POS))]
    else:
        ra, dec = rng.uniform(0, 360), np.rad2deg(np.arcsin(rng.uniform(-1, 1)))
    frame = ['icrs', 'icrs', 'fk5', 'galactic'][rng.integers(4)]
    coo = SkyCoord(ra, dec, unit='deg', frame='icrs')
    if frame != 'icrs':
        coo = coo.transform_to(frame)
    elif rng.uniform() < .2:
        frame = 'fk5-1975'
        coo = coo.transform_to(FK5(equinox='J1975'))
    if rng.uniform() < .3:
        coo = coo.frame
    c.seen('frames', frame)
    c.mon.counts['frames'] = len(c.mon.distinct['frames'])
    if abs(dec) > 89:
        c.count('poles')
    c.note(ra=ra, dec=dec, frame=frame)
    return coo


def vec(ra, dec):
    ra, dec = np.deg2rad(ra), np.deg2rad(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]).T


def offsets(coo, t):
    """separation and position angle (east of north) in rad, independent of astropy's offset frames"""
    k = SkyCoord(coo).icrs
    ra0, dec0 = k.ra.deg, k.dec.deg
    r = vec(ra0, dec0)
    a = np.deg2rad(ra0)
    east = np.array([-np.sin(a), np.cos(a), 0])
    north = np.cross(r, east)
    v = vec(np.asarray(t['ra']), np.asarray(t['dec']))
    x, y, z = v @ east, v @ north, v @ r
    return np.arctan2(np.hypot(x, y), z), np.arctan2(x, y)


def sky(c, t, n):
    ra, dec = np.asarray(t['ra']), np.asarray(t['dec'])
    c.check(len(t) == n, 'number', 'number of photons')
    c.check((ra >= 0) & (ra <= 360) & (np.abs(dec) <= 90 + 1e-12), 'sky', 'valid coordinates')
    c.check(t['ra'].unit == u.deg and t['dec'].unit == u.deg, 'units', 'coordinates in degrees')
    c.check('ICRS' in str(t.meta['COORDSYS']), 'system', 'coordinate system in the header')
    c.count('photons', n)


def uniform_azimuth(c, pa, ring=None):
    c.count('statistical', 2)
    c.pvalue(stats.kstest((pa / 2 / np.pi) % 1, 'uniform').pvalue, 'azimuth', 'uniform position angle')
    h = np.histogram(pa % (2 * np.pi), bins=16, range=(0, 2 * np.pi))[0]
    c.pvalue(stats.chisquare(h).pvalue, 'azimuth', 'uniform position angle (bins)')


N = 2000


def run(src, n=N):
    return src.generate_photons((n - .5) * u.s)


def quantity(rng, x):
    return (x * u.rad).to([u.rad, u.deg, u.arcmin, u.arcsec][rng.integers(4)])


@W(quick=40, thorough=600)
def disk(c):
    from marxs.source import DiskSource, SphericalDiskSource
    rng = c.rng
    coo = position(c)
    spherical = c.idx % 2
    if spherical and rng.uniform() < .5:
        ro = rng.uniform(.05, np.pi)
        c.count('large')
    else:
        ro = 10**rng.uniform(-6.5, np.log10(.5 * np.pi / 180))
    ri = ro * rng.uniform(0, .98) if rng.uniform() < .5 else 0.
    kw = {'a_outer': quantity(rng, ro)}
    if ri:
        kw['a_inner'] = quantity(rng, ri)
    t = run((SphericalDiskSource if spherical else DiskSource)(coords=coo, flux=1 / u.s / u.cm**2, **kw))
    c.note(spherical=bool(spherical), outer=ro, inner=ri)
    sky(c, t, N)
    r, pa = offsets(coo, t)
    # the code inverts cos(r): its rounding is an angle of order 1e-16 / r
    eps = 1e-12 + 1e-6 * ro + 1e-15 / max(ri, 1e-9) * (ri > 0) + 1e-15 / ro if spherical else 1e-12 + ro * (1e-6 + ro**2)
    c.check((r >= ri - eps) & (r <= ro + eps), 'radius', 'inside the stated radii', rmin=r.min(), rmax=r.max())
    cdf = (np.cos(ri) - np.cos(r)) / (np.cos(ri) - np.cos(ro)) if spherical and ro > 1e-3 else (r**2 - ri**2) / (ro**2 - ri**2)
    c.count('statistical')
    c.pvalue(stats.kstest(cdf, 'uniform').pvalue, 'profile', 'uniform surface brightness')
    uniform_azimuth(c, pa)
    c.count('statistical')
    c.pvalue(stats.spearmanr(r, np.cos(pa)).pvalue, 'independent', 'radius and azimuth are independent')


@W(quick=20, thorough=300)
def gauss(c):
    from marxs.source import GaussSource
    rng = c.rng
    coo = position(c)
    s = 10**rng.uniform(-6.5, -2.5)
    t = run(GaussSource(coords=coo, flux=1 / u.s / u.cm**2, sigma=quantity(rng, s)))
    c.note(sigma=s)
    sky(c, t, N)
    r, pa = offsets(coo, t)
    c.count('statistical')
    c.pvalue(stats.kstest(1 - np.exp(-.5 * (r / s)**2), 'uniform').pvalue, 'profile', 'Gaussian profile')
    uniform_azimuth(c, pa)
    c.count('statistical', 2)
    c.pvalue(stats.kstest(r * np.sin(pa) / s, 'norm').pvalue, 'profile', 'Gaussian towards east')
    c.pvalue(stats.kstest(r * np.cos(pa) / s, 'norm').pvalue, 'profile', 'Gaussian towards north')


@W(quick=20, thorough=300)
def custom_profile(c):
    from marxs.source.basesources import RadialDistributionSource
    rng = c.rng
    coo = position(c)
    ro = rng.uniform(.1, 3.) if rng.uniform() < .4 else 10**rng.uniform(-6, -2)
    q = ro * np.sqrt(rng.uniform(0, 1, N))
    calls = []

    def func(n):
        calls.append(n)
        return quantity(rng, q)
    t = run(RadialDistributionSource(coords=coo, flux=1 / u.s / u.cm**2, radial_distribution=func))
    c.note(outer=ro)
    sky(c, t, N)
    c.check(calls == [N], 'custom', 'profile is asked for one radius per photon')
    r, pa = offsets(coo, t)
    c.close(r, q, 'custom', 'radii of the profile are the separations on the sky', rtol=1e-6, atol=1e-10 + 3e-8 * (ro > 2.9))
    uniform_azimuth(c, pa)


@W(quick=20, thorough=200)
def point(c):
    from marxs.source import PointSource
    coo = position(c)
    n = int(c.rng.choice([0, 1, 30]))
    t = run(PointSource(coords=coo, flux=1 / u.s / u.cm**2), n) if n else PointSource(coords=coo, flux=1 / u.s / u.cm**2).generate_photons(0 * u.s)
    sky(c, t, n)
    if n:
        c.check(offsets(coo, t)[0] < 1e-8, 'point', 'all photons come from the source')
    c.count('points')


@W(quick=20, thorough=200)
def letter(c):
    from marxs.source import SymbolFSource
    rng = c.rng
    coo = position(c)
    s = 10**rng.uniform(-5, -2)
    kw = {'size': quantity(rng, s)}
    if rng.uniform() < .1:
        kw, s = {}, np.deg2rad(1.)
    t = run(SymbolFSource(coords=coo, flux=1 / u.s / u.cm**2, **kw))
    c.note(size=s)
    sky(c, t, N)
    r, pa = offsets(coo, t)
    x, y = np.tan(r) * np.sin(pa) / s, np.tan(r) * np.cos(pa) / s
    eps = 1e-6 + 3 * s**2 + 1e-11 / s
    stem = (np.abs(y) < eps) & (x > -eps) & (x < 1 + eps)
    a1 = (np.abs(x - 1) < eps) & (y > -eps) & (y < .5 + eps)
    a2 = (np.abs(x - .8) < eps) & (y > -eps) & (y < .3 + eps)
    c.check(stem | a1 | a2, 'letter', 'photons lie on the letter of the stated size', bad=np.c_[x, y][~(stem | a1 | a2)][:3])
    k = [int((stem & ~a1 & ~a2).sum()), int((a1 & ~stem).sum()), int((a2 & ~stem).sum())]
    c.check(min(k) > N / 5, 'letter', 'all strokes are present', strokes=k)
    for nm, v, sel in (('stem', x, stem & ~a1 & ~a2), ('long arm', y / .5, a1 & ~stem), ('short arm', y / .3, a2 & ~stem)):
        if eps < .02:
            c.count('statistical')
            c.pvalue(stats.kstest(np.clip(v[sel], 0, 1), 'uniform').pvalue, 'letter-uniform', f'{nm} is uniform')
    c.count('symbol')
