"""C15: sources emit photon lists that match flux, spectrum and polarization input."""
import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord
from astropy.table import QTable
from scipy import stats

from vmon import gen
from vmon.core import Registry

W = Registry('C15', rule='photon lists of real sources were compared to the flux, spectrum and polarization they were given',
             require={'photons': 50000, 'statistical': 200, 'poisson_runs': 2000, 'callables': 60, 'rejected': 30,
                      'constant_rate': 50, 'few_photons': 500},
             assumptions=['a constant rate emits at 0, 1/rate, 2/rate, ... inside the exposure (one photon more or less by rounding)',
                          'the first entry of tabulated densities is ignored (documented)'])

KINDS = ['Source', 'PointSource', 'DiskSource', 'SphericalDiskSource', 'GaussSource', 'SymbolFSource', 'LabPointSourceCone',
         'RadialDistributionSource']


def make(rng, kind, **kw):
    import marxs.source as s
    if kind == 'Source':
        return s.Source(**kw) if hasattr(s, 'Source') else s.basesources.Source(**kw)
    if kind == 'LabPointSourceCone':
        return s.LabPointSourceCone(position=rng.normal(size=3), half_opening=.1 * u.rad, **kw)
    kw['coords'] = SkyCoord(rng.uniform(0, 360), rng.uniform(-80, 80), unit='deg')
    if kind == 'DiskSource' or kind == 'SphericalDiskSource':
        return getattr(s, kind)(a_outer=1 * u.arcmin, **kw)
    if kind == 'GaussSource':
        return s.GaussSource(sigma=1 * u.arcmin, **kw)
    if kind == 'RadialDistributionSource':
        from marxs.source.basesources import RadialDistributionSource
        return RadialDistributionSource(radial_distribution=lambda n: rng.uniform(0, 1, n) * u.arcmin, **kw)
    return getattr(s, kind)(**kw)


def rate_and_area(rng, kind, rate):
    """flux and area for a total rate in 1/s, in random units"""
    lab = kind == 'LabPointSourceCone'
    if lab or rng.uniform() < .3:
        return dict(flux=(rate / u.s).to([1 / u.s, 1 / u.h, 1 / u.ms][rng.integers(3)])), ({} if lab else {'geomarea': None})
    A = 10**rng.uniform(-2, 4) * u.cm**2
    A = A.to([u.cm**2, u.mm**2, u.m**2][rng.integers(3)])
    f = (rate / u.s / A).to([1 / u.s / u.cm**2, 1 / u.h / u.mm**2, 1 / u.s / u.m**2][rng.integers(3)])
    return {'flux': f}, {'geomarea': A}


def basic(c, t, T, n=None):
    tt = np.asarray(t['time'])
    c.check(np.diff(tt) >= 0, 'ordered', 'arrival times are ordered')
    c.check((tt >= 0) & (tt <= T * (1 + 1e-12)), 'inside', 'arrival times inside the exposure')
    c.check(np.asarray(t['probability']) == 1., 'unit-probability', 'initial probability is one')
    for k in ('time', 'energy', 'polangle', 'probability'):
        c.check(np.isfinite(np.asarray(t[k])).all() and t[k].shape == (len(t),), 'columns', f'{k}: one finite number per photon')
    c.check(t['time'].unit == u.s and t['energy'].unit == u.keV and t['polangle'].unit == u.rad, 'units', 'units of the columns')
    c.close(t.meta['EXPOSURE'][0] if isinstance(t.meta['EXPOSURE'], tuple) else t.meta['EXPOSURE'], T, 'exposure', 'exposure time in the header', rtol=1e-12)
    c.count('photons', len(t))


def density(rng, lo, hi, zero=True):
    n = rng.integers(2, 12)
    x = np.sort(np.concatenate([[lo, hi], rng.uniform(lo, hi, n - 2 if n > 2 else 0)]))
    x = np.unique(x)
    y = rng.uniform(.05, 1, len(x))
    if zero and len(x) > 3 and rng.uniform() < .5:
        y[1 + rng.integers(len(x) - 1)] = 0
        if y[1:].max() == 0:
            y[1] = 1.
    y[0] = rng.choice([0., rng.uniform(0, 100.)])
    return x, y


def cdf(x, y):
    w = np.concatenate([[0], np.cumsum(y[1:] * np.diff(x))])
    return lambda v: np.interp(v, x, w / w[-1])


def follow(c, v, x, y, mech, msg):
    v = np.asarray(v)
    k = 1e-9 * np.abs(x).max() + 1e-12
    c.check((v >= x[0] - k) & (v <= x[-1] + k), mech, f'{msg}: inside the table')
    b = np.clip(np.searchsorted(x, v), 1, len(x) - 1)
    inside = np.abs(v[:, None] - x[None, :]).min(1) > k
    c.check((y[b] > 0) | ~inside, mech, f'{msg}: no photons in bins of zero density')
    c.count('statistical')
    c.pvalue(stats.kstest(cdf(x, y)(v), 'uniform').pvalue, mech, f'{msg}: piecewise constant density')


@W(quick=120, thorough=1500)
def spectrum(c):
    """all kinds of sources with constant rate and all ways to give energy and polarization"""
    rng = c.rng
    kind = KINDS[c.idx % len(KINDS)]
    n = int(rng.choice([0, 1, 2, 1000, 1000, 1000]))
    T = 10**rng.uniform(-3, 6)
    rate = (n - rng.uniform(.2, .8)) / T if n else .5 / T
    flux, area = rate_and_area(rng, kind, rate)
    kw = dict(flux, **area)
    calls = []
    emode, pmode = rng.integers(4), rng.integers(4)
    e0 = rng.uniform(.1, 10)
    if emode == 0:
        kw['energy'] = (e0 * u.keV).to([u.keV, u.eV, u.J][rng.integers(3)])
    elif emode == 1:
        kw['energy'] = (e0 * u.keV).to([u.Angstrom, u.nm][rng.integers(2)], equivalencies=u.spectral())
    elif emode == 2:
        ex, ey = density(rng, rng.uniform(.05, 1), rng.uniform(2, 12))
        ex0, ey0 = ex.copy(), ey.copy()
        unit = [u.keV, u.eV][rng.integers(2)]
        kw['energy'] = QTable({'energy': (ex * u.keV).to(unit),
                               'fluxdensity': (ey / u.s / u.cm**2 / u.keV).to(1 / u.s / u.m**2 / unit)})
    else:
        def efunc(t):
            calls.append(('e', t.copy()))
            return ((1 + np.sin(t.to_value(u.s) / T * 7)**2) * u.keV).to([u.keV, u.eV][len(calls) % 2])
        kw['energy'] = efunc
    p0 = rng.uniform(-4, 10)
    if pmode == 0:
        kw['polarization'] = (p0 * u.rad).to([u.rad, u.deg][rng.integers(2)])
    elif pmode == 1:
        lo = float(rng.choice([0., 0., -np.pi / 2, -np.pi, rng.uniform(-3, 3)]))
        px, py = density(rng, lo, lo + rng.uniform(1, 2 * np.pi))
        unit = [u.rad, u.deg][rng.integers(2)]
        kw['polarization'] = QTable({'angle': (px * u.rad).to(unit), 'probabilitydensity': (py / u.rad).to(1 / unit)})
    elif pmode == 2:
        def pfunc(t, e):
            calls.append(('p', t.copy(), e.copy()))
            return (t.to_value(u.s) / T + e.to_value(u.keV)) * u.rad
        kw['polarization'] = pfunc
    elif rng.uniform() < .5:
        kw['polarization'] = None
    src = make(rng, kind, **kw)
    Tq = (T * u.s).to([u.s, u.h, u.ms][rng.integers(3)])
    t = src.generate_photons(Tq) if rng.uniform() < .5 else src(Tq)
    c.note(kind=kind, T=T, rate=rate, energy=int(emode), pol=int(pmode))
    c.seen('combination', f'{kind} energy{emode} pol{pmode}')
    basic(c, t, T)
    c.check(abs(len(t) - rate * T) <= 1, 'number', 'number of photons is rate times exposure times area', got=len(t), want=rate * T)
    c.count('constant_rate')
    m = len(t)
    if m > 1:
        c.close(np.diff(np.asarray(t['time'])), 1 / rate, 'constant-rate', 'equal distances', rtol=1e-6, atol=1e-9 * T)
    en, po = np.asarray(t['energy']), np.asarray(t['polangle'])
    tt = np.asarray(t['time'])
    if emode < 2:
        c.close(en, e0, 'energy', 'constant energy', rtol=1e-6)
    elif emode == 2:
        c.same(kw['energy']['energy'].to_value(u.keV).round(9), ex0.round(9), 'untouched', 'table of energies')
        if m > 50:
            follow(c, en, ex, ey, 'spectrum', 'spectrum')
    else:
        k = [x for x in calls if x[0] == 'e']
        c.check(len(k) == 1, 'energy-call', 'energy function is called once')
        c.close(k[0][1].to_value(u.s), tt, 'energy-call', 'energy function receives the photon times', rtol=1e-12)
        c.close(en, 1 + np.sin(tt / T * 7)**2, 'energy-call', 'energies of the function are used', rtol=1e-12)
        c.count('callables')
    if pmode == 0:
        c.close(po, p0, 'polarization', 'constant polarization', rtol=1e-9)
    elif pmode == 1:
        if m > 50:
            follow(c, po, px, py, 'polarization-density', 'polarization')
    elif pmode == 2:
        k = [x for x in calls if x[0] == 'p']
        c.check(len(k) == 1, 'polarization-call', 'polarization function is called once')
        c.close(k[0][1].to_value(u.s), tt, 'polarization-call', 'polarization function receives the photon times', rtol=1e-12)
        c.close(k[0][2].to_value(u.keV), en, 'polarization-call', 'polarization function receives the photon energies', rtol=1e-12)
        c.close(po, tt / T + en, 'polarization-call', 'angles of the function are used', rtol=1e-12)
        c.count('callables')
    elif m > 50:
        c.count('statistical')
        c.pvalue(stats.kstest(po / 2 / np.pi, 'uniform').pvalue, 'unpolarized', 'unpolarized: uniform angles')
    if m > 50 and emode == 2:
        c.count('statistical')
        c.pvalue(stats.spearmanr(tt, en).pvalue, 'independent', 'energies do not depend on time')
        if pmode in (1, 3):
            c.count('statistical')
            c.pvalue(stats.spearmanr(po, en).pvalue, 'independent', 'polarization does not depend on energy')


@W(quick=60, thorough=600, cpu=20)
def poisson(c):
    from marxs.source import poisson_process
    rng = c.rng
    mu = float(rng.choice([.01, .1, .5, .9, 1., 2., 5., 20., 2000.]))
    T = 10**rng.uniform(-3, 6)
    A = 10**rng.uniform(-2, 4) * u.cm**2
    A = A.to([u.cm**2, u.mm**2][rng.integers(2)])
    rate = (mu / (T * u.s) / A).to([1 / u.s / u.cm**2, 1 / u.h / u.m**2][rng.integers(2)])
    kind = KINDS[rng.choice([0, 1, 2, 4])]
    src = make(rng, kind, flux=poisson_process(rate), geomarea=A)
    rep = 3 if mu > 100 else 60
    tot, times, first = 0, [], []
    c.note(mu=mu, T=T, kind=kind)
    for _ in range(rep):
        t = src.generate_photons(T * u.s)
        basic(c, t, T)
        tot += len(t)
        times.append(np.asarray(t['time']))
    c.count('poisson_runs', rep)
    if mu < 10:
        c.count('few_photons', rep)
    lam = mu * rep
    c.count('statistical')
    c.pvalue(min(1., 2 * min(stats.poisson.cdf(tot, lam), stats.poisson.sf(tot - 1, lam))), 'poisson-number', 'number of photons is Poisson distributed')
    x = np.concatenate(times) / T
    if len(x) > 20:
        c.count('statistical')
        c.pvalue(stats.kstest(x, 'uniform').pvalue, 'poisson-times', 'arrival times are uniform')
    k = np.array([len(v) for v in times])
    if rep > 10 and mu < 100:
        c.count('statistical')
        s2 = k.var(ddof=1)
        # index of dispersion test
        D = (rep - 1) * s2 / max(k.mean(), 1e-300)
        if lam > 60:
            c.pvalue(2 * min(stats.chi2.sf(D, rep - 1), stats.chi2.cdf(D, rep - 1)), 'poisson-variance', 'variance of the number of photons')
    if mu > 100:
        gaps = np.concatenate([np.diff(v) for v in times]) * mu / T
        c.count('statistical')
        c.pvalue(stats.kstest(gaps, 'expon').pvalue, 'poisson-gaps', 'waiting times are exponential')


@W(quick=4, thorough=60)
def few(c):
    """distribution of the number of photons if less than one is expected"""
    from marxs.source import poisson_process
    rng = c.rng
    mu = rng.uniform(.6, .9) if c.idx % 2 == 0 else rng.uniform(1., 3.)
    T = 10**rng.uniform(-2, 5) * u.s
    A = 10**rng.uniform(-2, 4) * u.cm**2
    f = poisson_process(mu / T / A)
    k = np.array([len(f(T, A)) for _ in range(1000)])
    c.count('poisson_runs', len(k))
    c.count('few_photons', len(k))
    n = np.arange(0, 6)
    want = stats.poisson.pmf(n, mu)
    obs = np.bincount(np.minimum(k, 6), minlength=7)
    want = np.append(want, 1 - want.sum()) * len(k)
    obs, want = np.append(obs[:4], obs[4:].sum()), np.append(want[:4], want[4:].sum())
    c.count('statistical')
    c.pvalue(stats.chisquare(obs, want).pvalue, 'poisson-distribution', f'number of photons is Poisson distributed: expected {np.round(want)}, seen {obs}')


@W(quick=30, thorough=300)
def flux_function(c):
    rng = c.rng
    n = int(rng.choice([0, 1, 50]))
    T = 10**rng.uniform(0, 5)
    A = 10**rng.uniform(-1, 3) * u.cm**2
    tt = np.sort(rng.uniform(0, T, n))
    calls = []

    def flux(exposure, area):
        calls.append((exposure, area))
        return (tt * u.s).to([u.s, u.min][len(calls) % 2])
    kind = KINDS[rng.integers(6)]
    t = make(rng, kind, flux=flux, geomarea=A).generate_photons(T * u.s)
    c.note(kind=kind, n=n, T=T)
    c.check(len(calls) == 1, 'flux-call', 'flux function is called once')
    c.close(calls[0][0].to_value(u.s), T, 'flux-call', 'flux function receives the exposure time', rtol=1e-12)
    c.close(u.Quantity(calls[0][1]).to_value(u.cm**2), A.to_value(u.cm**2), 'flux-call', 'flux function receives the area', rtol=1e-12)
    c.close(np.asarray(t['time']), tt, 'flux-call', 'arrival times of the function are used', rtol=1e-12)
    basic(c, t, T)
    c.count('callables')


@W(quick=30, thorough=120)
def invalid(c):
    from marxs.source import PointSource, Source, poisson_process
    rng = c.rng
    from marxs.source.basesources import SourceSpecificationError as E
    U = (u.UnitsError, TypeError, E, ValueError)
    pos = SkyCoord(0., 0., unit='deg')
    T = 10 * u.s
    bad = [
        lambda: Source(flux=np.array([1., 2.]) / u.s / u.cm**2).generate_photons(T),
        lambda: Source(flux='high').generate_photons(T),
        lambda: Source(energy=np.array([1., 2.]) * u.keV).generate_photons(T),
        lambda: Source(energy=3 * u.mm**2).generate_photons(T),
        lambda: Source(energy=2.).generate_photons(T),
        lambda: Source(energy=lambda t: np.ones(3) * u.keV).generate_photons(T),
        lambda: Source(energy=lambda t: np.ones(len(t)) * u.s).generate_photons(T),
        lambda: Source(polarization=np.array([1., 2.]) * u.rad).generate_photons(T),
        lambda: Source(polarization=lambda t, e: np.ones(4) * u.rad).generate_photons(T),
        lambda: Source(polarization=2 * u.mm).generate_photons(T),
        lambda: Source(polarization=2.).generate_photons(T),
        lambda: Source().generate_photons(10.),
        lambda: Source().generate_photons(10. * u.mm),
        lambda: poisson_process(3 / u.s),
        lambda: poisson_process(np.array([1., 2.]) / u.s / u.cm**2),
        lambda: PointSource(coords=SkyCoord([0., 1], [0., 1], unit='deg')),
        lambda: Source(energy=QTable({'energy': [1, 2, 3] * u.keV, 'fluxdensity': [1, -2, 3] / u.s / u.cm**2 / u.keV})).generate_photons(T),
        lambda: Source(energy=QTable({'energy': [1, 3, 2] * u.keV, 'fluxdensity': [1, 2, 3] / u.s / u.cm**2 / u.keV})).generate_photons(T),
        lambda: Source(energy=QTable({'energy': [1, 2, 3] * u.keV, 'fluxdensity': [1, 2, 3] / u.s / u.keV})).generate_photons(T),
        lambda: Source(energy=QTable({'energy': [1, 2, 3] * u.keV, 'fluxdensity': [1, 0, 0] / u.s / u.cm**2 / u.keV})).generate_photons(T),
    ]
    i = c.idx % len(bad)
    c.note(which=i)
    c.raises(U, bad[i], 'invalid', f'invalid specification {i}')
    c.count('rejected')
