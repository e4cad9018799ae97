"""C28: parameters of a line-spread function describe the same line profile."""
import os
import tempfile
import warnings

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table
from scipy import stats

from vmon.core import Registry

W = Registry('C28', rule='profiles were evaluated before and after conversion, tables were compared to what was put in, and every row of the response '
             'matrices was compared to integrals of the analytic profile',
             require={'profiles': 1500, 'gridpoints': 3000, 'rows': 2000, 'files': 60, 'fits': 15},
             assumptions=['sherpa evaluates its own model components correctly'])
S2F = 2 * np.sqrt(2 * np.log(2))


def lsf():
    import logging
    logging.getLogger('sherpa').setLevel(logging.ERROR)
    warnings.filterwarnings('ignore')
    from marxs.reduction import lsfparm
    return lsfparm


def comps(rng, n=None):
    """names of the components: G for Gaussian, L for Lorentz"""
    n = int(rng.integers(1, 5)) if n is None else n
    kinds = [str(rng.choice(['GAUSS', 'LORENTZ'])) for i in range(n)]
    # numbers can have more than one digit
    num = {'GAUSS': int(rng.choice([0, 0, 8, 9])), 'LORENTZ': int(rng.choice([0, 0, 8, 9]))}
    out = []
    for k in kinds:
        num[k] += 1
        out.append(f'{k}{num[k]}')
    return out


def component(name, par):
    """par: ampl, sigma (or FWHM), pos"""
    from sherpa.astro.models import Lorentz1D
    from sherpa.models import NormGauss1D
    m = NormGauss1D(name) if name.startswith('GAUSS') else Lorentz1D(name)
    a, w, p = par
    m.ampl, m.fwhm, m.pos = float(a), float(w * S2F if name.startswith('GAUSS') else w), float(p)
    return m


def total(ms):
    return sum(ms[1:], ms[0])


def pars(rng, names, wave=None):
    wave = rng.uniform(2, 80) if wave is None else wave
    return {n: np.array([rng.uniform(.05, 3), 10**rng.uniform(-3, 0), wave + rng.normal() * .05]) for n in names}


def ref(p, lo, hi, norm=True):
    """integral of the profile from lo to hi"""
    amp = sum(v[0] for v in p.values()) if norm else 1.
    out = 0.
    for n, (a, w, x) in p.items():
        d = stats.norm(x, w) if n.startswith('GAUSS') else stats.cauchy(x, w / 2)
        out = out + a / amp * (d.cdf(hi) - d.cdf(lo))
    return out


def bins(rng, wave, width=.5):
    e = np.sort(wave + rng.normal(size=int(rng.integers(3, 40))) * width)
    return e[:-1], e[1:]


@W(quick=250, thorough=4000)
def components(c):
    """one model -> one set of parameters per component -> the same model"""
    L = lsf()
    rng = c.rng
    names = comps(rng)
    p = pars(rng, names)
    ms = [component(n, p[n]) for n in names]
    # any nesting of the sum
    parts = list(ms)
    while len(parts) > 1:
        i = int(rng.integers(len(parts) - 1))
        parts[i:i + 2] = [parts[i] + parts[i + 1]]
    model = parts[0]
    c.note(names=names, pars=p)
    flat = L.flatten_sherpa_model(model)
    c.check([m.name for m in flat] == names, 'flatten', 'the components of a model are those it was made of, in that order', got=[m.name for m in flat])
    d = L.sherpa2caldb(model)
    c.check(set(d) == set(names), 'component-names', 'one set of parameters per component', got=sorted(d))
    for n in names:
        c.close(d[n], p[n], 'parameters', 'parameters are amplitude, width (sigma of a Gaussian, FWHM of a Lorentzian) and position', rtol=1e-10)
        c.close([par.val for par in component(n, d[n]).pars], [par.val for par in dict(zip(names, ms))[n].pars], 'round-trip-component', 'a component made from its parameters is the same', rtol=1e-10)
    lo, hi = bins(rng, np.mean([v[2] for v in p.values()]))
    c.close(model(lo, hi), ref(p, lo, hi, norm=False), 'tabulated-profile', 'the tabulated parameters describe the profile of the model', rtol=1e-6, atol=1e-7)
    for n, m in zip(names, ms):
        c.close([m.ampl.val, m.pos.val], p[n][[0, 2]], 'input-model', 'the model is not changed', rtol=0)
    from sherpa.models import Const1D, Scale1D, Gauss1D
    bad = [Const1D('X'), Gauss1D('GAUSS9')][int(rng.integers(2))]
    c.raises(Exception, lambda: L.sherpa2caldb(model + bad), 'invalid-component', 'a component that cannot be tabulated is rejected')
    c.count('profiles', 1)
    c.count('gridpoints', len(names))
    c.seen('names', tuple(names))


def fill(rng, widths, waves, names, func, ee):
    """a table filled with parameters from func(width, wave)"""
    L = lsf()
    tmpl = total([component(n, (1, 1, 1)) for n in names])
    t = L.empty_lsfparmtable(widths, waves, tmpl, str(rng.choice(['MEG', 'HEG', 'LEG'])), int(rng.integers(-5, 6)))
    for i, x in enumerate(widths):
        for j, y in enumerate(waves):
            t['EE_FRACS'][0][i, j] = ee(x, y)
            d = L.sherpa2caldb(total([component(n, q) for n, q in func(x, y).items()]))
            for k, v in d.items():
                t[k + '_PARMS'][0][i, j] = v
    return t


def axes(rng, nw=None, nl=None):
    nw = int(rng.choice([1, 1, 2, 3, 5])) if nw is None else nw
    nl = int(rng.integers(4, 12)) if nl is None else nl
    lo = rng.uniform(2, 60)
    widths = np.cumsum(rng.uniform(.5, 2, nw))
    waves = lo + np.cumsum(rng.uniform(.5, 2, nl))
    return widths.astype(np.float32).astype(float), waves.astype(np.float32).astype(float)


def ident(t, k):
    """values, independent of masks and units"""
    return np.asarray(t[k])


def frozen(t):
    return {k: ident(t, k).copy() for k in t.colnames}, dict(t.meta)


def values(model, names, c):
    """enclosed fraction and parameters by component"""
    L = lsf()
    flat = {m.name: m for m in L.flatten_sherpa_model(model)}
    got = {}
    for n in names:
        m = flat.get(n + '_PARMS', flat.get(n))
        if m is None:
            c.check(False, 'model-components', 'the model has every tabulated component', got=sorted(flat), want=n)
            return None, None
        got[n] = np.array([m.ampl.val, m.fwhm.val / (S2F if n.startswith('GAUSS') else 1), m.pos.val])
    c.check(len(flat) == len(names) + 1, 'model-components', 'the model has no other components than tabulated', got=sorted(flat))
    e = [m.c0.val for k, m in flat.items() if k.startswith('EE_FRACS')]
    return e[0], got


@W(quick=120, thorough=2000)
def tables(c):
    """the table has the documented shape and gives back what was put in, also between the tabulated values"""
    L = lsf()
    rng = c.rng
    names = comps(rng)
    widths, waves = axes(rng)
    known = {(x, y): pars(rng, names, wave=y) for x in widths for y in waves}
    eef = {k: rng.uniform(.3, 1) for k in known}
    t = fill(rng, widths, waves, names, lambda x, y: known[x, y], lambda x, y: eef[x, y])
    c.note(names=names, widths=widths, waves=waves)
    c.check(len(t) == 1 and t['NUM_WIDTHS'][0] == len(widths) and t['NUM_LAMBDAS'][0] == len(waves), 'table-numbers', 'number of widths and wavelengths')
    c.close(ident(t, 'WIDTHS')[0], widths, 'table-widths', 'extraction widths', rtol=1e-6)
    c.close(ident(t, 'LAMBDAS')[0], waves, 'table-waves', 'wavelengths', rtol=1e-6)
    c.check(bool((ident(t, 'TG_LAM_LO') < ident(t, 'LAMBDAS')).all() and (ident(t, 'TG_LAM_HI') > ident(t, 'LAMBDAS')).all()), 'table-range',
            'every wavelength is in the range it was extracted from')
    c.check([k[:-6] for k in t.colnames if k.endswith('_PARMS')] == names, 'table-columns', 'one column per component', got=t.colnames)
    if rng.uniform() < .4:
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, 'lsfparm.fits')
            t.write(fn)
            back = Table.read(fn)
            for k in t.colnames:
                c.same(ident(t, k).astype(float), ident(back, k).reshape(ident(t, k).shape).astype(float), 'file-' + k, f'{k} in the file is the one in the table')
            lost = {k: (v, back.meta.get(k)) for k, v in t.meta.items() if k != 'EXTNAME' and back.meta.get(k) != v}
            c.check(not lost, 'file-header', 'every header keyword is in the file', got=lost)
            t = back
            c.count('files', 1)
    was = frozen(t)
    kind = str(rng.choice(['cubic', 'linear']))
    sp = L.CALDB_interp(t[0], kind=kind)
    for q in range(12):
        i, j = int(rng.integers(len(widths))), int(rng.integers(len(waves)))
        k = widths[i], waves[j]
        amp = sum(v[0] for v in known[k].values())
        m1 = L.caldb2sherpa(t, 0, i, j)
        m2 = L.sherpa_from_spline(sp, widths[i] * u.degree, waves[j] * u.Angstrom)
        for m, mech in [(m1, 'caldb2sherpa'), (m2, 'interpolated')]:
            e, p = values(m, names, c)
            if p is None:
                return
            c.close(e, eef[k], mech + '-enclosed', f'{mech}: enclosed fraction at a tabulated point', rtol=2e-5, x=i, y=j)
            for n in names:
                c.close(p[n], known[k][n] / [amp, 1, 1], mech + '-parameters', f'{mech}: parameters at a tabulated point, with amplitudes that add up to one',
                        rtol=2e-5, atol=3e-6, x=i, y=j)
            lo, hi = bins(rng, waves[j])
            # rounding of parameters to 32 bit
            tol = 1e-3 if min(v[1] for v in known[k].values()) < .01 else 2e-4
            c.close(m(lo, hi), eef[k] * ref(known[k], lo, hi), mech + '-profile', f'{mech}: profile at a tabulated point', rtol=0, atol=5 * tol)
            c.count('profiles', 1)
        c.count('gridpoints', 2)
    if kind == 'linear':
        i = int(rng.integers(len(widths)))
        j = int(rng.integers(len(waves) - 1))
        f = rng.uniform()
        g = rng.uniform() if i + 1 < len(widths) else 0.
        x = widths[i] + (g * (widths[i + 1] - widths[i]) if g else 0)
        y = waves[j] + f * (waves[j + 1] - waves[j])
        e, p = values(L.sherpa_from_spline(sp, x * u.degree, y * u.Angstrom), names, c)

        def between(func):
            at = lambda a: (1 - f) * func((widths[a], waves[j])) + f * func((widths[a], waves[j + 1]))
            return at(i) if not g else (1 - g) * at(i) + g * at(i + 1)
        c.close(e, between(lambda k: eef[k]), 'between-enclosed', 'linear interpolation of the enclosed fraction', rtol=1e-4)
        raw = {n: between(lambda k: known[k][n]) for n in names}
        amp = sum(v[0] for v in raw.values())
        for n in names:
            c.close(p[n], raw[n] / [amp, 1, 1], 'between-parameters', 'linear interpolation of the parameters', rtol=1e-4, atol=1e-5)
        c.count('gridpoints', 1)
    now = frozen(t)
    for k in was[0]:
        c.same(was[0][k].astype(float), now[0][k].astype(float), 'table-changed', f'using a table does not change {k}')
    c.check(was[1] == now[1], 'table-changed', 'using a table does not change its header')
    # rejected models
    dup = total([component(names[0], (1, 1, 1)), component(names[0], (1, 1, 1))])
    c.raises(ValueError, lambda: L.empty_lsfparmtable(widths, waves, dup, 'MEG', 1), 'duplicate-names', 'two components of the same name are rejected')
    from sherpa.models import Gauss1D
    c.raises(ValueError, lambda: L.empty_lsfparmtable(widths, waves, component(names[0], (1, 1, 1)) + Gauss1D('GAUSS7'), 'MEG', 1), 'invalid-type',
             'components of a type that cannot be tabulated are rejected')
    c.seen('shape', (len(widths), len(waves), kind))


@W(quick=16, thorough=160, cpu=120)
def single(c):
    """tables for a single wavelength"""
    L = lsf()
    rng = c.rng
    names = comps(rng)
    widths, waves = axes(rng, nl=1)
    known = {(x, waves[0]): pars(rng, names, wave=waves[0]) for x in widths}
    t = fill(rng, widths, waves, names, lambda x, y: known[x, y], lambda x, y: .5)
    for i in range(len(widths)):
        e, p = values(L.caldb2sherpa(t, 0, i, 0), names, c)
        k = known[widths[i], waves[0]]
        amp = sum(v[0] for v in k.values())
        for n in names:
            c.close(p[n], k[n] / [amp, 1, 1], 'caldb2sherpa-parameters', 'parameters at the only wavelength', rtol=2e-5, atol=3e-6)
        c.count('profiles', 1)


@W(quick=40, thorough=600)
def rows(c):
    """tables with several rows"""
    L = lsf()
    from astropy.table import vstack
    rng = c.rng
    names = comps(rng)
    widths, waves = axes(rng)
    n = int(rng.integers(2, 4))
    known = [{(x, y): pars(rng, names, wave=y) for x in widths for y in waves} for i in range(n)]
    ee = rng.uniform(.3, 1, n)
    t = vstack([fill(rng, widths, waves, names, lambda x, y, k=k: k[x, y], lambda x, y, e=e: e) for k, e in zip(known, ee)], metadata_conflicts='silent')
    for q in range(6):
        r, i, j = int(rng.integers(n)), int(rng.integers(len(widths))), int(rng.integers(len(waves)))
        k = known[r][widths[i], waves[j]]
        amp = sum(v[0] for v in k.values())
        sp = L.CALDB_interp(t[r], kind='linear')
        for m, mech in [(L.caldb2sherpa(t, r, i, j), 'caldb2sherpa'), (L.sherpa_from_spline(sp, widths[i] * u.degree, waves[j] * u.Angstrom), 'interpolated')]:
            e, p = values(m, names, c)
            if p is None:
                return
            c.close(e, ee[r], mech + '-row', f'{mech}: enclosed fraction of the row asked for', rtol=2e-5)
            for nm in names:
                c.close(p[nm], k[nm] / [amp, 1, 1], mech + '-row', f'{mech}: parameters of the row asked for', rtol=2e-5, atol=3e-6)
            c.count('profiles', 1)
        c.count('rows', 1)


@W(quick=40, thorough=600)
def smooth(c):
    """cubic interpolation follows parameters that vary smoothly with wavelength"""
    L = lsf()
    rng = c.rng
    names = comps(rng)
    widths, waves = axes(rng, nl=int(rng.integers(4, 12)))
    z = lambda y: (y - waves[0]) / np.ptp(waves)
    co = {n: rng.uniform(-1, 1, (3, 3)) for n in names}
    # few widths: linear in width

    def func(x, y):
        s = 1 + .1 * (x - widths[0]) / max(np.ptp(widths), 1)
        poly = lambda q: q[0] * z(y) + q[1] * z(y)**2 + q[2] * z(y)**3
        return {n: np.array([s * (1 + .3 * poly(q[0])), s * .1 * (1 + .3 * poly(q[1])), y + .05 * poly(q[2])]) for n, q in co.items()}
    ec = rng.uniform(-1, 1, 3)
    ee = lambda x, y: .5 + .1 * (ec[0] * z(y) + ec[1] * z(y)**2 + ec[2] * z(y)**3)
    t = fill(rng, widths, waves, names, func, ee)
    sp = L.CALDB_interp(t[0])
    c.note(names=names, widths=widths, waves=waves)
    for q in range(5):
        x = float(rng.choice(widths)) if len(widths) == 1 or rng.uniform() < .5 else float(rng.uniform(widths[0], widths[-1]))
        y = float(rng.uniform(waves[0], waves[-1]))
        e, p = values(L.sherpa_from_spline(sp, x * u.degree, y * u.Angstrom), names, c)
        if p is None:
            return
        c.close(e, ee(x, y), 'smooth-enclosed', 'enclosed fraction between tabulated wavelengths', rtol=1e-4)
        raw = func(x, y)
        amp = sum(v[0] for v in raw.values())
        for n in names:
            c.close(p[n], raw[n] / [amp, 1, 1], 'smooth-parameters', 'parameters between tabulated wavelengths', rtol=2e-4, atol=3e-5)
        c.count('gridpoints', 1)


@W(quick=60, thorough=900, cpu=120)
def response(c):
    """every row of the matrix is the profile at that wavelength"""
    L = lsf()
    rng = c.rng
    names = comps(rng)
    widths, waves = axes(rng)
    lo, hi = waves[0], waves[-1]
    # parameters that are linear in wavelength and width are interpolated exactly
    base = {n: [rng.uniform(.2, 2), rng.uniform(.01, .2), rng.uniform(-.05, .05)] for n in names}
    slope = {n: [rng.uniform(0, 1), rng.uniform(0, .1), 0.] for n in names}
    ws = rng.uniform(0, .3)

    def func(x, y):
        f = (y - lo) / (hi - lo)
        return {n: np.array([base[n][0] + f * slope[n][0] + ws * x, base[n][1] + f * slope[n][1] + ws * .1 * x, y + base[n][2]]) for n in names}

    def ee(x, y):
        return .4 + .3 * (y - lo) / (hi - lo) + .2 * (x - widths[0]) / max(np.ptp(widths), 1)
    t = fill(rng, widths, waves, names, func, ee)
    t.meta['GRATING'] = 'HETG'
    was = frozen(t)
    x = float(rng.choice(widths)) if len(widths) == 1 or rng.uniform() < .5 else float(rng.uniform(widths[0], widths[-1]))
    n = int(rng.integers(5, 150))
    edges = np.linspace(lo + .02, hi - .02, n + 1)
    if rng.uniform() < .4:
        edges = np.sort(rng.uniform(lo + .02, hi - .02, n + 1))
    kind = str(rng.choice(['cubic', 'linear']))
    thr = float(10**rng.uniform(-9, -3))
    c.note(names=names, widths=widths, waves=waves, n=n, kind=kind, threshold=thr, width=x)
    r = L.make_rmf(t[0], edges * u.Angstrom, x * u.degree, threshold=thr, kw_interp={'kind': kind})
    hc = 12.398419843320028
    e_lo = np.asarray(u.Quantity(r.ebounds['E_MIN'], u.keV).value, float)
    e_hi = np.asarray(u.Quantity(r.ebounds['E_MAX'], u.keV).value, float)
    c.check(len(r.ebounds) == n and len(r.matrix) == n, 'rmf-size', 'one row and one channel per bin')
    c.close(np.sort(np.hstack([hc / e_hi, [hc / e_lo.min()]])), edges, 'rmf-channels', 'channels are the bins asked for', rtol=1e-5)
    c.check(bool((np.diff(e_lo) > 0).all()), 'rmf-order', 'channels are in increasing energy')
    a_lo, a_hi = hc / e_hi, hc / e_lo
    mid = (a_lo + a_hi) / 2
    for k in rng.choice(n, min(n, 40), replace=False):
        k = int(k)
        row = np.asarray(r.full_rmf(.5 * (e_lo[k] + e_hi[k]) * u.keV)[2], float)
        p = func(x, mid[k])
        want = ee(x, mid[k]) * ref(p, a_lo, a_hi)
        bad = np.abs(row - want) > 2e-4 * want + 5e-6 + np.where(want < thr * 1.01, thr, 0)
        c.check(not bad.any(), 'rmf-profile', 'a row of the matrix is the enclosed fraction times the integral of the profile over each channel', row=k, got=row[bad][:4],
                want=want[bad][:4], where=np.nonzero(bad)[0][:4])
        cut = (row > 0) & (row < thr * (1 - 1e-5))
        c.check(not cut.any(), 'rmf-threshold', 'no value below the threshold is recorded', got=row[cut][:4])
        c.check(row.sum() <= ee(x, mid[k]) * (1 + 1e-4), 'rmf-normalisation', 'a row adds up to no more than the enclosed fraction', got=row.sum(), want=ee(x, mid[k]))
        c.count('rows', 1)
    c.check(r.matrix.meta.get('GRATING') == 'HETG' and r.ebounds.meta.get('GRATING') == 'HETG', 'rmf-header', 'header keywords are taken over')
    c.check(r.matrix.meta['DETCHANS'] == n, 'rmf-detchans', 'number of channels')
    now = frozen(t)
    for k in was[0]:
        c.same(was[0][k].astype(float), now[0][k].astype(float), 'table-changed', f'making a response does not change {k}')
    c.check(was[1] == now[1], 'table-changed', 'making a response does not change the header of the table')
    if rng.uniform() < .4:
        R = type(r)
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, 'x.rmf')
            r.write(fn)
            b = R.read(fn)
            k = int(rng.integers(n))
            en = .5 * (e_lo[k] + e_hi[k]) * u.keV
            c.close(np.asarray(b.full_rmf(en)[2], float), np.asarray(r.full_rmf(en)[2], float), 'rmf-file', 'the matrix in the file is the one written', rtol=1e-5, atol=1e-12)
        c.count('files', 1)
    c.seen('names', tuple(names))


@W(quick=24, thorough=200, cpu=200)
def normalised(c):
    """a line far from the ends of the range is recorded completely, and centred"""
    L = lsf()
    rng = c.rng
    names = [f'GAUSS{i + 1}' for i in range(int(rng.integers(1, 4)))]
    widths, waves = axes(rng)
    sig = {n: rng.uniform(.02, .06) for n in names}
    amp = {n: rng.uniform(.2, 2) for n in names}
    f = rng.uniform(.2, 1)
    t = fill(rng, widths, waves, names, lambda x, y: {n: np.array([amp[n], sig[n], y]) for n in names}, lambda x, y: f)
    n = int(rng.integers(100, 250))
    edges = np.linspace(waves[0], waves[-1], n + 1)
    r = L.make_rmf(t[0], edges * u.Angstrom, widths[0] * u.degree, threshold=1e-9)
    hc = 12.398419843320028
    mid = .5 * (edges[1:] + edges[:-1])
    for j in rng.choice(n, 20):
        if min(mid[j] - edges[0], edges[-1] - mid[j]) < .4:
            continue
        lo, hi, row = r.full_rmf(mid[j] * u.Angstrom)
        row = np.asarray(row, float)
        wav = .5 * (hc / np.asarray(u.Quantity(lo, u.keV).value) + hc / np.asarray(u.Quantity(hi, u.keV).value))
        c.close(row.sum(), f, 'normalisation', 'a line in the middle of the range adds up to the enclosed fraction', rtol=1e-4)
        c.close((row * wav).sum() / row.sum(), mid[j], 'centre', 'a line is centred on its wavelength', rtol=0, atol=2e-3 * (edges[1] - edges[0]) + 2e-5 * mid[j])
        c.count('rows', 1)


@W(quick=20, thorough=120, cpu=200)
def fits(c):
    """a profile fitted to photons is the one the photons were drawn from, up to noise"""
    L = lsf()
    rng = c.rng
    n = int(rng.integers(20000, 60000))
    wave = rng.uniform(3, 60)
    sig = rng.uniform(.002, .007)
    wav = rng.normal(wave, sig, n)
    prob = rng.uniform(.2, 1, n) if rng.uniform() < .6 else np.ones(n)
    unit = rng.choice([u.Angstrom, u.nm])
    col = str(rng.choice(['tg_mlam', 'wave']))
    f = (1 * u.Angstrom).to(unit).value
    evt = QTable({col: (wav * u.Angstrom).to(unit), 'probability': prob})
    evt.meta['EXPOSURE'] = 3.
    keep = evt.copy()
    m = component('GAUSS1', (n, sig * f * rng.uniform(.7, 1.4), f * (wave + rng.normal() * sig * .3)))
    bin_, half = rng.choice([.001, .0005]) * f, 6 * sig * f
    c.note(n=n, wave=wave, sigma=sig, unit=str(unit))
    # the optimizer takes numerical derivatives with a step relative to the value of a parameter, which has to be small compared to the line
    from sherpa.optmethods import LevMar
    method = LevMar()
    method.epsfcn = 1e-13
    data, res = L.fit_LSF(evt, m, wavebin=bin_, d_wave=half, colname=col, method=method)
    c.check(bool(res.succeeded), 'fit-success', 'a fit to a Gaussian succeeds')
    d = L.sherpa2caldb(m)['GAUSS1']
    w2 = np.sqrt((prob**2).sum()) / prob.sum()
    c.close(d[0], prob.sum(), 'fit-amplitude', 'the amplitude is the weight of all photons', rtol=10 * w2 + 2e-3)
    c.close(d[1], sig * f, 'fit-sigma', 'the width is that of the distribution', rtol=12 * w2 + 5e-3)
    c.close(d[2], wave * f, 'fit-position', 'the position is that of the distribution', rtol=0, atol=10 * sig * f * w2 + 1e-3 * sig * f)
    # the histogram
    x = evt[col].value
    for q in range(5):
        k = int(rng.integers(len(data.y)))
        ind = (x >= data.xlo[k]) & (x < data.xhi[k])
        c.close(data.y[k], prob[ind].sum(), 'fit-histogram', 'the histogram holds the probability of photons in each bin', rtol=1e-9, atol=1e-9)
    c.close(data.xhi - data.xlo, np.full(len(data.y), bin_), 'fit-bins', 'bins have the width asked for', rtol=1e-6)
    c.close([data.xlo[0], data.xhi[-1]], [x.mean() - half, x.mean() + half], 'fit-range', 'the range is the one asked for', rtol=0, atol=1.01 * bin_)
    same = all(np.array_equal(u.Quantity(evt[k]).value, u.Quantity(keep[k]).value) for k in keep.colnames)
    c.check(same and evt.colnames == keep.colnames and evt.meta == keep.meta, 'fit-events', 'fitting does not change the photon list')
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    fig = Figure()
    ax = fig.subplots(2)
    L.plot_LSFfit(data, m, ax)
    for a in ax:
        lines = {ln.get_label(): ln for ln in a.lines}
        c.check('Data' in lines and 'model' in lines, 'plot-lines', 'data and model are plotted', got=sorted(lines))
        c.close(lines['Data'].get_ydata(), data.y, 'plot-data', 'the data is plotted', rtol=0)
        c.close(lines['model'].get_ydata(), m(data.xlo, data.xhi), 'plot-model', 'the model is plotted', rtol=1e-12)
    c.count('fits', 1)
    c.count('statistical', 3)
