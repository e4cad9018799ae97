"""C36: Arcus response files and the analysis of simulated grids agree with the instrument model."""
import glob
import os
import shutil
import tempfile
from copy import deepcopy

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table

from vmon import gen as G
from vmon.core import Registry

W = Registry('C36', rule='every bin of a generated response and every cell of an analysed grid was compared to the numbers in the calibration and to counting photons by hand; '
             'simulated photons were compared to the response of their order',
             require={'bins': 3000, 'on ccd': 400, 'off ccd': 200, 'cells': 1500, 'resolutions': 150, 'rays': 500},
             assumptions=['the calibration data base is made up (vmon/arcuscal.py)', 'reading and writing of FITS and ECSV tables is right'])
HC = 12.398419843320026   # keV * Angstrom
FILTERS = [('filters', 'sifilter'), ('filters', 'opticalblocking'), ('filters', 'uvblocking'), ('detectors', 'contam'), ('detectors', 'qe')]
OFFSET = {'1': 0, '2': 1000, '1m': 10000, '2m': 11000}


def arcus():
    from vmon import arcuscal
    return arcuscal.make(np.random.default_rng(20240601))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vmon36')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def camera(C, conf):
    """ends of all CCDs in the plane of dispersion"""
    cam = C['arcus'].DetCamera(conf)
    P = np.array([[(np.asarray(e.pos4d) @ [0, s, 0, 1])[[0, 2]] for s in (-1, 1)] for e in cam.elements])
    return P


def crossed(P, x0, f, s):
    """Does a ray from (x0, f) hit one of the CCDs? ``s`` is the sine of the angle. Returns also the distance (mm) to the closest end of a CCD"""
    s = np.asarray(s, float)
    bad = np.abs(s) > 1
    dx, dz = s, -np.sqrt(np.clip(1 - s**2, 0, None))
    hit = np.zeros(len(s), bool)
    near = np.full(len(s), np.inf)
    for a, b in P:
        ca = dx * (a[1] - f) - dz * (a[0] - x0)
        cb = dx * (b[1] - f) - dz * (b[0] - x0)
        hit |= ca * cb < 0
        near = np.minimum(near, np.minimum(np.abs(ca), np.abs(cb)))
    return hit & ~bad, np.where(bad, 100., near)


def config(rng, C):
    conf = dict(C['arcus'].defaultconf)
    if rng.uniform() < .5:
        conf['blazeang'] = rng.uniform(0, 4)
    if rng.uniform() < .4:      # another focal length
        conf['f'] = conf['f'] * rng.uniform(.97, 1.03)
    if rng.uniform() < .4:      # other optical axes
        conf['pos_opt_ax'] = {k: np.asarray(v) * [rng.uniform(.9, 1.1), 1, 1, 1] for k, v in conf['pos_opt_ax'].items()}
    if rng.uniform() < .3:      # the camera is elsewhere
        conf['phi_det_start'] = conf['phi_det_start'] * rng.uniform(.8, 1.3)
    return conf


def period(C, conf):
    return np.cos(np.deg2rad(conf['blazeang'])) * np.mean(np.asarray(C['facets']['period'], float)) * 1e7


@W(quick=200, thorough=6000)
def on_ccd(c):
    """Which wavelengths fall on a CCD"""
    C = arcus()
    from marxs.missions.arcus import arfrmf
    rng = c.rng
    conf = config(rng, C)
    chan = str(rng.choice(list(OFFSET)))
    o = int(rng.integers(-14, 6))
    # products of order and wavelength that reach the camera and beyond
    ml = rng.uniform(-60, 280, 200) if rng.uniform() < .7 else rng.uniform(-300, 2500, 200)
    w = np.sort(np.abs(ml / (o or 1))) + .01
    n = int(rng.choice([0, 1, 2, 200, 200, 200, 200]))
    w = w[:n] if n != 1 else w[-1:]
    unit = [u.AA, u.keV, u.nm, u.eV][int(rng.integers(4))]
    q = (w * u.AA).to(unit, equivalencies=u.spectral())
    c.note(order=o, chan=chan, blaze=conf['blazeang'], unit=str(unit))
    was = deepcopy(conf['pos_opt_ax'])
    q0 = q.copy()
    got = np.asarray(arfrmf.OnCCD(conf)(q, o, chan))
    x0 = float(conf['pos_opt_ax'][chan][0])
    want, near = crossed(camera(C, conf), x0, conf['f'], np.sign(x0) * o * w / period(C, conf))
    c.check(got.shape == want.shape, 'shape', 'there is one value for each bin')
    sure = near > 1e-3
    c.check((got == want)[sure], 'on-ccd', 'a wavelength is on a CCD when a ray diffracted into the order hits a CCD', chan=chan, order=o, n=int((got != want)[sure].sum()))
    c.same(q.value, q0.value, 'input', 'input is not changed')
    for k in was:
        c.same(np.asarray(was[k]), np.asarray(conf['pos_opt_ax'][k]), 'input', 'the configuration is not changed')
    c.count('on ccd', int(want.sum()))
    c.count('off ccd', int((~want).sum()))
    c.seen('on ccd', (chan, o))


def tabulated(t, e):
    return np.interp(e, np.asarray(t['energy'], float), np.asarray(t[t.colnames[1]], float), left=0., right=0.)


def edges(rng):
    n = int(rng.choice([1, 2, 30, 100]))
    kind = str(rng.choice(['AA', 'keV', 'eV', 'nm']))
    w = np.sort(rng.uniform(4., 58., n + 1)) if rng.uniform() < .5 else np.linspace(*np.sort(rng.uniform(4, 58, 2)), n + 1)
    if np.min(np.diff(w)) < 1e-5:
        w = np.linspace(20, 40, n + 1)
    q = (w * u.AA).to(u.Unit(dict(AA='Angstrom').get(kind, kind)), equivalencies=u.spectral())
    return q if rng.uniform() < .5 else q[::-1]


@W(quick=120, thorough=3000)
def arf(c):
    """Effective area of one order"""
    C = arcus()
    from vmon import arcuscal
    from marxs.missions.arcus import arfrmf
    rng = c.rng
    conf = config(rng, C)
    e = edges(rng)
    o = int(rng.integers(-12, 4))
    given = rng.uniform() < .7
    chans = [str(x) for x in rng.permutation(list(OFFSET))[:int(rng.integers(1, 5))]]
    kw = {}
    tab = QTable.read(os.path.join(C['dir'], 'aeff', 'mirr_grat.tab'), format='ascii.ecsv')
    if given:
        tab = arcuscal.areas(rng)
        if rng.uniform() < .5:
            frac = rng.choice([1., .5])
            for k in tab.colnames:
                if k != 'wave' and rng.uniform() < frac:
                    tab[k] = tab[k].to(u.mm**2)
    was = tab.copy()
    if given:
        kind = str(rng.choice(['linear', 'linear', 'quadratic', 'nearest']))
        kw['mirr_grat'] = arfrmf.MirrGrat(tab, kind=kind)
    else:
        kind = 'quadratic'
    if rng.uniform() < .3:
        a = rng.uniform(.1, 1)
        kw['trans_filters_qe'] = lambda en: a * np.exp(-np.asarray(en))
    all_chans = rng.uniform() < .4
    if not all_chans:
        kw['channels'] = list(chans)
    else:
        chans = list(OFFSET)
    c.note(order=o, chans=chans, kind=kind, given=given, unit=str(e.unit))
    e0 = e.copy()
    t = arfrmf.mkarf(e, o, conf=conf, **kw)
    c.same(e.value, e0.value, 'input', 'the edges are not changed')
    c.check(kw.get('channels', chans) == chans, 'input', 'the list of channels is not changed')
    for k in tab.colnames:
        c.same(tab[k].value, was[k].value, 'input', 'the table of areas is not changed')
    E = np.sort(e.to_value(u.keV, equivalencies=u.spectral()))
    lo, hi = (t[k].to_value(u.keV) for k in ('ENERG_LO', 'ENERG_HI'))
    c.close(lo, E[:-1], 'edges', 'lower edges are those given, from low to high energies', rtol=1e-12)
    c.close(hi, E[1:], 'edges', 'upper edges are those given, from low to high energies', rtol=1e-12)
    c.close(t['BIN_LO'].to_value(u.AA), HC / hi, 'edges', 'wavelengths are those of the upper energies', rtol=1e-9)
    c.close(t['BIN_HI'].to_value(u.AA), HC / lo, 'edges', 'wavelengths are those of the lower energies', rtol=1e-9)
    mid = (lo + hi) / 2
    w = HC / mid
    # mirrors and gratings
    x, y = tab['wave'].to_value(u.AA), tab[str(o)].to_value(u.cm**2)
    k = np.argsort(x)
    x, y = x[k], y[k]
    got = u.Quantity(t['MIRROR_GRAT']).to_value(u.cm**2) * np.ones(len(mid))
    inside = (w > x[0] + 1e-6) & (w < x[-1] - 1e-6)
    c.check(got >= 0, 'negative', 'areas are not negative')
    c.close(got[(w < x[0] - 1e-6) | (w > x[-1] + 1e-6)], 0., 'extrapolated', 'there is no area outside of the table', rtol=0, atol=0)
    if kind == 'linear':
        c.close(got[inside], np.interp(w, x, y)[inside], 'area', 'areas are interpolated in wavelength', rtol=1e-9, atol=1e-9)
    elif kind == 'nearest':
        d = np.abs(w[:, None] - x[None, :])
        clear = inside & (np.abs(np.sort(d, axis=1)[:, 1] - np.sort(d, axis=1)[:, 0]) > 1e-6)
        c.close(got[clear], y[np.argmin(d, axis=1)][clear], 'area', 'the closest area is used', rtol=1e-9, atol=1e-9)
    # at the points of the table
    mg = kw.get('mirr_grat') or arfrmf.MirrGrat(tab)
    j = rng.permutation(len(x))[1:-1] if len(x) > 2 else []
    j = [i for i in j if 0 < i < len(x) - 1]
    for q in ((x[j] * u.AA), (x[j] * u.AA).to(u.keV, equivalencies=u.spectral())):
        c.close(u.Quantity(mg(q, o)).to_value(u.cm**2), y[j], 'area', 'areas at the tabulated wavelengths are those in the table', rtol=1e-7, atol=1e-7)
    # filters
    f = np.asarray(u.Quantity(t['FILTERS_QE']).to_value(u.one)) * np.ones(len(mid))
    if 'trans_filters_qe' in kw:
        want = a * np.exp(-mid)
    else:
        want = np.prod([tabulated(C['curves'][k_], mid) for k_ in FILTERS], axis=0)
    c.close(f, want, 'filter', 'the transmission is the product of filters, contamination and quantum efficiency', rtol=1e-7, atol=1e-12)
    # CCDs
    P = camera(C, conf)
    n = np.zeros(len(mid))
    near = np.full(len(mid), np.inf)
    for ch in chans:
        x0 = float(conf['pos_opt_ax'][ch][0])
        h, d = crossed(P, x0, conf['f'], np.sign(x0) * o * w / period(C, conf))
        n += h
        near = np.minimum(near, d)
    on = np.asarray(u.Quantity(t['ONCCD']).to_value(u.one)) * np.ones(len(mid))
    sure = near > 1e-3
    c.close(on[sure], n[sure], 'channels', 'the number of channels that see this wavelength on a CCD', rtol=0, atol=1e-12)
    c.close(u.Quantity(t['SPECRESP']).to_value(u.cm**2) * np.ones(len(mid)), got * f * on, 'product', 'the response is the product of all components', rtol=1e-9, atol=1e-12)
    # header and file name
    flag = ''.join('1' if k_ in chans else '0' for k_ in conf['pos_opt_ax'])
    c.check(t.meta['ARCCHAN'] == flag, 'keyword', 'the keyword marks the channels used', got=t.meta['ARCCHAN'], want=flag)
    m = t.meta['ORDER']
    c.check((m[0] if isinstance(m, tuple) else m) == o, 'keyword', 'the order is recorded', got=m)
    with Scratch() as d:
        t2 = arfrmf.tagversion(t)
        name = arfrmf.filename_from_meta('arf', **{k_: (v[0] if isinstance(v, tuple) else v) for k_, v in t2.meta.items()})
        c.check(name == f"chan_{'all' if len(chans) == 4 else flag}_{o:+d}.arf", 'name', 'the name has the channels and the order', got=name)
        t2.write(os.path.join(d, name))
        back = Table.read(os.path.join(d, name), hdu=1)
        same = got * f * on
        col = np.asarray(back['SPECRESP'], float) * back['SPECRESP'].unit.to(u.cm**2) if 'SPECRESP' in back.colnames else np.full(len(mid), float(back.meta['SPECRESP']))
        if 'SPECRESP' in back.colnames:
            c.close(col, same, 'file', 'the file holds the same response', rtol=1e-6, atol=1e-12)
    c.count('bins', len(mid))
    c.seen('arf', (o, flag, kind))


@W(quick=10, thorough=100)
def readme(c):
    """the description of the files names files that are made"""
    C = arcus()
    from marxs.missions.arcus import arfrmf
    rng = c.rng
    chan = str(rng.choice(['all', '1111', '1000', '0110']))
    offs = [[-1, 0, 1], [0], [-2, 0]][int(rng.integers(3))]

    class Sorter:
        osip_description = f'constant width {rng.integers(100)} eV'
        offset_orders = offs
    with Scratch() as d:
        arfrmf.write_readme(Sorter(), d, ARCCHAN=chan)
        with open(os.path.join(d, 'README.md')) as f:
            text = f.read()
        for true in (-5, -4, -3):
            name = arfrmf.filename_from_meta('arf', ARCCHAN=chan, ORDER=-4, CCDORDER=-4, TRUEORD=true)
            c.check(name in text.split(), 'readme', 'the names of the files for an order and its neighbours are given', name=name)
        c.check(Sorter.osip_description in text and str(offs) in text, 'readme', 'the order-sorting is described')
        c.check('ARCUS' in text, 'readme', 'the tags are listed')
    c.count('readmes')


@W(quick=10, thorough=200)
def unknown(c):
    C = arcus()
    from marxs.missions.arcus import arfrmf
    bad = str(c.rng.choice(['3', '1M', 'all', '']))
    c.raises(ValueError, lambda: arfrmf.mkarf([20, 21, 22] * u.AA, -3, channels=['1', bad]), 'unknown-channel', 'channels that do not exist are refused')


def grid_file(rng, wave, n, meta, orders, zero):
    """photons of one simulation"""
    t = Table()
    E = HC / wave
    t['energy'] = np.full(n, E)
    t['probability'] = np.where(rng.uniform(size=n) < .2, 0., rng.uniform(0, 1, n))
    chan = rng.choice(list(OFFSET), n)
    t['xou'] = np.array([OFFSET[k] + rng.integers(0, 1000) for k in chan])
    lost = rng.uniform(size=n) < .1
    t['xou'][lost] = -1
    t['order'] = rng.choice(orders + [20], n)
    t['order_L1'] = rng.choice([-1, 0, 0, 0, 0, 1], n)
    sig = rng.uniform(1e-5, 1e-3)
    t['circ_phi'] = np.array([zero[k] for k in chan]) + 1e-3 * np.asarray(t['order']) * wave / 5 + sig * rng.standard_normal(n)
    t['circ_phi'][rng.uniform(size=n) < .1] = np.nan
    t['CCD'] = np.where(rng.uniform(size=n) < .3, -1, rng.integers(1, 17, n))
    t.meta = dict(meta, EXPOSURE=float(rng.integers(n, 4 * n)) + float(rng.choice([0., .3])), ENERGY=E, A_GEOM=rng.uniform(100, 5000))
    return t


def clipped(x):
    """mean and standard deviation without outliers"""
    x = np.asarray(x, float)
    for _ in range(20):
        m, s = np.median(x), np.std(x)
        k = np.abs(x - m) <= 3 * s
        if k.all():
            break
        x = x[k]
    return np.mean(x), np.std(x)


@W(quick=30, thorough=700, cpu=200)
def grid(c):
    """Resolution and area from the files of a grid of simulations"""
    C = arcus()
    from marxs.missions.arcus import analyze_grid as ag
    rng = c.rng
    conf = dict(C['arcus'].defaultconf)
    conf['pos_opt_ax'] = {k: np.asarray(v) + (rng.uniform(-20, 20, 4) * [1, 1, 0, 0]) for k, v in conf['pos_opt_ax'].items()}
    r = conf['rowland_detector'].r
    zero = {k: np.arcsin(v[0] / r) for k, v in conf['pos_opt_ax'].items()}
    meta = dict(ORIGIN='here', CREATOR='me', MARXSVER='1.0', SATELLIT='ARCUS')
    waves = np.sort(rng.choice(np.arange(10, 60), int(rng.integers(1, 5)), replace=False)).astype(float)
    orders = sorted(int(x) for x in rng.choice(np.arange(-15, 5), int(rng.integers(2, 8)), replace=False))
    if 0 not in orders or len(set(orders)) < 2:
        orders = sorted(set(orders) | {0, -5})
    zeroorder = rng.uniform() < .8
    if not zeroorder:
        orders = [o for o in orders if o]
    if rng.uniform() < .3:
        orders = orders[::-1]
    form = str(rng.choice(['array', 'list']))
    with Scratch() as d:
        tabs = [grid_file(rng, w, int(rng.choice([60, 1500, 4000])), meta, orders, zero) for w in waves]
        for i in rng.permutation(len(waves)):
            tabs[i].write(os.path.join(d, f'wave{waves[i]:05.2f}.fits'))
        with open(os.path.join(d, 'notes.txt'), 'w') as f:
            f.write('no photons here')
        was = {k: np.array(v) for k, v in conf['pos_opt_ax'].items()}
        out = ag.aeffRfromraygrid(d, conf, orders=np.array(orders) if form == 'array' else list(orders))
        for k in was:
            c.same(was[k], np.asarray(conf['pos_opt_ax'][k]), 'input', 'the configuration is not changed')
        c.check(len(out) == len(waves), 'rows', 'there is one row for each file')
        c.close(out['wave'].to_value(u.AA), waves, 'wave', 'rows are in the order of the file names', rtol=1e-9)
        c.close(out['energy'].to_value(u.keV), HC / waves, 'energy', 'energies are those of the simulations', rtol=1e-9)
        A = np.zeros((len(waves), 4, len(orders)))
        R = np.full(A.shape, np.nan)
        for i, t in enumerate(tabs):
            for j, k in enumerate(OFFSET):
                s = (np.asarray(t['xou']) >= OFFSET[k]) & (np.asarray(t['xou']) < OFFSET[k] + 1000) & (np.asarray(t['order_L1']) == 0)
                for m, o in enumerate(orders):
                    q = s & (np.asarray(t['order']) == o)
                    A[i, j, m] = np.asarray(t['probability'])[q & (np.asarray(t['CCD']) > 0)].sum() / int(t.meta['EXPOSURE']) * t.meta['A_GEOM']
                    q = q & (np.asarray(t['probability']) > 0) & np.isfinite(np.asarray(t['circ_phi']))
                    if q.sum() >= 20:
                        mu, sd = clipped(np.asarray(t['circ_phi'])[q])
                        R[i, j, m] = abs(mu - zero[k]) / (2.3548 * sd)
                        c.count('resolutions')
        c.check(out['Aeff'].shape == A.shape, 'shape', 'there is one area for every wavelength, channel and order', got=out['Aeff'].shape)
        a, res = out['Aeff'].to_value(u.cm**2), np.asarray(np.ma.filled(out['R'], np.nan), float)
        c.close(a, A, 'area', 'areas count the photons of the channel and order that are on a CCD', rtol=1e-9)
        c.close(res, R, 'resolution', 'the resolving power of each channel and order', rtol=1e-4, atol=1e-3)
        v = lambda x: np.asarray(np.ma.filled(x, np.nan), float)
        w4 = np.where(np.isfinite(R), A, 0)
        with np.errstate(all='ignore'):
            R4 = np.nansum(np.nan_to_num(R) * w4, axis=1) / w4.sum(1)
        A4 = A.sum(1)
        c.close(out['Aeff4'].to_value(u.cm**2), A4, 'channels', 'areas of the channels add up', rtol=1e-9)
        c.close(v(out['R4']), R4, 'channels', 'the resolving power of all channels is weighted by area', rtol=1e-4, atol=1e-3)
        nz = np.array(orders) != 0
        wd = np.where(np.isfinite(R4), A4, 0)[:, nz]
        with np.errstate(all='ignore'):
            Rd = (np.nan_to_num(R4[:, nz]) * wd).sum(1) / wd.sum(1)
        c.check(out['Aeff_disp'].shape == (len(waves),), 'shape', 'there is one value for all dispersed orders of a wavelength', got=out['Aeff_disp'].shape)
        c.close(out['Aeff_disp'].to_value(u.cm**2), A4[:, nz].sum(1), 'dispersed', 'areas of dispersed orders add up', rtol=1e-9)
        c.close(v(out['R_disp']), Rd, 'dispersed', 'the resolving power of dispersed orders is weighted by area', rtol=1e-4, atol=1e-3)
        c.check([int(o) for o in ag.orders_from_meta(out.meta)] == orders, 'orders', 'the orders are listed in the header', got=list(ag.orders_from_meta(out.meta)))
        # files
        name = os.path.join(d, 'result.fits')
        out.write(name)
        col = str(rng.choice(['R4', 'Aeff4']))
        if rng.uniform() < .5:
            # a file that is there already is replaced
            ag.csv_per_order(name, 'R4' if col == 'Aeff4' else 'Aeff4', os.path.join(d, 'out.csv'))
        ag.csv_per_order(name, col, os.path.join(d, 'out.csv'))
        back = Table.read(os.path.join(d, 'out.csv'), format='ascii.csv')
        c.check(back.colnames == ['wave'] + [f'order_{o}' for o in orders], 'csv', 'the file has a column for each order', got=back.colnames)
        c.close(np.asarray(back['wave'], float), waves, 'csv', 'the file lists wavelengths', rtol=1e-9)
        want = {'R4': R4, 'Aeff4': A4}[col]
        for m, o in enumerate(orders):
            c.close(v(np.ma.masked_array(back[f'order_{o}'], dtype=float)), want[:, m], 'csv', 'the file has the values of each order', rtol=1e-4, atol=1e-3)
        c.count('cells', A.size)
    c.seen('grid', (len(waves), form, zeroorder))


@W(quick=24, thorough=400)
def inconsistent(c):
    """Files of different simulations are not mixed up"""
    C = arcus()
    from marxs.missions.arcus import analyze_grid as ag
    rng = c.rng
    conf = C['arcus'].defaultconf
    zero = {k: 0. for k in OFFSET}
    meta = dict(ORIGIN='here', CREATOR='me', MARXSVER='1.0', MARXSGIT='abc')
    tabs = [grid_file(rng, w, 50, meta, [-1, 0], zero) for w in (20., 21., 22.)]
    bad = int(rng.integers(0, 3))
    what = str(rng.choice(['version', 'missing', 'energy']))
    if what == 'version':
        tabs[bad].meta[str(rng.choice(['MARXSVER', 'CREATOR', 'ORIGIN', 'MARXSGIT']))] = 'other'
    elif what == 'missing':
        del tabs[bad].meta[str(rng.choice(list(meta)))]
    else:
        tabs[bad]['energy'][int(rng.integers(50))] *= 1.1
    c.note(what=what, file=bad)
    with Scratch() as d:
        for i, t in enumerate(tabs):
            t.write(os.path.join(d, f'wave{i}.fits'))
        c.raises((AssertionError, KeyError), lambda: ag.aeffRfromraygrid(d, conf, orders=np.array([-1, 0])), 'inconsistent', 'files that do not belong together are refused')
        if what != 'energy':
            out = ag.aeffRfromraygrid(d, conf, orders=np.array([-1, 0]), allow_inconsistent_meta=True)
            c.check(len(out) == 3, 'inconsistent', 'the comparison can be switched off')
    c.seen('inconsistent', (what, bad))


@W(quick=6, thorough=60, cpu=400)
def traced(c):
    """Photons traced through the instrument follow the response"""
    C = arcus()
    from marxs.math.utils import xyz2zxy
    from marxs.missions.arcus import analyze_grid as ag, arfrmf
    from marxs.missions.arcus.defaults import DefaultSource
    from marxs.source import FixedPointing
    rng = c.rng
    A = C['arcus']
    conf = A.defaultconf
    chans = [str(x) for x in rng.permutation(list(OFFSET))[:int(rng.integers(1, 3))]]
    lam = rng.uniform(12, 45)
    inst = A.PerfectArcus(channels=chans)
    area = inst.elements[0].area
    s = DefaultSource(energy=(lam * u.AA).to(u.keV, equivalencies=u.spectral()), geomarea=area, flux=1e-4 / u.s / u.mm**2)
    t = s.generate_photons(6000 / (1e-4 * area.to_value(u.mm**2)) * u.s)
    c.close(np.asarray(t['energy']), HC / lam, 'source', 'the default source has the energy given', rtol=1e-9)
    t = FixedPointing(coords=s.coords, reference_transform=xyz2zxy)(t)
    t = inst(t)
    c.note(wave=lam, chans=chans)
    on = arfrmf.OnCCD(conf)
    P = camera(C, conf)
    xou, fac = np.asarray(t['xou']), np.asarray(t['facet'])
    for ch in chans:
        s_ = (xou // 1000 * 1000 == OFFSET[ch]) & (xou >= 0) & (fac >= 0) & (np.asarray(t['order_L1']) == 0) & (np.asarray(t['probability']) > 0)
        x0 = float(conf['pos_opt_ax'][ch][0])
        got = {}
        for o in np.unique(np.asarray(t['order'])[s_]):
            q = s_ & (np.asarray(t['order']) == o)
            # grating periods differ by a percent
            sn = np.sign(x0) * o * lam / period(C, conf)
            z = np.array([crossed(P, x0, conf['f'], [sn * k])[0][0] for k in np.linspace(.98, 1.02, 121)])
            flag = bool(on(np.array([lam]) * u.AA, int(o), ch)[0])
            frac = np.mean(np.asarray(t['CCD'])[q] > 0)
            if q.sum() >= 12 and z.all():
                c.check(flag, 'response', 'orders whose photons are all on CCDs are in the response', order=int(o), chan=ch)
                c.check(frac > .6, 'response', 'photons are on CCDs where the response says so', order=int(o), chan=ch, got=frac)
            elif q.sum() >= 5 and not z.any() and crossed(P, x0, conf['f'], [sn])[1][0] > 20:
                c.check(not flag and frac < .2, 'response', 'photons that miss the camera are not in the response', order=int(o), chan=ch, got=frac)
            c.count('rays', int(q.sum()))
        # dispersion
        q = QTable({k: np.asarray(t[k], float)[s_] for k in ('order', 'circ_phi', 'circ_y', 'probability')})
        q['circ_phi'].unit, q['circ_y'].unit = u.rad, u.mm
        q['circ_phi'], q['circ_y'] = np.asarray(q['circ_phi']) * u.rad, np.asarray(q['circ_y']) * u.mm
        q = q[np.isfinite(q['circ_phi'].value)]
        q.meta['CHANNEL'] = ch
        if len(q):
            ag.tg_resolve_events_circdet(q, conf)
            sg = np.sign(x0)
            want = sg * np.asarray(q['order']) * lam
            got = q['tg_mlam'].to_value(u.AA)
            c.close(got, want, 'dispersion', 'the dispersion coordinate is order times wavelength', rtol=.03, atol=1.5)
            c.check(np.abs(q['tg_d'].to_value(u.deg)) < .1, 'dispersion', 'the cross-dispersion angle is small', worst=np.abs(q['tg_d'].to_value(u.deg)).max())
            c.count('dispersed', len(q))
    # another configuration
    conf2 = dict(conf, pos_opt_ax={k: np.array(v) * rng.uniform(.7, 1.2) for k, v in conf['pos_opt_ax'].items()})
    ch = chans[0]
    phi0 = np.arcsin(conf2['pos_opt_ax'][ch][0] / conf['rowland_detector'].r)
    d = rng.uniform(.001, .2, 6)
    q = QTable({'circ_phi': np.r_[phi0, phi0 + d, phi0 - d] * u.rad, 'circ_y': np.full(13, conf2['pos_opt_ax'][ch][1]) * u.mm})
    q.meta['CHANNEL'] = ch
    ag.tg_resolve_events_circdet(q, conf2)
    m = q['tg_mlam'].to_value(u.AA)
    c.close(m[0], 0, 'dispersion', 'the zeroth order of the given configuration is at 0', atol=1e-6)
    c.close(m[1:7], -m[7:], 'dispersion', 'the dispersion is symmetric around the zeroth order', rtol=1e-9)
    c.check(np.all(np.abs(m[1:]) > 0), 'dispersion', 'dispersed')
    c.seen('traced', tuple(sorted(chans)))
