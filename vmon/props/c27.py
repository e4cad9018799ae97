"""C27: order sorting splits photons between orders consistently."""
import copy
import glob
import os
import tempfile

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table
from scipy import stats

from vmon.core import Registry

W = Registry('C27', rule='regions and fractions were compared to their definition and to each other, and effective areas before and after order sorting '
             'were compared bin by bin',
             require={'fractions': 20000, 'regions': 2500, 'sums': 3000, 'files': 200, 'plots': 12},
             assumptions=['the energy measured by the detector is normally distributed, with a width that is interpolated linearly in energy'])
HC = 12.398419843320028


def detector(rng):
    """a detector resolution, and an independent function for its width in keV"""
    from marxs.optics.detector import CCDRedistNormal
    n = int(rng.integers(2, 8))
    e = np.sort(rng.uniform(.05, 10, n))
    s = rng.uniform(5, 120, n) if rng.uniform() < .7 else np.repeat(rng.uniform(10, 90), n)
    kind = str(rng.choice(['sigma', 'FWHM']))
    f = 1. if kind == 'sigma' else 2 * np.sqrt(2 * np.log(2))
    unit = rng.choice([u.eV, u.keV])
    ue = rng.choice([u.eV, u.keV])
    tab = QTable({'energy': (e * u.keV).to(ue), kind: (s * f * u.eV).to(unit)})
    return CCDRedistNormal(tab_width=tab), lambda x: np.interp(x, e, s) / 1e3


def region(rng, det):
    """one of the definitions, with a reference for lower and upper limit in keV"""
    from marxs.reduction.osip import FixedFractionOSIP, FixedWidthOSIP, FractionalDistanceOSIP
    red, sig = det
    kind = str(rng.choice(['width', 'fraction', 'distance']))
    off = sorted(rng.choice([-2, -1, 0, 1, 2], int(rng.integers(1, 6)), replace=False).tolist())
    kw = dict(ccd_redist=red, offset_orders=off)
    if kind == 'width':
        w = float(10**rng.uniform(0, 3))
        o = FixedWidthOSIP(w * u.eV if rng.uniform() < .5 else w / 1e3 * u.keV, **kw)
        return o, lambda e, m: (e - w / 1e3, e + w / 1e3), (kind, w), off
    if kind == 'fraction':
        f = float(rng.uniform(.01, .999))
        o = FixedFractionOSIP(f, **kw)
        k = stats.norm.ppf(.5 + f / 2)
        return o, lambda e, m: (e - k * sig(e), e + k * sig(e)), (kind, f), off
    f = 1. if rng.uniform() < .3 else float(rng.uniform(.01, 1))
    o = FractionalDistanceOSIP(f, **kw)
    return o, lambda e, m: (e - f * e / abs(m) / 2, e + f * e / abs(m) / 2), (kind, f), off


def energies(rng, n=None):
    e = rng.uniform(.15, 9, int(rng.integers(1, 20)) if n is None else n)
    q = e * u.keV
    unit = rng.choice([u.keV, u.eV, u.Angstrom, u.nm])
    return e, q.to(unit, equivalencies=u.spectral())


def fraction(lim, e, m, t, sig):
    if np.sign(m) != np.sign(t):
        return np.zeros(len(e))
    x = e * t / m
    s = sig(x)
    lo, hi = lim(e, m)
    # difference of two values close to 1 is not precise
    return np.where(lo > x, stats.norm.sf((lo - x) / s) - stats.norm.sf((hi - x) / s), stats.norm.cdf((hi - x) / s) - stats.norm.cdf((lo - x) / s))


@W(quick=400, thorough=8000)
def fractions(c):
    rng = c.rng
    det = detector(rng)
    o, lim, desc, off = region(rng, det)
    e, q = energies(rng)
    m = int(rng.choice([-1, 1])) * int(rng.integers(1, 13))
    keep = q.copy()
    c.note(region=desc, order=m, n=len(e), unit=str(q.unit))
    c.seen('region', (desc[0], m, str(q.unit)))
    lo, hi = lim(e, m)
    r = o.osip_range(q, m)
    t = o.osip_tab(q, m)
    c.check(r.shape == (2, len(e)) and t.shape == (2, len(e)), 'shape', f'{r.shape} {t.shape}')
    c.close(r.to_value(u.keV), [lo, hi], 'range', f'{desc}: limits of region', rtol=1e-9, atol=1e-10)
    c.close(t.to_value(u.keV), [e - lo, hi - e], 'width', f'{desc}: width on both sides', rtol=1e-7, atol=1e-9)
    c.count('regions', len(e))
    total = 0
    for d in range(-3, 4):
        f = o.osip_factor(q, m, m + d)
        want = fraction(lim, e, m, m + d, det[1])
        c.close(np.broadcast_to(f, e.shape), want, 'fraction', f'{desc}: photons of order {m + d} in region of {m}', rtol=1e-6, atol=1e-12)
        c.check(np.all((np.asarray(f) >= 0) & (np.asarray(f) <= 1)), 'probability', f'{desc}: between 0 and 1')
        c.count('fractions', len(e))
        if d == 0 and desc[0] == 'fraction':
            c.close(f, desc[1], 'fraction', 'requested fraction', rtol=1e-9)
    c.close(np.broadcast_to(o.osip_factor(q, m, -m), e.shape), 0., 'other-side', 'orders on the other side', atol=0)
    c.close(np.broadcast_to(o.osip_factor(q, m, 0), e.shape), 0., 'other-side', 'zeroth order', atol=0)
    c.same(o.osip_factor(q, m, m), o.osip_factor(q, -m, -m), 'sign', 'both sides are the same')
    c.same(q.value, keep.value, 'changed', 'energies')


@W(quick=150, thorough=3000)
def sums(c):
    """photons of one order, at one place on the detector, over the regions of all orders"""
    from marxs.reduction.osip import FixedWidthOSIP, FractionalDistanceOSIP
    rng = c.rng
    red, sig = detector(rng)
    f = 1. if rng.uniform() < .5 else float(rng.uniform(.05, 1))
    o = FractionalDistanceOSIP(f, ccd_redist=red)
    e1 = rng.uniform(.05, 1., 12)       # energy of first order at that place
    s = int(rng.choice([-1, 1]))
    true = int(rng.integers(1, 10))
    orders = np.arange(1, int(rng.integers(11, 40)))
    total = np.zeros(len(e1))
    last = None
    for m in orders:
        g = o.osip_factor(e1 * m * u.keV, s * int(m), s * true)
        total = total + g
        r = o.osip_range(e1 * m * u.keV, s * int(m)).to_value(u.keV)
        if last is not None:
            c.close((r[0] - last[1]) / e1, 1 - f, 'gap', f'space between region {m} and the one below', atol=1e-9)
        last = r
    c.check(np.all(total <= 1 + 1e-9), 'at-most-once', f'sum {total.max()} over all regions')
    if f == 1:
        lo, hi = e1 / 2, e1 * (orders[-1] + .5)
        x = e1 * true
        c.close(total, stats.norm.cdf((hi - x) / sig(x)) - stats.norm.cdf((lo - x) / sig(x)), 'tile', 'touching regions contain each photon once', rtol=1e-8, atol=1e-10)
    c.count('sums', len(e1) * len(orders))
    # a wider region contains more
    a, b = np.sort(rng.uniform(1, 300, 2)) * u.eV
    m = int(rng.integers(1, 8))
    A, B = FixedWidthOSIP(a, ccd_redist=red), FixedWidthOSIP(b, ccd_redist=red)
    c.check(np.all(A.osip_factor(e1 * m * u.keV, m, true) <= B.osip_factor(e1 * m * u.keV, m, true) + 1e-15), 'monotonic', f'{a} and {b}')


@W(quick=150, thorough=2500)
def resolution(c):
    """distribution function and intervals of the detector"""
    rng = c.rng
    red, sig = detector(rng)
    e, q = energies(rng)
    c.close(red.sig_ccd(q).to_value(u.keV), sig(e), 'width', 'width of energy distribution', rtol=1e-9)
    z = rng.uniform(-4, 4, len(e))
    x = np.clip(e + z * sig(e), .01, None)
    unit = rng.choice([u.keV, u.Angstrom, u.eV])
    p = red.cdf((x * u.keV).to(unit, equivalencies=u.spectral()), q)
    c.close(p, stats.norm.cdf((x - e) / sig(e)), 'cdf', f'x in {unit}, energy in {q.unit}', rtol=1e-6, atol=1e-9)
    a = float(rng.uniform(.01, .999))
    k = stats.norm.ppf(.5 + a / 2) * sig(e)
    i = red.interval(a, q)
    c.close(i.to(u.keV, equivalencies=u.spectral()).value, [e - k, e + k], 'interval', f'{a}', rtol=1e-8)
    c.count('fractions', len(e))


def arf(rng, o, path, sorted_=True, **meta):
    from marxs.reduction.ogip import ARF
    n = int(rng.integers(2, 30))
    e = np.sort(rng.uniform(.2, 6, n + 1))
    y = rng.uniform(1, 500, n) * (rng.uniform(size=n) < .9)
    if rng.uniform() < .1:
        y[:] = 7.
    a = ARF(data=[e[:-1] * u.keV, e[1:] * u.keV, y * u.cm**2, rng.uniform(0, 1, n), (HC / e[1:]) * u.Angstrom, (HC / e[:-1]) * u.Angstrom],
            names=['ENERG_LO', 'ENERG_HI', 'SPECRESP', 'ONCCD', 'BIN_LO', 'BIN_HI'])
    a.meta.update(TELESCOP='tel', INSTRUME='ins', FILTER='fil', ORDER=o, MYKEY=17, **meta)
    a.write(path)
    return dict(e=e, y=y, onccd=np.array(a['ONCCD']))


def column(t, k, n):
    """a column, that might be a keyword if all elements are the same"""
    x = t[k] if k in t.colnames else t.meta[k]
    return np.broadcast_to(getattr(x, 'value', x), n)


def compare(c, path, ref, order, true, lim, sig, what, first=True):
    from marxs.reduction.ogip import ARF
    t = ARF.read(path)
    e = ref['e']
    n = len(e) - 1
    c.close(t['ENERG_LO'].to_value(u.keV), e[:-1], 'keeps', f'{what}: energies', rtol=1e-12)
    c.close(t['ENERG_HI'].to_value(u.keV), e[1:], 'keeps', f'{what}: energies', rtol=1e-12)
    c.close(column(t, 'ONCCD', n), ref['onccd'], 'keeps', f'{what}: other columns', rtol=1e-12)
    c.close(t['BIN_LO'].to_value(u.Angstrom), HC / e[1:], 'keeps', f'{what}: wavelengths', rtol=1e-9)
    mid = (e[1:] + e[:-1]) / 2
    f = fraction(lim, mid * order / true, order, true, sig)
    c.close(t['SPECRESP'].to_value(u.cm**2), f * ref['y'], 'area', f'{what}: area times fraction of true order {true} in {order}', rtol=1e-6, atol=1e-10)
    c.close(column(t, 'OSIPFAC', n), f, 'factor', f'{what}: factor', rtol=1e-6, atol=1e-10)
    m = t.meta
    c.check(int(m['ORDER']) == true and int(m['TRUEORD']) == true and int(m['CCDORDER']) == order, 'keywords',
            f'{what}: ORDER {m["ORDER"]} TRUEORD {m["TRUEORD"]} CCDORDER {m["CCDORDER"]}')
    c.check(m['TELESCOP'] == 'tel' and m['FILTER'] == 'fil' and m['MYKEY'] == 17, 'keeps', f'{what}: keywords')
    c.count('files')
    return t


@W(quick=80, thorough=1000)
def areas(c):
    """one effective area at a time; the second time replaces the first"""
    rng = c.rng
    det = detector(rng)
    o, lim, desc, off = region(rng, det)
    true = int(rng.choice([-1, 1])) * int(rng.integers(1, 9))
    order = true + int(rng.integers(-2, 3))
    if order == 0:
        order = true
    c.note(region=desc, order=order, true=true)
    c.seen('area', (desc[0], order - true, np.sign(true)))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'in.arf')
        ref = arf(rng, true if rng.uniform() < .5 else f'{true:+}', f)
        raw = open(f, 'rb').read()
        out = os.path.join(d, 'new', 'dir') if rng.uniform() < .5 else d
        root = str(rng.choice(['', 'abc']))
        o.apply_osip(f, out, order, outroot=root)
        c.check(open(f, 'rb').read() == raw, 'input-changed', 'input file')
        new = [g for g in glob.glob(os.path.join(out, '*.arf')) if g != f]
        if not c.check(len(new) == 1 and os.path.basename(new[0]).startswith(root), 'one-file', str(new)):
            return
        t = compare(c, new[0], ref, order, true, lim, det[1], 'once')
        c.raises(OSError, lambda: o.apply_osip(f, out, order, outroot=root), 'overwrite', 'files are not overwritten')
        o.apply_osip(f, out, order, outroot=root, overwrite=True)
        compare(c, new[0], ref, order, true, lim, det[1], 'overwritten')
        # again, with a different region
        o2, lim2, desc2, off2 = region(rng, det)
        fac = column(t, 'OSIPFAC', len(ref['y']))
        if np.all(fac > 1e-12):
            o2.apply_osip(new[0], os.path.join(d, 'second'), order)
            compare(c, glob.glob(os.path.join(d, 'second', '*.arf'))[0], ref, order, true, lim2, det[1], f'{desc2} after {desc}')
            c.count('replaced')
        # the other side of zeroth order does not contribute
        o.apply_osip(f, os.path.join(d, 'other'), -true)
        from marxs.reduction.ogip import ARF
        t = ARF.read(glob.glob(os.path.join(d, 'other', '*.arf'))[0])
        c.close(t['SPECRESP'].to_value(u.cm**2), 0., 'other-side', 'area for order on the other side', atol=0)


@W(quick=12, thorough=120, cpu=180)
def all_areas(c):
    """one file for each pair of orders"""
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    from marxs.missions.arcus import arfrmf
    from marxs.reduction import ogip
    rng = c.rng
    det = detector(rng)
    o, lim, desc, off = region(rng, det)
    arcus = rng.uniform() < .4
    kw = {}
    if arcus:
        o.filename_from_meta = arfrmf.filename_from_meta
        kw['filename_from_meta_kwargs'] = {'ARCCHAN': '1111'}
    s = int(rng.choice([-1, 1]))
    have = [s * int(m) for m in range(1, 8) if rng.uniform() < .8]
    # areas of the other side, which are not mixed with these
    have += [-s * int(m) for m in range(1, 4) if rng.uniform() < .5]
    orders = [int(x) for x in rng.choice([s * m for m in range(1, 7)], int(rng.integers(1, 4)), replace=False)]
    if rng.uniform() < .3:
        orders = orders + [-orders[0]]
    if rng.uniform() < .5 and s not in orders:
        orders = orders + [s]
    inroot, outroot = str(rng.choice(['', 'in'])), str(rng.choice(['', 'out']))
    with tempfile.TemporaryDirectory() as d:
        refs = {}
        for m in have:
            name = inroot + (arfrmf if arcus else ogip).filename_from_meta('arf', ORDER=m, **({'ARCCHAN': '1111'} if arcus else {}))
            refs[m] = arf(rng, m if rng.uniform() < .7 else f'{m:+}', os.path.join(d, name), **({'ARCCHAN': '1111'} if arcus else {}))
        raw = {f: open(f, 'rb').read() for f in glob.glob(os.path.join(d, '*'))}
        out = os.path.join(d, 'out')
        c.note(region=desc, orders=orders, have=have, offset=off)
        o.apply_osip_all(d, out, orders, inroot=inroot, outroot=outroot, **kw)
        plt.close('all')
        c.check(all(open(f, 'rb').read() == raw[f] for f in raw) and set(glob.glob(os.path.join(d, '*.*'))) == set(raw), 'input-changed', 'input files')
        want = {(m, m + t) for m in orders for t in off if m + t in have and (m + t) * m > 0}
        got = {}
        for f in glob.glob(os.path.join(out, '*.arf')):
            t = ogip.ARF.read(f)
            k = (int(t.meta['CCDORDER']), int(t.meta['TRUEORD']))
            c.check(k not in got, 'one-file', f'two files for {k}')
            c.check(os.path.basename(f).startswith(outroot), 'one-file', 'name')
            got[k] = f
        if c.check(set(got) == want, 'one-file', f'files for {sorted(got)} instead of {sorted(want)}'):
            for k, f in got.items():
                compare(c, f, refs[k[1]], k[0], k[1], lim, det[1], f'{k}')
        if want:
            c.check(len(glob.glob(os.path.join(out, '*.pdf'))) == 2, 'plot-files', 'two overview plots')
            c.raises(OSError, lambda: o.apply_osip_all(d, out, orders, inroot=inroot, outroot=outroot, **kw), 'overwrite', 'files are not overwritten')
            plt.close('all')


@W(quick=16, thorough=200)
def plots(c):
    """what is shown is what is calculated; files stay the same"""
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    from marxs.reduction.ogip import ARF
    rng = c.rng
    det = detector(rng)
    o, lim, desc, off = region(rng, det)
    m = int(rng.choice([-1, 1])) * int(rng.integers(1, 9))
    grid = np.sort(rng.uniform(5, 60, 12))
    q = (grid * u.Angstrom).to(rng.choice([u.Angstrom, u.nm, u.keV]), equivalencies=u.spectral())
    keep = q.copy()
    en = HC / grid * abs(m)
    fig, ax = plt.subplots()
    o.plot_osip(ax, q, m, color='r')
    line = ax.get_lines()[0]
    c.close(np.asarray(line.get_xdata(), float), grid, 'plot', 'x axis is m lambda', rtol=1e-9)
    c.close(np.asarray(line.get_ydata(), float), en, 'plot', 'energy of order', rtol=1e-9)
    v = ax.collections[0].get_paths()[0].vertices
    lo, hi = lim(en, m)
    for what, want in (('lower', lo), ('upper', hi)):
        d = np.array([np.min(np.hypot(v[:, 0] - x, v[:, 1] - y)) for x, y in zip(grid, want)])
        c.close(d, 0., 'plot', f'{desc}: {what} limit of shaded region', atol=1e-6)
    plt.close(fig)
    fig, ax = plt.subplots()
    o.plot_mixture(ax, q, m)
    ls = {l.get_label(): l for l in ax.get_lines()}
    show = [t for t in off if t != 0]
    c.check(set(ls) == {'main order', 'sum'} | {f'contam {t}' for t in show}, 'plot', f'lines {sorted(ls)}')
    total = 0
    fig.canvas.draw()
    for t in [0] + show:
        l = ls['main order' if t == 0 else f'contam {t}']
        want = fraction(lim, en, m, m + t, det[1])
        total = total + want
        c.close(np.broadcast_to(np.asarray(l.get_ydata(), float), want.shape), want, 'plot', f'{desc}: contribution of order {m} + {t}', rtol=1e-6, atol=1e-10)
    c.close(np.asarray(ls['sum'].get_ydata(), float), total, 'plot', f'{desc}: sum', rtol=1e-6, atol=1e-10)
    plt.close(fig)
    c.same(q.value, keep.value, 'changed', 'grid')
    # sum of effective areas
    with tempfile.TemporaryDirectory() as d:
        refs = [arf(rng, k, os.path.join(d, f'{k}.arf')) for k in range(1, 4)]
        raw = {f: open(f, 'rb').read() for f in glob.glob(os.path.join(d, '*.arf'))}
        plt.close('all')
        o.plot_summed_arf(d)
        l = plt.gcf().axes[0].get_lines()[0]
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        good = np.ones(len(x), bool)
        want = np.zeros(len(x))
        for r in refs:
            w = HC / r['e'][1:][::-1]
            good &= (x >= w[0]) & (x <= w[-1])
            want += np.interp(x, w, r['y'][::-1])
        c.close(y[good], want[good], 'plot', 'sum of effective areas', rtol=1e-6, atol=1e-6)
        plt.close('all')
        orders = (int(rng.choice([-1, 1])) * np.sort(rng.choice(np.arange(1, 10), int(rng.integers(1, 5)), replace=False))).tolist()
        k = int(rng.integers(1, 4))
        o.plot_summary(os.path.join(d, f'{k}.arf'), orders, d, 'z')
        c.check(os.path.exists(os.path.join(d, 'zOSIP_regions.pdf')), 'plot', 'figure is written')
        axs = plt.gcf().axes
        mid = .5 * (refs[k - 1]['e'][1:] + refs[k - 1]['e'][:-1])
        x = HC / mid * k
        got = {l.get_label(): l for l in axs[0].get_lines()}
        if c.check(set(got) == {str(i) for i in orders}, 'plot', f'orders {orders} are shown', got=sorted(got)):
            for i in orders:
                c.close(np.asarray(got[str(i)].get_xdata(), float), x, 'plot', 'summary: x axis is m lambda', rtol=1e-6)
                c.close(np.asarray(got[str(i)].get_ydata(), float), x**-1 * HC * abs(i), 'plot', f'summary: energy of order {i}', rtol=1e-6)
            styles = {matplotlib.colors.to_hex(got[str(i)].get_color()) for i in orders}
            c.check(len(styles) >= min(2, len(orders)), 'plot', 'orders can be told apart', got=styles)
        i = orders[len(orders) // 2]
        l = [q for q in axs[1].get_lines() if q.get_label() == 'main order']
        c.close(np.asarray(l[0].get_ydata(), float), fraction(lim, x**-1 * HC * abs(i), i, i, det[1]), 'plot', f'{desc}: summary: fraction in order {i}', rtol=1e-5, atol=1e-8)
        plt.close('all')
        c.check(all(open(f, 'rb').read() == raw[f] for f in raw), 'input-changed', 'effective areas that are plotted')
    c.count('plots')


@W(quick=30, thorough=200)
def colors(c):
    """lines of an order look the same in every figure and differ from other orders"""
    import matplotlib
    from marxs.analysis.plots import OrderColor
    rng = c.rng
    top = int(rng.integers(2, 16))
    name = str(rng.choice(['nipy_spectral', 'viridis', 'plasma', 'jet']))
    f = OrderColor(name, top)
    zero = f(0)
    c.check(matplotlib.colors.to_rgba(zero['color']) == (0, 0, 0, 1) and zero['linestyle'] == '-', 'order-color', 'order 0 is black and solid', got=zero)
    seen = set()
    cmap = matplotlib.colormaps[name]
    for o in range(1, top + 1):
        a, b = f(o), f(-o)
        c.close(matplotlib.colors.to_rgba(a['color']), matplotlib.colors.to_rgba(b['color']), 'order-color', f'color of orders +-{o}')
        c.close(matplotlib.colors.to_rgba(a['color']), cmap(o / top), 'order-color', f'order {o} is part of the way up the color map', atol=.02)
        c.check(a['linestyle'] == ':' and b['linestyle'] == '-', 'order-color', 'sign of the order decides the style', got=(a['linestyle'], b['linestyle']))
        c.check(zero['lw'] > a['lw'] == b['lw'], 'order-color', 'order 0 is wider', got=(zero['lw'], a['lw']))
        seen.add(tuple(matplotlib.colors.to_rgba(a['color'])))
    c.check(len(seen) == top, 'order-color', 'each order has its color')
    c.count('colors', top)
