"""C09: diffraction orders follow the tabulated efficiencies."""
import os
import shutil
import tempfile

import astropy.units as u
import numpy as np
from astropy.table import Table
from scipy import stats

from vmon import gen
from vmon.core import Registry

W = Registry('C09', rule='orders drawn by real selectors and gratings were tested against the table they were built from',
             require={'orders_drawn': 200000, 'statistical': 200, 'table_points': 1000, 'rejections': 5},
             assumptions=['a tabulated-by-energy file is read at the nearest tabulated energy',
                          'wavelength/angle tables are interpolated linearly unless another degree is requested'])


def chi2(c, got, orders, p, mech, msg):
    """draws follow p (normalised) and nothing of zero probability is drawn"""
    got = np.asarray(got)
    p = np.asarray(p, float)
    orders = np.asarray(orders)
    c.count('orders_drawn', len(got))
    c.check(np.isin(got, orders), 'tabulated-orders', f'{msg}: only tabulated orders')
    obs, ex, seen = [], [], {}
    for o in np.unique(orders):
        obs.append((got == o).sum())
        ex.append(p[orders == o].sum())
    obs, ex = np.array(obs, float), np.array(ex) / np.sum(ex) * len(got)
    c.check(obs[ex == 0] == 0, 'zero-efficiency', f'{msg}: orders without efficiency are never assigned')
    k = np.argsort(ex)
    obs, ex = obs[k], ex[k]
    # merge cells until each expects at least 10
    O, E = [], []
    a = b = 0.
    for x, y in zip(obs, ex):
        a, b = a + x, b + y
        if b >= 10:
            O.append(a)
            E.append(b)
            a = b = 0.
    if b and O:
        O[-1] += a
        E[-1] += b
    if len(O) > 1:
        c.count('statistical')
        c.pvalue(stats.chisquare(O, np.array(E) * sum(O) / sum(E)).pvalue, mech, msg, got=O, want=E)


def random_p(rng, n, allow_zero=True):
    p = rng.dirichlet(np.ones(n) * rng.choice([.3, 1., 5.]))
    if allow_zero and n > 1 and rng.uniform() < .4:
        p[rng.integers(n)] = 0
        p /= max(p.sum(), 1e-30)
    return p * rng.choice([1., rng.uniform(.05, 1), .5])


@W(quick=60, thorough=600)
def order_selector(c):
    from marxs.optics import OrderSelector
    rng = c.rng
    n = int(rng.integers(1, 31))
    orders = rng.choice(np.arange(-20, 21), n, replace=False)
    given = rng.uniform() < .7
    p = random_p(rng, n) if given else np.ones(n) / n
    kind = int(rng.integers(3))
    ol = [orders, list(orders), list(map(int, orders))][kind]
    s = OrderSelector(ol, p=[p, p, list(p)][kind]) if given else OrderSelector(ol)
    c.note(orders=orders, p=p, given=bool(given))
    N = 4000
    en = rng.uniform(.1, 10, N)
    for args in ((en, None, None), (en,)):
        o, pr = s(*args)
        c.check(len(o) == N and len(pr) == N, 'selector-output', 'one order and probability per photon')
        c.close(pr, np.full(N, p.sum()), 'total-probability', 'summed efficiency', rtol=1e-9)
        c.check((np.asarray(pr) <= 1) & (np.asarray(pr) >= 0), 'total-probability', 'total in [0, 1]')
        chi2(c, o, orders, p, 'order-frequency', 'OrderSelector')
    so = [s(float(e)) for e in en[:30]]
    c.check([np.isin(a, orders) for a, b in so], 'tabulated-orders', 'scalar energy')
    c.close([b for a, b in so], p.sum(), 'total-probability', 'scalar energy', rtol=1e-9)


@W(quick=24, thorough=200)
def in_grating(c):
    """probability-weighted counts behind a grating reproduce the table"""
    from marxs import optics
    rng = c.rng
    n = int(rng.integers(1, 22))
    orders = np.arange(n) - n // 2
    given = rng.uniform() < .6
    p = random_p(rng, n) if given else np.ones(n) / n
    cls = optics.FlatGrating if rng.uniform() < .5 else optics.CATGrating
    p4 = gen.pose(rng)
    g = cls(pos4d=p4, d=1e-3, order_selector=optics.OrderSelector(orders, p=p if given else None), groove_angle=rng.uniform(-3, 3))
    t = gen.aim(rng, p4, 3000, spread=.9, maxangle=.4, away=0, energy=(1., 5.))
    p0 = np.array(t['probability'])
    o = g(t)
    c.note(orders=orders, p=p)
    c.close(o['probability'], p0 * p.sum(), 'grating-probability', 'survival is multiplied by the summed efficiency', rtol=1e-9)
    chi2(c, np.asarray(o['order']), orders, p, 'order-frequency', 'orders behind a grating')
    wt = np.array([p0[np.asarray(o['order']) == m].sum() for m in orders])   # E = p0.sum() * p / p.sum()
    sd = np.sqrt((p0**2).sum() * np.clip(p / p.sum() * (1 - p / p.sum()), 1e-12, 1))
    c.check(np.abs(wt - p0.sum() * p / p.sum()) < 8 * sd + 8 * p0.max(), 'weighted-counts', 'weighted counts per order')


@W(quick=40, thorough=400)
def efficiency_file(c):
    from marxs.optics import EfficiencyFile, FlatGrating
    rng = c.rng
    ne, n = int(rng.integers(2, 9)), int(rng.integers(1, 8))
    en = np.sort(rng.uniform(.2, 5, ne))
    if np.diff(en).min() < .02:
        en = np.linspace(.3, 4, ne)
    tab = np.array([random_p(rng, n) for i in range(ne)])
    if rng.uniform() < .4:
        tab[rng.integers(ne)] = 0.      # opaque at this energy
    k = np.argsort(rng.uniform(size=ne)) if rng.uniform() < .3 else np.arange(ne)
    orders = rng.choice(np.arange(-9, 10), n, replace=False)
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'eff.dat')
        np.savetxt(f, np.column_stack([en[k], tab[k]]), fmt='%.18e', header='energy orders')
        s = EfficiencyFile(f, list(orders) if rng.uniform() < .5 else orders)
        c.raises(ValueError, lambda: EfficiencyFile(f, list(orders) + [99]), 'reject', 'more orders than columns')
    finally:
        shutil.rmtree(d)
    c.note(energies=en, orders=orders, table=tab)
    c.count('rejections')
    j = rng.integers(ne, size=4000)
    gap = np.diff(en).min()
    e = en[j] + rng.uniform(-.45, .45, len(j)) * gap * (rng.uniform(size=len(j)) < .7)
    e[(j == 0) & (rng.uniform(size=len(j)) < .1)] = .01     # below the table
    o, pr = s(e, None, None)
    c.close(pr, tab.sum(1)[j], 'total-probability', 'summed efficiency at the nearest energy', rtol=1e-9, atol=1e-12)
    c.count('table_points', ne)
    c.check((np.asarray(pr) <= 1) & (np.asarray(pr) >= 0), 'total-probability', 'total in [0, 1]')
    for i in range(ne):
        if tab[i].sum() > 0:
            chi2(c, o[j == i], orders, tab[i], 'order-frequency', f'efficiency file, energy {i}')
        else:
            c.check(np.isin(o[j == i], orders), 'tabulated-orders', 'opaque energy')
    p4 = gen.pose(rng)
    g = FlatGrating(pos4d=p4, d=1e-2, order_selector=s)
    t = gen.aim(rng, p4, 200, spread=.9, maxangle=.3, away=0)
    t['energy'] = en[j[:200]]
    p0 = np.array(t['probability'])
    c.close(g(t)['probability'], p0 * tab.sum(1)[j[:200]], 'grating-probability', 'efficiency file in a grating', rtol=1e-9, atol=1e-12)


def iet_table(rng, nw, nt, n):
    w = np.sort(rng.uniform(.5, 8, nw))
    if np.diff(w).min() < .05:
        w = np.linspace(.5, 7, nw)
    th = np.linspace(*np.sort(rng.uniform(0, 6, 2)) + [0, 1], nt)
    orders = rng.choice(np.arange(-9, 10), n, replace=False)
    dat = rng.uniform(0, 1, (nw, nt, n)) * (rng.uniform(size=(nw, nt, n)) < .8)
    dat /= np.maximum(dat.sum(2, keepdims=True), 1e-3) / rng.choice([1., .6])
    dat[dat.sum(2) > 1] /= 1 + 1e-15
    rad = rng.uniform() < .3
    t = Table()
    t['wave'] = np.repeat(w, nt) * u.nm
    t['angle'] = (np.deg2rad(np.tile(th, nw)) * u.rad) if rad else np.tile(th, nw) * u.deg
    for i, o in enumerate(orders):
        t[str(o)] = dat[:, :, i].ravel()
    return t, w, np.deg2rad(th), orders, dat


@W(quick=40, thorough=400)
def interpolated(c):
    from scipy.interpolate import RegularGridInterpolator
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    rng = c.rng
    nw, nt, n = int(rng.integers(3, 7)), int(rng.integers(3, 7)), int(rng.integers(1, 7))
    t, w, th, orders, dat = iet_table(rng, nw, nt, n)
    k = int(rng.choice([1, 1, 2]))
    s = InterpolateEfficiencyTable(t, k=k) if k == 2 or rng.uniform() < .5 else InterpolateEfficiencyTable(t)
    c.note(wave=w, theta=th, orders=orders, k=k)
    W2, T2 = np.meshgrid(w, th, indexing='ij')
    kev = lambda x: (x * u.nm).to(u.keV, equivalencies=u.spectral()).value
    o, p = s.probabilities(kev(W2.ravel()), None, T2.ravel())
    c.same(o, orders, 'table-orders', 'orders of the table')
    c.close(p, dat.reshape(-1, n).T, 'table-values', 'efficiency at tabulated wavelength and angle', rtol=1e-6, atol=1e-6)
    c.count('table_points', p.size)
    if k == 2:
        return
    i = rng.integers(nw), rng.integers(nt)
    N = 3000
    x = rng.uniform(w[0], w[-1], 5)
    y = rng.uniform(th[0], th[-1], 5)
    x[0], y[0] = w[i[0]], th[i[1]]
    ref = np.array([RegularGridInterpolator((w, th), dat[:, :, m])(np.column_stack([x, y])) for m in range(n)])
    o, p = s.probabilities(kev(x), None, y)
    c.close(p, ref, 'interpolation', 'linear between tabulated points', rtol=1e-6, atol=1e-6)
    c.count('table_points', p.size)
    j = rng.integers(5, size=N)
    o, pr = s(kev(x)[j], np.ones((N, 4)), y[j])
    c.close(pr, np.minimum(ref.sum(0), 1)[j], 'total-probability', 'summed efficiency', rtol=1e-6, atol=1e-6)
    c.check(np.asarray(pr) <= 1, 'total-probability', 'total in [0, 1]')
    for q in range(5):
        if ref[:, q].sum() > 1e-6:
            chi2(c, o[j == q], orders, np.where(ref[:, q] < 1e-12, 0, ref[:, q]), 'order-frequency', 'interpolated table')


@W(quick=8, thorough=60)
def packaged(c):
    """efficiency tables that come with the package are efficiencies"""
    from marxs.missions.lynx import ralfgrating
    from marxs.missions.mitsnl import catgrating as cat
    rng = c.rng
    s = [ralfgrating.order_selector_Si, ralfgrating.order_selector_Pt, cat.l1_order_selector][c.idx % 3]
    N = 3000
    e = (rng.uniform(.25, 2.))
    b = np.deg2rad(rng.uniform(0., 3.))
    c.note(which=c.idx % 3, energy=e, blaze=b)
    if c.idx % 3 == 2:
        o, pr = s(np.full(N, e))
        chi2(c, o, np.arange(-4, 5), [.006, .0135, .022, .028, .861, .028, .022, .0135, .006], 'order-frequency', 'L1 orders')
        c.close(pr, 1., 'total-probability', 'L1', rtol=1e-9)
        return
    ord_, p = s.probabilities(np.array([e]), None, np.array([b]))
    c.check(p >= -1e-12, 'packaged-table', 'no negative efficiency')
    c.check(p.sum() <= 1 + 1e-9, 'packaged-table', 'no more than 1')
    o, pr = s(np.full(N, e), None, np.full(N, b))
    c.close(pr, p.sum(), 'total-probability', 'packaged table', rtol=1e-9)
    c.count('table_points', p.size)
    chi2(c, o, ord_, np.clip(p[:, 0], 0, 1), 'order-frequency', 'packaged table')


@W(quick=12, thorough=60)
def blurred(c):
    """selectors with a random blaze angle are averages of the table"""
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    from marxs.missions.mitsnl.tolerances import OrderSelectorTopHat, OrderSelectorWavy
    rng = c.rng
    t, w, th, orders, dat = iet_table(rng, 4, 6, int(rng.integers(2, 5)))
    base = InterpolateEfficiencyTable(t)
    width = rng.uniform(0, .5) * (th[-1] - th[0])
    hat = c.idx % 2
    s = OrderSelectorTopHat(width, tab=t) if hat else OrderSelectorWavy(width / 3, tab=t)
    N = 6000
    e = np.full(N, 1.239842 / rng.uniform(w[0], w[-1]))
    b0 = rng.uniform(th[0], th[-1])
    o, pr = s(e, None, np.full(N, b0))
    x = (np.arange(2000) + .5) / 2000
    off = width * (x - .5) if hat else width / 3 * stats.norm.ppf(x)
    _, p = base.probabilities(e[:2000], None, b0 + off)
    tot = p.sum(0)
    c.note(width=width, hat=hat, blaze=b0)
    if tot.min() < 1e-6:
        c.skip()
    chi2(c, o, orders, (p / tot).mean(1), 'blurred-orders', 'orders of a blurred table')
    sd = tot.std() / np.sqrt(N)
    c.check(abs(np.mean(pr) - tot.mean()) < 7 * sd + 1e-3 * tot.mean(), 'blurred-total', f'mean total {np.mean(pr)}, {tot.mean()} expected')
    c.check((pr <= tot.max() + 1e-3) & (pr >= tot.min() - 1e-3) if hat else np.ones(1, bool), 'blurred-total', 'range of totals')


@W(quick=6, thorough=20)
def rejects(c):
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    from marxs.optics import OrderSelector
    from marxs.utils import DataFileFormatException
    rng = c.rng
    n = int(rng.integers(2, 9))
    p = rng.dirichlet(np.ones(n))
    o = np.arange(n)
    for bad, why in ((p * (1 + 10**rng.uniform(-5, 1)), 'sum above 1'), (np.append(p[1:], -.01), 'negative'), (p[1:], 'too short'),
                     (np.append(p, 0.), 'too long')):
        c.raises(ValueError, lambda: OrderSelector(o, p=bad), 'reject', why)
        c.count('rejections')
    t = iet_table(rng, 3, 4, 2)[0]
    c.raises(DataFileFormatException, lambda: InterpolateEfficiencyTable(t[:-1]), 'reject', 'irregular grid')
    i = rng.permutation(12)
    while np.all(i == np.arange(12)):
        i = rng.permutation(12)
    c.raises(DataFileFormatException, lambda: InterpolateEfficiencyTable(t[i]), 'reject', 'shuffled grid')
    # two rows swapped somewhere
    i = np.arange(12)
    a, b = rng.choice(4, 2, replace=False)
    block = 4 * int(rng.integers(3))
    i[[block + a, block + b]] = i[[block + b, block + a]]
    c.raises(DataFileFormatException, lambda: InterpolateEfficiencyTable(t[i]), 'reject', 'rows swapped')
    i = np.arange(12)
    a, b = rng.choice(3, 2, replace=False)
    j = int(rng.integers(4))
    i[[4 * a + j, 4 * b + j]] = i[[4 * b + j, 4 * a + j]]
    c.raises(DataFileFormatException, lambda: InterpolateEfficiencyTable(t[i]), 'reject', 'rows of two blocks swapped')
    c.count('rejections', 4)
    c.note(n=n)
