"""C29: CAT grating support structures absorb and diffract as specified."""
import astropy.units as u
import numpy as np
from astropy.table import Table
from scipy import stats

from vmon import gen as G
from vmon.core import Registry
from vmon.props.c09 import chi2 as draws

W = Registry('C29', rule='orders, probability and direction of every photon were compared to values calculated from the dimensions of the levels, and the '
             'frequency of orders and of photons in bars to the specified fractions',
             require={'photons': 60000, 'frequencies': 150, 'efficiencies': 2000, 'scatter': 20},
             assumptions=['the grating equation of the membrane and L1 as checked in C03 and C05', 'photons that are not diffracted by L1 and those that pass an '
                          'L1 bar cannot be told apart individually, only as a population'])
HC = 1.2398419843320028e-6   # keV * mm


def cat():
    import marxs.missions.mitsnl.catgrating as m
    return m


def q(rng, mm):
    """the same length in some unit"""
    return (mm * u.mm).to(rng.choice([u.mm, u.um, u.nm]))


def dims(rng, bar=(.02, .6)):
    p1 = rng.uniform(.003, .02)
    b1 = rng.uniform(*bar)
    p2 = rng.uniform(.5, 3)
    b2 = rng.uniform(*bar)
    D = dict(p1=p1, b1=b1, h1=10**rng.uniform(-4, -1.5), p2=p2, b2=b2, h2=10**rng.uniform(-2, 1))
    L1 = {'period': q(rng, p1), 'barwidth': q(rng, p1 * b1), 'bardepth': q(rng, D['h1'])}
    L2 = {'period': q(rng, p2), 'barwidth': q(rng, p2 * b2), 'bardepth': q(rng, D['h2'])}
    return D, L1, L2


def normalised(rng, k=None):
    from marxs.optics import OrderSelector
    lo = int(rng.integers(-6, 1))
    o = np.arange(lo, lo + int(rng.integers(1, 7)))
    p = rng.dirichlet(np.ones(len(o)) * 3) * (1. if rng.uniform() < .3 else rng.uniform(.2, 1))
    rng.shuffle(o)
    return OrderSelector(o, p=p), o, p


def axes(p4, groove):
    """unit vectors along the grooves, across the grooves and the normal"""
    c, ax, z = G.frame(p4)
    ex, ey, n = ax[:, 1], ax[:, 2], ax[:, 0]
    return -np.sin(groove) * ex + np.cos(groove) * ey, np.cos(groove) * ex + np.sin(groove) * ey, n


def diffract(dirs, order, energy, period, p4, groove):
    along, across, n = axes(p4, groove)
    s = np.sign(dirs @ across)
    s[s == 0] = 1
    pd = dirs @ across + s * order * HC / energy / period
    pl = dirs @ along
    pn = np.sqrt(1 - pd**2 - pl**2) * np.sign(dirs @ n)
    return pd[:, None] * across + pl[:, None] * along + pn[:, None] * n


def hits(t, p4):
    """photons that pass the element, and where, in local coordinates"""
    c, ax, z = G.frame(p4)
    pos, d = t['pos'].data[:, :3], t['dir'].data[:, :3]
    d = G.unit(d)
    dn = d @ ax[:, 0]
    s = ((c - pos) @ ax[:, 0]) / dn
    at = pos + s[:, None] * d
    loc = (at - c) @ ax[:, 1:]
    edge = np.abs(np.abs(loc) / z[1:] - 1).min(axis=1) < 1e-9
    return (np.abs(loc) <= z[1:]).all(axis=1) & (s > 0), edge | (np.abs(s) < 1e-6), loc, at


_tab = []


def silicon(energy, depth_mm):
    """range of transmission of Si, from the tabulated values on either side"""
    if not _tab:
        import marxs
        import os
        t = Table.read(os.path.join(os.path.dirname(marxs.__file__), 'missions', 'mitsnl', 'data', 'SiTransmission.csv'), format='ascii.ecsv')
        o = np.argsort(t['energy'])
        _tab.append((np.asarray(t['energy'])[o] / 1e3, np.asarray(t['transmission'])[o]))
    e, tr = _tab[0]
    i = np.clip(np.searchsorted(e, energy), 1, len(e) - 1)
    a, b = tr[i - 1]**(depth_mm * 1e3), tr[i]**(depth_mm * 1e3)
    return np.minimum(a, b), np.maximum(a, b)


def hexagon(D, dirs, p4):
    """open fraction including the shadow of the bars"""
    c, ax, z = G.frame(p4)
    sin = np.linalg.norm(np.cross(dirs, ax[:, 0]), axis=1)
    free = D['p2'] * (1 - D['b2'])
    shadow = D['h2'] * free * sin / (D['p2']**2 * np.sqrt(3) / 2)
    return np.clip((1 - D['b2'])**2 - shadow, 0, 1), shadow * sin**2


def chi2(c, got, orders, p, mech, msg):
    """frequency of orders drawn"""
    if len(got):
        draws(c, got, orders, p, mech, msg)


def photons(rng, p4, n, maxangle=.25, energy=None, **kw):
    e = energy or (lambda lo: (lo, lo + rng.uniform(.1, 5)))(rng.uniform(.3, 4))
    return G.aim(rng, p4, n, maxangle=maxangle, energy=e, spread=1.1, away=.05, **kw)


def within(got, lo, hi, tol=1e-9):
    return (got >= lo * (1 - tol) - 1e-15) & (got <= hi * (1 + tol) + 1e-15)


def d3(t, k='dir'):
    return np.asarray(t[k])[:, :3]


@W(quick=250, thorough=4000, cpu=120)
def stack(c):
    """the complete grating: every level leaves its mark on each photon"""
    m = cat()
    rng = c.rng
    p4 = G.pose(rng)
    D, L1, L2 = dims(rng)
    sel, o, p = normalised(rng)
    sel1, o1, p1 = normalised(rng)
    groove = float(rng.choice([0, rng.uniform(-3, 3)]))
    d = rng.uniform(1.5e-4, 1e-3)
    Q = {'d': q(rng, 2e-4), 'sigma': q(rng, 2e-4 * rng.uniform(0, .05))}
    dw = np.exp(-(2 * np.pi * (Q['sigma'] / Q['d']).to_value(u.one))**2)
    kw = dict(order_selector=sel, groove_angle=groove, d=d, l1_order_selector=sel1, l1_dims=L1, l2_dims=L2, qualityfactor=Q)
    c.note(dims=D, orders=o, p=p, orders1=o1, p1=p1, groove=groove, d=d, dw=dw)
    el = m.CATL1L2Stack(pos4d=p4, **kw)
    n = 1500
    t = photons(rng, p4, n, energy=(lambda lo: (lo, lo + 2.))(rng.uniform(.4, 3)))
    out = el(t.copy())
    hit, edge, loc, at = hits(t, p4)
    c.check(len(out) == n, 'photons', 'no photon is lost')
    if not {'order', 'order_L1'} <= set(out.colnames):
        c.check(False, 'orders', 'photons have an order for membrane and L1 support', got=out.colnames)
        return
    h = hit & ~edge
    miss = ~hit & ~edge
    for k in ('pos', 'dir', 'energy', 'probability', 'polarization'):
        c.same(np.asarray(out[k])[miss], np.asarray(t[k])[miss], 'missed', f'{k} of photons that miss the grating is not changed')
    om, ol = np.asarray(out['order'])[h], np.asarray(out['order_L1'])[h]
    e = np.asarray(out['energy'])[h]
    c.check(bool(np.isin(om, o[p > 0]).all()), 'order', 'the order is one of the possible orders of the membrane', got=np.unique(om))
    c.check(bool(np.isin(ol, np.append(o1[p1 > 0], 0)).all()), 'order-L1', 'the L1 order is one of the possible orders', got=np.unique(ol))
    c.close(np.asarray(out['energy']), np.asarray(t['energy']), 'energy', 'energies are not changed', rtol=0)
    c.close(d3(out, 'pos')[h], at[h], 'position', 'photons are on the grating', atol=1e-7)
    # direction
    mid = diffract(d3(t)[h], om, e, d, p4, groove)
    fin = diffract(mid, ol, e, D['p1'], p4, groove + np.pi / 2)
    got = d3(out)[h]
    ang = np.arctan2(np.linalg.norm(np.cross(fin, got), axis=1), (fin * got).sum(1))
    sig = 1.22 * .4 * np.arcsin(HC / e / (D['p2'] * (1 - D['b2'])))
    c.check(bool((ang < 8 * sig + 1e-12).all()), 'direction', 'photons follow the grating equations of membrane and L1, with a scatter no larger than from L2', worst=np.max(ang / sig))
    c.close(np.linalg.norm(got, axis=1), np.ones(h.sum()), 'normalised', 'directions are normalised', rtol=1e-9)
    # probability
    opn, dop = hexagon(D, fin, p4)
    prob = np.asarray(out['probability'])[h] / np.asarray(t['probability'])[h]
    base = p.sum() * dw**(om**2) * opn
    slack = p.sum() * dw**(om**2) * dop + 1e-12
    c.check(bool(((prob >= 0) & (prob <= 1 + 1e-12)).all()), 'probability-range', 'the transmission is between 0 and 1', got=[prob.min(), prob.max()])
    free = np.abs(prob - base * p1.sum()) <= slack * p1.sum() + 1e-9 * base
    lo, hi = silicon(e, D['h1'])
    bar = (prob >= lo * (base - slack) * (1 - 1e-9) - 1e-12) & (prob <= hi * (base + slack) * (1 + 1e-9) + 1e-12)
    bad = ~(free | (bar & (ol == 0)))
    c.check(not bad.any(), 'probability', 'the transmission is the product of the levels', got=prob[bad][:3], free=(base * p1.sum())[bad][:3], bar=(base * hi)[bad][:3], L1=ol[bad][:3],
            order=om[bad][:3])
    # populations
    chi2(c, om, o, p / p.sum(), 'order-frequency', 'orders of the membrane have the given probability')
    f = 1 - D['b1']
    all1 = np.unique(np.append(o1, 0))
    w1 = np.array([f * (p1 / p1.sum())[o1 == x].sum() + (1 - f) * (x == 0) for x in all1])
    chi2(c, ol, all1, w1, 'order-L1-frequency', 'orders of L1 have the given probability, and photons in bars are not diffracted')
    sure = (ol == 0) & (free ^ bar)
    if sure.all() or (np.abs(hi - p1.sum()) > .01).all() and not (free & bar & (ol == 0)).any():
        nbar = int((bar & (ol == 0)).sum())
        c.pvalue(stats.binomtest(nbar, int(h.sum()), D['b1']).pvalue, 'bar-fraction', 'the fraction of photons that pass a bar is bar width over period', got=nbar / h.sum(), want=D['b1'])
        c.count('statistical', 1)
    c.count('frequencies', 2)
    c.count('photons', int(h.sum()))
    for kk in range(10):
        c.seen('order pair', (int(om[kk % max(len(om), 1)]), int(ol[kk % max(len(ol), 1)]))) if len(om) else None


@W(quick=200, thorough=3000)
def l1(c):
    """L1 level on its own"""
    m = cat()
    rng = c.rng
    p4 = G.pose(rng)
    D, L1, _ = dims(rng, bar=(.02, .95))
    sel, o, p = normalised(rng)
    groove = float(rng.uniform(-3, 3))
    el = m.L1(pos4d=p4, l1_dims=L1, order_selector=sel, groove_angle=groove)
    t = photons(rng, p4, 1500, energy=(.3, 8.))
    c.note(dims=D, orders=o, p=p)
    out = el(t.copy())
    hit, edge, loc, at = hits(t, p4)
    h = hit & ~edge
    ol, e = np.asarray(out['order_L1'])[h], np.asarray(out['energy'])[h]
    c.check('order' not in out.colnames, 'order-column', 'the L1 level does not set the order of the membrane', got=out.colnames)
    c.close(d3(out)[h], diffract(d3(t)[h], ol, e, D['p1'], p4, groove), 'direction', 'photons follow the grating equation', rtol=0, atol=1e-9)
    prob = np.asarray(out['probability'])[h] / np.asarray(t['probability'])[h]
    lo, hi = silicon(e, D['h1'])
    free = np.abs(prob - p.sum()) < 1e-9
    bar = within(prob, lo, hi) & (ol == 0)
    bad = ~(free | bar)
    c.check(not bad.any(), 'probability', 'photons are diffracted, or pass through a bar with the transmission of Si for its depth', got=prob[bad][:3], want=[lo[bad][:3], hi[bad][:3]], e=e[bad][:3])
    amb = free & bar
    n, nb = len(ol), int((bar & ~free).sum())
    a, b = nb, nb + int(amb.sum())
    pv = stats.binom.sf(a - 1, n, D['b1']), stats.binom.cdf(b, n, D['b1'])
    c.pvalue(min(1, 2 * min(pv)), 'bar-fraction', 'the fraction of photons that pass a bar is bar width over period', got=[a / n, b / n], want=D['b1'])
    # positions in the spectrum and bars are independent: energies in bars like all others
    every = np.unique(np.append(o, 0))
    chi2(c, ol, every, [(1 - D['b1']) * (p / p.sum())[o == x].sum() + D['b1'] * (x == 0) for x in every], 'order-frequency', 'orders have the given probability')
    pol = d3(out, 'polarization')
    c.close((pol * d3(out)).sum(1), np.zeros(len(pol)), 'polarization', 'polarization is perpendicular to the direction', atol=1e-7)
    c.count('frequencies', 1)
    c.count('statistical', 2)
    c.count('photons', n)


@W(quick=300, thorough=5000)
def l2(c):
    """L2 absorption and quality factor"""
    m = cat()
    rng = c.rng
    p4 = G.pose(rng)
    D, _, L2 = dims(rng, bar=(.005, .97))
    t = photons(rng, p4, 300, maxangle=float(rng.choice([.01, .1, .5, 1.5])))
    if rng.uniform() < .2:
        # straight
        cc, ax, z = G.frame(p4)
        t['dir'][:, :3] = ax[:, 0] * rng.choice([-1, 1])
        t['pos'][:, :3] = cc + rng.uniform(-.9, .9, (len(t), 2)) * z[1:] @ ax[:, 1:].T - 5 * d3(t)
    out = m.L2Abs(pos4d=p4, l2_dims=L2)(t.copy())
    hit, edge, loc, at = hits(t, p4)
    h = hit & ~edge
    opn, dop = hexagon(D, d3(t)[h], p4)
    prob = np.asarray(out['probability'])[h] / np.asarray(t['probability'])[h]
    c.note(dims=D)
    c.check(bool((np.abs(prob - opn) <= 1e-6 * (1 + D['h2'] / D['p2']) + dop).all()), 'open-fraction', 'the transmission is the open area minus the shadow at the angle of incidence', worst=np.max(np.abs(prob - opn), initial=0))
    c.check(bool(((prob >= 0) & (prob <= 1 + 1e-12)).all()), 'range', 'the transmission is between 0 and 1', got=[prob.min(initial=0), prob.max(initial=0)])
    c.same(out['dir'].data, t['dir'].data, 'direction', 'absorption does not change the direction')
    c.same(np.asarray(out['probability'])[~hit & ~edge], np.asarray(t['probability'])[~hit & ~edge], 'missed', 'photons that miss are not absorbed')
    # more inclined photons do not get through more easily
    s = np.argsort(np.linalg.norm(np.cross(d3(t)[h], G.frame(p4)[1][:, 0]), axis=1))
    c.check(bool((np.diff(prob[s]) <= 1e-9).all()), 'monotonic', 'the shadow grows with the angle of incidence')
    # quality factor
    t['order'] = rng.integers(-12, 13, len(t))
    sd, dd = rng.uniform(0, .1), rng.uniform(1e-4, 1e-3)
    el = m.QualityFactor(pos4d=p4, qualityfactor={'d': q(rng, dd), 'sigma': q(rng, dd * sd)})
    out = el(t.copy())
    want = np.exp(-(2 * np.pi * sd * np.asarray(t['order'])[h])**2)
    prob = np.asarray(out['probability'])[h] / np.asarray(t['probability'])[h]
    c.close(prob, want, 'quality-factor', 'the efficiency of each order is reduced by its Debye-Waller factor', rtol=1e-9, atol=1e-300)
    c.same(np.asarray(out['order']), np.asarray(t['order']), 'order', 'orders are not changed')
    c.count('photons', int(h.sum()) * 2)


@W(quick=100, thorough=1500)
def scatter(c):
    """L2 diffraction: normal distribution of the scattering angle"""
    m = cat()
    rng = c.rng
    p4 = G.pose(rng)
    D, _, L2 = dims(rng)
    L2.pop('bardepth')
    t = photons(rng, p4, 3000, maxangle=.5)
    out = m.L2Diffraction(pos4d=p4, l2_dims=L2)(t.copy())
    hit, edge, loc, at = hits(t, p4)
    h = hit & ~edge
    a, b = d3(t)[h], d3(out)[h]
    ang = np.arctan2(np.linalg.norm(np.cross(a, b), axis=1), (a * b).sum(1))
    sig = 1.22 * .4 * HC / np.asarray(t['energy'])[h] / (D['p2'] * (1 - D['b2']))
    c.pvalue(stats.kstest(ang / sig, stats.halfnorm.cdf).pvalue, 'scatter-angle', 'angles are normal with 0.4 of the radius of the Airy disk of the free part of the hexagon', got=np.std(ang / sig))
    c.same(np.asarray(out['probability']), np.asarray(t['probability']), 'probability', 'scattering does not absorb')
    c.same(d3(out)[~hit & ~edge], d3(t)[~hit & ~edge], 'missed', 'photons that miss are not scattered')
    c.count('scatter', 1)
    c.count('statistical', 1)
    c.count('photons', int(h.sum()))


@W(quick=60, thorough=600)
def invalid(c):
    m = cat()
    rng = c.rng
    from marxs.optics import OrderSelector
    p = rng.uniform(.001, 2)
    w = p * rng.uniform(1.0, 3)
    dim = {'period': q(rng, p), 'barwidth': q(rng, w), 'bardepth': q(rng, .1)}
    if dim['barwidth'].to_value(u.mm) < dim['period'].to_value(u.mm):
        dim['barwidth'] = dim['period'].copy()
    o = OrderSelector([0])
    mk = {'l1': lambda: m.L1(l1_dims=dim, order_selector=o), 'l2': lambda: m.L2Abs(l2_dims=dim), 'l2d': lambda: m.L2Diffraction(l2_dims=dim),
          's1': lambda: m.CATL1L2Stack(order_selector=o, l1_dims=dim), 's2': lambda: m.CATL1L2Stack(order_selector=o, l2_dims=dim)}
    for k, f in mk.items():
        c.raises(ValueError, f, 'bars-' + k, 'bars wider than the period are rejected')
    # support between gratings
    n = int(rng.integers(1, 200))
    t = G.table(rng, rng.normal(size=(n, 3)), rng.normal(size=(n, 3)))
    f = rng.integers(-1, 4, n)
    if rng.uniform() < .8:
        t['facet'] = f.astype(rng.choice([int, float]))
    else:
        f[:] = -1
    was = t.copy()
    out = m.catsupportbars(t)
    c.same(np.asarray(out['probability']), np.where(f < 0, 0, np.asarray(was['probability'])), 'support', 'photons that do not pass through a facet are absorbed, and only those')
    for k in was.colnames:
        if k != 'probability':
            c.same(np.asarray(out[k]), np.asarray(was[k]), 'support-other', f'the support does not change {k}')
    c.count('photons', n)


def efftable(rng):
    nw, nt, no = int(rng.integers(3, 9)), int(rng.integers(3, 9)), int(rng.integers(1, 8))
    wave = np.sort(rng.uniform(.5, 6, nw)) + np.arange(nw) * .05
    theta = np.cumsum(rng.uniform(.2, 1, nt)) - rng.uniform(0, .2)
    o = rng.permutation(np.arange(-9, 3))[:no]
    p = rng.dirichlet(np.ones(no + 1) * rng.uniform(.5, 4), (nw, nt))[:, :, :no]
    if no > 1 and rng.uniform() < .2:
        # some order never happens
        p[:, :, int(rng.integers(no))] = 0
    if rng.uniform() < .2:
        # no absorption
        s = p.sum(axis=2, keepdims=True)
        p = np.where(s > 0, p / np.where(s > 0, s, 1), 1 / no)
    unit = rng.choice([u.deg, u.rad, u.arcmin])
    W_, T_ = np.meshgrid(wave, theta, indexing='ij')
    t = Table()
    t['wave'] = W_.flatten() * u.nm
    t['theta'] = (T_.flatten() * u.deg).to(unit)
    for i, x in enumerate(o):
        t[str(int(x))] = p[:, :, i].flatten()
    return t, wave, np.deg2rad(theta), o, p


def bilinear(wave, theta, p, w, th):
    w, th = np.clip(w, wave[0], wave[-1]), np.clip(th, theta[0], theta[-1])
    i = np.clip(np.searchsorted(wave, w, side='right') - 1, 0, len(wave) - 2)
    j = np.clip(np.searchsorted(theta, th, side='right') - 1, 0, len(theta) - 2)
    f = ((w - wave[i]) / (wave[i + 1] - wave[i]))[:, None]
    g = ((th - theta[j]) / (theta[j + 1] - theta[j]))[:, None]
    return (1 - f) * (1 - g) * p[i, j] + f * (1 - g) * p[i + 1, j] + (1 - f) * g * p[i, j + 1] + f * g * p[i + 1, j + 1]


@W(quick=300, thorough=5000)
def efficiency(c):
    """tabulated efficiencies"""
    m = cat()
    from marxs.missions.mitsnl.tolerances import OrderSelectorTopHat, OrderSelectorWavy
    rng = c.rng
    t, wave, theta, o, p = efftable(rng)
    keep = t.copy()
    kind = str(rng.choice(['plain', 'plain', 'spline', 'wavy0', 'tophat0']))
    k = int(rng.integers(1, min(3, len(wave) - 1, len(theta) - 1) + 1)) if kind == 'spline' else 1
    el = {'plain': lambda: m.InterpolateEfficiencyTable(t), 'spline': lambda: m.InterpolateEfficiencyTable(t, k=k), 'wavy0': lambda: OrderSelectorWavy(wavysigma=0., tab=t),
          'tophat0': lambda: OrderSelectorTopHat(tophatwidth=0., tab=t)}[kind]()
    c.note(kind=kind, k=k, orders=o, shape=p.shape)
    c.check(keep.colnames == t.colnames and all((keep[x] == t[x]).all() for x in t.colnames), 'table-changed', 'the table is not changed')
    i, j = rng.integers(len(wave), size=30), rng.integers(len(theta), size=30)
    en = HC * 1e6 / wave
    oo, pp = el.probabilities(en[i], np.ones(30), theta[j])
    c.same(np.asarray(oo), np.asarray(o), 'orders', 'orders are those of the columns')
    c.close(np.asarray(pp).T, p[i, j], 'tabulated', 'tabulated efficiencies are reproduced', rtol=1e-6, atol=1e-9)
    c.count('efficiencies', 30)
    if k == 1:
        n = 30
        w, th = rng.uniform(wave[0] - .3, wave[-1] + .3, n), rng.uniform(theta[0] - .02, theta[-1] + .02, n)
        want = bilinear(wave, theta, p, w, th)
        oo, pp = el.probabilities(HC * 1e6 / w, np.ones(n), th)
        c.close(np.asarray(pp).T, want, 'interpolated', 'efficiencies are linear in wavelength and blaze angle between tabulated values', rtol=1e-7, atol=1e-9)
        order, tot = el(HC * 1e6 / w, np.ones(n), th)
        c.close(tot, want.sum(1), 'total', 'the total efficiency is the sum over all orders', rtol=1e-7, atol=1e-9)
        c.check(bool((np.asarray(tot) <= 1).all()), 'total-range', 'the total efficiency is at most 1', got=np.max(tot))
        idx = [int(np.nonzero(o == x)[0][0]) if (o == x).any() else -1 for x in order]
        c.check(min(idx) >= 0 and all(want[a, b] > 0 for a, b in enumerate(idx)), 'possible-order', 'the order of each photon is a possible one')
        # frequencies
        n = 4000
        w, th = np.full(n, w[0]), np.full(n, th[0])
        order, tot = el(HC * 1e6 / w, np.ones(n), th)
        chi2(c, np.asarray(order), o, np.where(want[0] > 1e-12, want[0], 0) / want[0].sum(), 'order-frequency', 'orders have the tabulated relative efficiency')
        c.count('frequencies', 1)
    # broken tables
    b = t[rng.permutation(len(t))[:len(t) - 1]]
    from marxs.utils import DataFileFormatException
    c.raises(DataFileFormatException, lambda: m.InterpolateEfficiencyTable(b), 'broken-table', 'tables that are not on a regular grid are rejected')
    c.seen('table', (kind, p.shape))


@W(quick=40, thorough=400, cpu=120)
def blurred(c):
    """efficiencies for grating bars with random angles"""
    from marxs.missions.mitsnl.tolerances import OrderSelectorTopHat, OrderSelectorWavy
    rng = c.rng
    t, wave, theta, o, p = efftable(rng)
    wid = float(rng.uniform(.3, 2) * (theta[-1] - theta[0]))
    kind = str(rng.choice(['wavy', 'tophat']))
    el = OrderSelectorWavy(wavysigma=wid, tab=t) if kind == 'wavy' else OrderSelectorTopHat(tophatwidth=wid, tab=t)
    n = 4000
    w = np.full(n, rng.uniform(wave[0], wave[-1]))
    th = rng.uniform(theta[0], theta[-1])
    oo, pp = el.probabilities(HC * 1e6 / w, np.ones(n), np.full(n, th))
    d = stats.norm(th, wid) if kind == 'wavy' else stats.uniform(th - wid / 2, wid)
    x = d.ppf((np.arange(8000) + .5) / 8000)
    ref = bilinear(wave, theta, p, np.full(len(x), w[0]), x)
    pp = np.asarray(pp).T
    for a in range(len(o)):
        s = ref[:, a].std()
        z = (pp[:, a].mean() - ref[:, a].mean()) / (s / np.sqrt(n) + 1e-6)
        c.check(abs(z) < 9, 'mean', 'efficiencies are averages over the distribution of bar angles', z=z, kind=kind)
        v = pp[:, a].std()
        c.close(v, s, 'spread', 'efficiencies scatter like the tabulated values over the distribution of bar angles', rtol=.35, atol=2e-3)
    c.count('statistical', 2 * len(o))
    c.count('efficiencies', len(o))
    tb = np.full(n, th)
    order, tot = el(HC * 1e6 / w, np.ones(n), tb)
    c.check(bool((tb == th).all()), 'input', 'blaze angles are not changed')
    c.close(np.mean(tot), ref.sum(1).mean(), 'mean-total', 'total efficiency', rtol=0, atol=9 * ref.sum(1).std() / np.sqrt(n) + 1e-6)


@W(quick=50, thorough=800)
def nonparallel(c):
    """bars whose angle changes across the grating see a different blaze angle"""
    m = cat()
    from marxs.optics import CATGrating
    rng = c.rng
    p4 = G.pose(rng)
    seen = []

    def sel(energy, pol, blaze):
        seen.append(np.array(blaze))
        return np.full(len(energy), o), np.full(len(energy), .5)
    o = int(rng.integers(-4, 5))
    t = photons(rng, p4, 400)
    hit, edge, loc, at = hits(t, p4)
    t = t[hit & ~edge]
    loc = loc[hit & ~edge]
    if not len(t):
        c.skip()
        return
    db, bc = rng.normal() * 1e-3, rng.normal() * .02
    groove = float(rng.uniform(-3, 3)) if rng.uniform() < .5 else 0.
    a = CATGrating(pos4d=p4, d=2e-4, order_selector=sel, groove_angle=groove)(t.copy())
    b = m.NonParallelCATGrating(pos4d=p4, d=2e-4, order_selector=sel, blaze_center=bc, d_blaze_mm=db if not groove else 0., groove_angle=groove)(t.copy())
    along, across, n = axes(p4, groove)
    dd = d3(t)
    want = np.abs(np.arctan(dd @ across / (dd @ n)))
    c.close(np.asarray(a['blaze']), want, 'blaze', 'the blaze angle is the angle to the normal, seen along the grooves', rtol=1e-6, atol=2e-8)
    mod = bc + (0 if groove else db * loc[:, 0])
    c.close(np.asarray(b['blaze']) - np.asarray(a['blaze']), np.full(len(t), mod) if groove else mod, 'bar-angle', 'the angle of the bars is added to the blaze angle', rtol=1e-6, atol=1e-9)
    c.close(seen[1], np.asarray(b['blaze']), 'selector-blaze', 'orders are selected for the angle to the bars', rtol=0, atol=1e-12)
    c.close(b['dir'].data, a['dir'].data, 'direction', 'the angle of the bars does not change the grating equation', rtol=0, atol=1e-12)
    c.count('photons', len(t))
