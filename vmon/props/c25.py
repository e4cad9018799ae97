"""C25: analysis figures of merit equal their definition on the photon list."""
import os
import tempfile

import astropy.units as u
import numpy as np
from astropy.table import MaskedColumn, Table

from vmon import gen
from vmon.core import Registry

W = Registry('C25', rule='figures of merit returned by the real analysis code were compared to their definition written out on the same photon list',
             require={'orders': 1500, 'undefined': 100, 'reordered': 100, 'widths': 100, 'focus': 40, 'per_order': 30, 'threshold': 60,
                      'captures': 60, 'angles': 5000, 'projected': 2000, 'facets': 200, 'radii': 40, 'runs': 10, 'averages': 100},
             assumptions=['sigma clipping is done at 3 sigma around the median in at most 5 iterations (the default of astropy)'])


def clip(x, sigma=3., iters=5):
    x = np.asarray(x, float)
    x = x[np.isfinite(x)]
    for i in range(iters):
        m, s = np.median(x), x.std()
        keep = (x >= m - sigma * s) & (x <= m + sigma * s)
        if keep.all():
            break
        x = x[keep]
    return x


def frozen(t):
    """everything in a table, to see whether it is changed"""
    return (list(t.colnames), repr(sorted(t.meta.items())), [(np.ma.getdata(np.asanyarray(t[c])).tobytes(), np.ma.getmaskarray(np.ma.asanyarray(t[c])).tobytes())
                                                              for c in t.colnames])


def unchanged(c, t, before, what):
    c.check(frozen(t) == before, 'input', f'{what}: photon list not changed')


def lines(c, n=None, col='x', masked=None):
    """photon list with a line per order"""
    rng = c.rng
    orders = np.arange(rng.integers(-6, 0), rng.integers(1, 6) + 1)
    num = rng.choice([0, 1, 5, 19, 20, 21, 22, 60, 200], len(orders))
    o = np.repeat(orders, num)
    x = o * rng.uniform(5, 50) + rng.normal(size=len(o)) * 10**rng.uniform(-3, .3) + rng.normal() * 100
    bad = rng.uniform(size=len(o)) < .02
    x[bad] += rng.normal(size=bad.sum()) * 50
    t = Table({'order': o, col: x, 'probability': rng.uniform(size=len(o)) * (rng.uniform(size=len(o)) < .9)})
    t = t[rng.permutation(len(t))]
    t['energy'] = 1. * u.keV
    if masked if masked is not None else rng.uniform() < .2:
        t[col] = MaskedColumn(t[col], mask=rng.uniform(size=len(t)) < .1)
    t.meta['A'] = 1
    return t, orders, num


def line_ref(t, o, col):
    """position and width of a line"""
    x = np.ma.asanyarray(t[col])[np.asarray(t['order'] == o)]
    if len(x) < 20:
        return np.nan, np.nan
    x = clip(np.ma.compressed(x))
    return (x.mean(), x.std()) if len(x) else (np.nan, np.nan)


@W(quick=150, thorough=8000)
def from_list(c):
    from marxs.analysis.gratings import (AnalysisError, effectivearea_from_photonlist, resolvingpower_from_photonlist,
                                         resolvingpower_from_photonlist_robust)
    from marxs.analysis.analysis import detected_fraction
    rng = c.rng
    t, orders, num = lines(c)
    c.note(orders=orders, num=num)
    ask = rng.permutation(np.append(orders, [orders[-1] + 1, orders[0] - 1]))
    if rng.uniform() < .3:
        ask = list(map(int, ask))
    name = 'order'
    if rng.uniform() < .5:
        name = 'myorder'
        t.rename_column('order', name)
    t0 = t.copy()
    if name != 'order':
        t0.rename_column(name, 'order')
    before = frozen(t)
    n0 = int(num[list(orders).index(0)])
    zero = None if rng.uniform() < .5 else float(rng.normal() * 10)
    kw = dict(col='x', zeropos=zero, ordercol=name)
    if zero is None and n0 < 20:
        c.raises(AnalysisError, lambda: resolvingpower_from_photonlist(t, ask, **kw), 'undefined', 'position of order 0 is unknown')
        zero = kw['zeropos'] = 5.
        c.count('undefined')
    z = line_ref(t0, 0, 'x')[0] if zero is None else zero
    res, pos, std = resolvingpower_from_photonlist(t, ask, **kw)
    unchanged(c, t, before, 'resolving power')
    ref = np.array([line_ref(t0, o, 'x') for o in ask])
    c.close(pos, ref[:, 0], 'position', 'mean position of each order', rtol=1e-9, atol=1e-9)
    c.close(std, ref[:, 1], 'width', 'width of each order', rtol=1e-9, atol=1e-9)
    c.close(res, np.abs(ref[:, 0] - z) / (2.3548 * ref[:, 1]), 'resolving-power', 'distance over FWHM', rtol=1e-6, atol=1e-9)
    few = np.isnan(ref[:, 0])
    c.check(np.isnan(np.asarray(res)[few]), 'undefined', 'undefined with fewer than 20 photons')
    c.count('undefined', int(few.sum()))
    c.count('threshold', int(np.isin(num, [19, 20, 21]).sum()))
    c.count('orders', len(ask))
    # order of photons and labels does not matter
    k, j = rng.permutation(len(t)), rng.permutation(len(ask))
    r2 = resolvingpower_from_photonlist(t[k], np.asarray(ask)[j], **kw)
    for a, b in zip((res, pos, std), r2):
        c.close(b, np.asarray(a)[j], 'reorder', 'order of photons and labels is irrelevant', rtol=1e-7, atol=1e-8)
    # linear change of the coordinate
    f, s = rng.choice([-1, 1]) * 10**rng.uniform(-2, 2), rng.normal() * 10
    t2 = t.copy()
    t2['x'] = t['x'] * f + s
    r3 = resolvingpower_from_photonlist(t2, ask, **{**kw, 'zeropos': None if kw['zeropos'] is None else kw['zeropos'] * f + s})
    ok = ~few & (ref[:, 1] > 1e-9)
    c.close(np.asarray(r3[0])[ok], np.asarray(res)[ok], 'scale', 'resolving power does not depend on unit and zero point', rtol=1e-5, atol=1e-7)
    c.count('reordered')
    # robust version: worst of several lists
    m = int(rng.integers(1, 4))
    ls, cols, zs = [], [], []
    for i in range(m):
        q = t[rng.uniform(size=len(t)) < .9]
        q[f'c{i}'] = q['x'] * rng.uniform(.5, 2)
        ls.append(q)
        cols.append(f'c{i}')
        zs.append(float(rng.normal() * 5))
    fz = [frozen(q) for q in ls]
    single = [resolvingpower_from_photonlist(q, ask, col=k, zeropos=z, ordercol=name) for q, k, z in zip(ls, cols, zs)]
    R = resolvingpower_from_photonlist_robust(ls, ask, cols, zs, ordercol=name)
    for q, b in zip(ls, fz):
        unchanged(c, q, b, 'robust resolving power')
    S = np.array(single)
    for i in range(len(ask)):
        r = S[:, 0, i]
        got = np.array([R[0][i], R[1][i], R[2][i]])
        if np.isnan(r).any():
            c.check(np.isnan(got[0]), 'robust', 'undefined if one of the lists is')
        else:
            c.check(np.isclose(got[0], r.min()) and any(np.allclose(got, S[k, :, i]) for k in range(m) if np.isclose(r[k], r.min())),
                    'robust', 'worst case is reported', got=got, want=S[:, :, i])
    c.raises(ValueError, lambda: resolvingpower_from_photonlist_robust(ls, ask, cols + ['x'], zs), 'reject', 'different numbers')
    # effective area and fraction
    N = int(len(t) + rng.integers(0, 100)) or 5
    A = rng.choice([1., rng.uniform(.1, 1e3)])
    a = effectivearea_from_photonlist(t, ask, N, A * u.cm**2, ordercol=name)
    want = np.array([sum(float(r['probability']) for r in t0 if r['order'] == o) for o in ask])
    c.check(a.unit == u.cm**2, 'effective-area', 'unit of the geometric area')
    c.close(a.value, want / N * A, 'effective-area', 'sum of probabilities times area per photon', rtol=1e-9, atol=1e-12)
    M = int(rng.integers(1, 3 * N))
    c.close(effectivearea_from_photonlist(t[k], ask, M, A, ordercol=name), want / M * A, 'effective-area', 'number of photons', rtol=1e-9, atol=1e-12)
    c.close(effectivearea_from_photonlist(t0, ask, N).value, want / N, 'effective-area', 'default area', rtol=1e-9, atol=1e-12)
    if len(t):
        lab = np.asarray(ask) if rng.uniform() < .5 else list(map(int, ask))
        d = detected_fraction(t, lab, col=name)
        c.close(d, want / len(t), 'fraction', 'probability per photon in the list', rtol=1e-9, atol=1e-12)
        c.check(0 <= np.sum(d) <= 1 + 1e-9, 'fraction', 'fractions add up to a probability')
    unchanged(c, t, before, 'effective area')


@W(quick=120, thorough=6000)
def captured(c):
    from marxs.analysis.gratings import CaptureResAeff, CaptureResAeff_CCDgaps, resolvingpower_from_photonlist
    rng = c.rng
    t, orders, num = lines(c, col='disp')
    t['CCD'] = rng.integers(-2, 5, len(t))
    bad = rng.uniform(size=len(t)) < .05
    if not hasattr(t['disp'], 'mask'):
        t['disp'][bad] = rng.choice([np.nan, np.inf])
    ask = rng.permutation(np.append(orders, [orders[-1] + 1]))
    ask = ask[:rng.integers(1, len(ask) + 1)]
    gaps = rng.uniform() < .5
    A = 10**rng.uniform(-1, 3)
    A = A * u.cm**2 if rng.uniform() < .3 else A
    kw = dict(A_geom=A, order_col='order', orders=list(map(int, ask)) if rng.uniform() < .3 else ask, dispersion_coord='disp',
              zeropos=None if rng.uniform() < .5 else float(rng.normal() * 10))
    obj = CaptureResAeff_CCDgaps(aeff_filter_col='CCD', **kw) if gaps else CaptureResAeff(**kw)
    before = frozen(t)
    N = None if rng.uniform() < .5 and len(t) else int(len(t) + 1 + rng.integers(0, 1000))
    out = obj(t) if N is None else obj(t, N)
    unchanged(c, t, before, 'capture')
    again = obj(t, N)
    n = len(t) if N is None else N
    Av = u.Quantity(A).value
    use = np.ones(len(t), bool) if not gaps else np.asarray(t['CCD']) >= 0
    prob, o = np.asarray(t['probability']), np.asarray(t['order'])
    aeff = np.array([prob[use & (o == k)].sum() / n * Av for k in ask])
    c.close(u.Quantity(out['Aeff']).value, aeff, 'effective-area', 'photons that count, per order', rtol=1e-9, atol=1e-12)
    c.close(u.Quantity(out['Aeff0']).value, aeff[ask == 0].sum(), 'effective-area', 'zeroth order', rtol=1e-9, atol=1e-12)
    c.close(u.Quantity(out['Aeffgrat']).value, aeff[ask != 0].sum(), 'effective-area', 'all dispersed orders', rtol=1e-9, atol=1e-12)
    good = (prob > 0) & np.isfinite(np.ma.asanyarray(t['disp']).filled(np.nan))
    g = t[good]
    z = kw['zeropos']
    if z is None and (o[good] == 0).sum() < 20:
        c.check(np.isnan(np.asarray(out['R'], float)), 'undefined', 'no resolving power if order 0 cannot be found')
        res = np.full(len(ask), np.nan)
        c.count('undefined')
    else:
        z = line_ref(g, 0, 'disp')[0] if z is None else z
        ref = np.array([line_ref(g, k, 'disp') for k in ask])
        res = np.abs(ref[:, 0] - z) / 2.3548 / ref[:, 1]
        c.close(np.asarray(out['R'], float), res, 'resolving-power', 'from photons with probability and position', rtol=1e-6, atol=1e-9)
    d = (ask != 0) & np.isfinite(res)
    w = aeff[d]
    got = out['Rgrat']
    if w.sum() > 0:
        c.close(float(got), (res[d] * w).sum() / w.sum(), 'average', 'weighted with the effective area', rtol=1e-6, atol=1e-9)
    else:
        c.check(np.ma.is_masked(got) or not np.isfinite(float(got)), 'undefined', 'no average without photons', got=str(got))
        c.count('undefined')
    for k in out:
        c.check(np.array_equal(np.ma.filled(np.ma.asanyarray(out[k], dtype=float), np.nan), np.ma.filled(np.ma.asanyarray(again[k], dtype=float), np.nan), equal_nan=True),
                'repeat', f'{k}: same result when asked again')
    c.count('captures')
    c.count('orders', len(ask))


@W(quick=150, thorough=8000)
def averages(c):
    from marxs.analysis.gratings import average_R_Aeff, weighted_per_order
    from marxs.optics.grating import EfficiencyFile
    rng = c.rng
    shape = tuple(rng.integers(1, 6, rng.integers(1, 4)))
    axis = None if rng.uniform() < .3 else int(rng.integers(-len(shape), len(shape)))
    r, a = rng.uniform(0, 5e3, shape), rng.uniform(0, 50, shape) * (rng.uniform(size=shape) < .8)
    r[rng.uniform(size=shape) < .3] = np.nan
    if rng.uniform() < .3:
        r[rng.uniform(size=shape) < .2] = np.inf   # all photons at the same place
    r0, a0 = r.copy(), a.copy()
    x = np.ma.masked_invalid(r) if rng.uniform() < .3 else r
    if rng.uniform() < .3:
        a = a * u.cm**2
        a0 = a.copy()
    R, A = average_R_Aeff(x, a, axis=axis)
    c.check(np.array_equal(r, r0, equal_nan=True) and np.array_equal(a, a0), 'input', 'arrays not changed')
    c.check(getattr(A, 'unit', None) == getattr(a, 'unit', None) and not hasattr(R, 'unit'), 'average', 'units', R=str(R), A=str(A))
    A, a = u.Quantity(A).value, u.Quantity(a).value
    c.close(A, a.sum(axis=axis), 'average', 'effective areas add up', rtol=1e-9, atol=1e-12)
    ok = np.isfinite(r)
    w = np.where(ok, a, 0).sum(axis=axis)
    with np.errstate(all='ignore'):
        want = np.where(ok & (a > 0), np.where(ok, r, 0) * a, 0).sum(axis=axis) / w
    got = np.ma.filled(np.ma.asanyarray(R, dtype=float), np.nan)
    c.close(got, np.where(w > 0, want, np.nan), 'average', 'weighted mean of defined values', rtol=1e-9, atol=1e-12)
    c.count('undefined', int(np.sum(w == 0)))
    # weights from a table of efficiencies
    ne, no = int(rng.integers(2, 8)), int(rng.integers(1, 6))
    tab_o = rng.permutation(np.arange(-6, 7))[:no]
    en = np.sort(rng.uniform(.2, 2, ne))[::rng.choice([-1, 1])]
    if rng.uniform() < .4:
        en = rng.permutation(en)
    pr = rng.dirichlet(np.ones(no + 1), ne)[:, :no]
    fd, name = tempfile.mkstemp()
    os.close(fd)
    np.savetxt(name, np.hstack([en[:, None], pr]), fmt='%.17e')
    eff = EfficiencyFile(name, list(map(int, tab_o)))
    os.remove(name)
    ask = rng.permutation(tab_o)[:rng.integers(1, no + 1)]
    E = rng.uniform(.1, 2.2, rng.integers(1, 6))
    dat = rng.uniform(0, 1e3, (len(ask), len(E)))
    d0 = dat.copy()
    got = weighted_per_order(dat, ask, E, eff)
    c.check(np.array_equal(dat, d0), 'input', 'data not changed')
    k = np.argsort(en)
    want = []
    for j, e in enumerate(E):
        ww = [np.interp(e, en[k], pr[k, list(tab_o).index(o)]) for o in ask]
        want.append(np.dot(ww, dat[:, j]) / np.sum(ww))
    c.close(np.asarray(got), want, 'weighted', 'weighted with the interpolated efficiency', rtol=1e-9, atol=1e-12)
    c.raises(KeyError, lambda: weighted_per_order(dat, [99] * len(ask), E, eff), 'reject', 'order without efficiency')
    c.raises(ValueError, lambda: weighted_per_order(dat, list(ask) + [1], E, eff), 'reject', 'wrong number of orders')
    c.raises(ValueError, lambda: weighted_per_order(dat, ask, np.append(E, 1), eff), 'reject', 'wrong number of energies')
    c.count('averages')


@W(quick=150, thorough=8000)
def widths(c):
    from marxs.analysis.analysis import mean_width_2d, sigma_clipped_std
    rng = c.rng
    n = int(rng.choice([1, 2, 5, 50, 500]))
    t = Table({'det_x': rng.normal(size=n) * 10**rng.uniform(-3, 3) + rng.normal() * 1e2, 'det_y': rng.standard_t(2, n) * 10**rng.uniform(-3, 3)})
    before = frozen(t)
    c.close(sigma_clipped_std(t), clip(t['det_x']).std(), 'clipped', 'default column', rtol=1e-9, atol=1e-10)
    s, m = rng.uniform(1, 5), int(rng.integers(1, 6))
    c.close(sigma_clipped_std(t, colname='det_y', sigma=s, maxiters=m), clip(t['det_y'], s, m).std(), 'clipped', 'options passed on', rtol=1e-9, atol=1e-10)
    x, y = np.asarray(t['det_x']), np.asarray(t['det_y'])
    w = np.mean([np.hypot(a - x.mean(), b - y.mean()) for a, b in zip(x, y)])
    c.close(mean_width_2d(t), w, 'mean-width', 'mean distance from the centre', rtol=1e-9, atol=1e-10)
    unchanged(c, t, before, 'width')
    a, f = rng.uniform(0, 7), 10**rng.uniform(-1, 1)
    t2 = Table({'det_x': f * (x * np.cos(a) - y * np.sin(a)) + 3, 'det_y': f * (x * np.sin(a) + y * np.cos(a)) - 7})[rng.permutation(n)]
    c.close(mean_width_2d(t2), f * w, 'mean-width', 'turned, moved, scaled, reordered', rtol=1e-7, atol=1e-8)
    c.count('widths')
    c.count('reordered')


@W(quick=60, thorough=2500)
def focus(c):
    """for an objective that is a variance the best position is known"""
    from marxs.analysis import find_best_detector_position
    rng = c.rng
    n = int(rng.integers(10, 200))
    o = gen.rot(rng)
    f0 = rng.uniform(-50, 50)
    p = f0 * o[:, 0] + o[:, 1:] @ rng.normal(size=2) * 5
    d = -gen.unit(np.array([1, 0, 0]) + rng.normal(size=(n, 3)) * [0, .1, .1] * rng.choice([1, .01])) @ o.T * rng.choice([-1, 1])
    spot = p + rng.normal(size=(n, 3)) * 10**rng.uniform(-5, -1)
    pos = spot - d * rng.uniform(0, 200, n)[:, None] * rng.choice([-1, 1, 1])
    t = gen.table(rng, pos, d)
    before = frozen(t)
    k = rng.integers(2)
    kw = {} if np.array_equal(o, np.eye(3)) and rng.uniform() < .5 else {'orientation': o}

    def spread(q, power=2):
        s = q[['det_x', 'det_y'][k]]
        c.count('evaluated')
        return float(np.var(np.asarray(s)))
    col = ['det_x', 'det_y'][k]
    usestd = rng.uniform() < .5
    if usestd:
        args = {'objective_func_args': {'colname': col, 'sigma': 1e9}}
        if k == 0 and rng.uniform() < .3:
            args = {}
    else:
        args = {'objective_func': spread, 'objective_func_args': {}}
    lo, hi = f0 - 30, f0 + 40
    opt = find_best_detector_position(t, **args, **kw, bracket=(lo, hi)) if rng.uniform() < .7 else \
        find_best_detector_position(t, **args, **kw, method='bounded', bounds=(lo, hi))
    unchanged(c, t, before, 'focus')
    # position of each photon in a plane at x
    L, D = pos @ o, d @ o
    slope = D[:, 1 + k] / D[:, 0]
    icpt = L[:, 1 + k] - L[:, 0] * slope

    def at(x):
        return icpt + slope * x
    vs = np.var(slope)
    if vs < 1e-12:
        c.skip()
    if args:
        best = -np.cov(icpt, slope, bias=True)[0, 1] / vs
        floor = np.sqrt(max(np.var(at(best)), 1e-18))
        val = float(opt.fun)
        c.close(val, np.std(at(opt.x)) ** (1 if usestd else 2), 'objective', 'width at the position found', rtol=1e-4, atol=1e-10)
        # scale: how far from the minimum does the width rise by a relative 1e-3
        rise = floor * np.sqrt(2e-3 / vs) + 1e-3
        c.check(abs(opt.x - best) < rise + 1e-4 * 70, 'focus', 'best focus', got=opt.x, want=best, rise=rise)
    else:
        c.close(float(opt.fun), clip(at(opt.x)).std(), 'objective', 'clipped width at the position found', rtol=1e-3, atol=1e-9)
        grid = np.linspace(lo, hi, 300)
    c.count('focus')


def grating_array(c):
    from marxs.optics import FlatGrating, OrderSelector
    from marxs.simulator import Parallel
    rng = c.rng
    ny = int(rng.integers(1, 4))
    pos = [[100., 10.5 * i, 10.5 * j] for i in range(-ny, ny + 1) for j in range(-1, 2)]
    gap = rng.uniform() < .5
    z = [1, 5.25, 5.25] if not gap else [1, 5, 5]
    dg = 10**rng.uniform(-3.5, -2.5)
    return Parallel(elem_class=FlatGrating, elem_pos={'position': np.array(pos)},
                    elem_args={'d': dg, 'zoom': z, 'order_selector': OrderSelector([0]), 'groove_angle': np.pi / 2 * rng.choice([0, 1])}), ny, dg, gap


@W(quick=50, thorough=1500)
def per_order(c):
    from marxs.analysis.gratings import resolvingpower_per_order
    from marxs.design import RowlandTorus
    from marxs.math.geometry import Cylinder
    from marxs.optics import CircularDetector, FlatDetector, OrderSelector
    rng = c.rng
    gas, ny, dg, gap = grating_array(c)
    groove_y = gas.elements[0].pos4d is None
    n = int(rng.integers(100, 600))
    end = np.stack([np.full(n, 100.), rng.uniform(-1, 1, n) * 10.5 * ny, rng.uniform(-1, 1, n) * 12], -1)
    d = gen.unit(np.array([0, 0, 0.]) + rng.normal(size=(n, 3)) * [0, 1, 1] * 10**rng.uniform(-3, -1) - end)
    t = gen.table(rng, end - d * rng.uniform(1, 50, n)[:, None], d, energy=(.5, .5000001), prob=None)
    orders = rng.permutation(np.arange(-3, 4))[:rng.integers(1, 5)]
    if rng.uniform() < .3:
        t['probability'][rng.uniform(size=n) < .1] = 0
    mode = rng.integers(3)
    before = frozen(t)
    col = ['det_x', 'det_y'][rng.integers(2)]
    det = None
    if mode == 1:
        det = FlatDetector(position=[rng.normal() * .5, 0, 0], zoom=1e4, pixsize=1.)
    elif mode == 2:
        det = RowlandTorus(50., 50.)
        if rng.uniform() < .5:
            det = RowlandTorus(R=60., r=50., position=[-10., 0, 0])
    res, fwhm, info = resolvingpower_per_order(gas, t, orders, detector=det, **({'colname': col} if mode == 1 else {}))
    unchanged(c, t, before, 'resolving power per order')
    c.check('method' in info and len(res) == len(fwhm) == len(orders), 'per-order', 'one number for each order')
    if mode == 2:
        D = CircularDetector(geometry=Cylinder.from_rowland(det, width=1e5, rotation=np.pi, kwargs={'phi_lim': [-np.pi / 2, np.pi / 2]}))
        col = 'detpix_x'
    for i, o in enumerate(orders):
        sel = OrderSelector([int(o)])
        for e in gas.elements:
            e.order_selector = sel
        q = gas(t.copy())
        q = q[(q['order'] == o) & (q['probability'] > 0)]
        if mode == 0:
            x = info['fit_results'][i].x
            D, col, zero = FlatDetector(position=[float(x), 0, 0], zoom=1e5), 'det_x', 0.
        elif mode == 1:
            D = det
        if mode:
            p0 = D(t.copy())
            if mode == 2:
                p0 = p0[p0['probability'] > 0]
            zero = clip(np.ma.compressed(np.ma.asanyarray(p0[col]))).mean()
        x = clip(np.asarray(D(q)[col]))
        c.close(fwhm[i], 2.3548 * x.std(), 'per-order', 'FWHM of the line', rtol=1e-3, atol=1e-9)
        if x.std() > 1e-9:
            c.close(res[i], abs(x.mean() - zero) / (2.3548 * x.std()), 'per-order', 'distance to order 0 over FWHM', rtol=1e-3, atol=1e-7)
    c.count('per_order')
    c.count('orders', len(orders))


@W(quick=100, thorough=5000)
def subaperture(c):
    from marxs.analysis.gratings import identify_photon_in_subaperture
    rng = c.rng
    a0 = [np.pi / 2, 0., np.pi, rng.uniform(0, np.pi), rng.uniform(-np.pi, 2 * np.pi)][rng.integers(5)]
    w = rng.uniform(.01, 1.5)
    ang = rng.uniform(-10, 10, 200)
    args = (ang, w) if a0 == np.pi / 2 and rng.uniform() < .5 else (ang, w, a0)
    got = identify_photon_in_subaperture(*args)

    def dist(x):
        return np.abs(np.angle(np.exp(1j * x)))
    d = np.minimum(dist(ang - a0), dist(ang + a0))
    clear = np.abs(d - w) > 1e-4
    c.check(np.array_equal(np.asarray(got)[clear], (d < w)[clear]), 'sub-aperture', 'distance to the centre of either sector',
            bad=ang[clear][np.asarray(got)[clear] != (d < w)[clear]][:4], ang_0=a0, width=w)
    c.count('angles', int(clear.sum()))


@W(quick=100, thorough=5000)
def projection(c):
    from marxs.analysis.coords import ProjectOntoPlane, facet_table
    from marxs.optics.base import OpticalElement
    from marxs.simulator import Parallel
    rng = c.rng
    R, t = gen.rot(rng), rng.normal(size=3) * 100
    kw = {} if rng.uniform() < .2 else dict(position=t, orientation=R)
    if kw and rng.uniform() < .5:
        kw['zoom'] = [1., 7., .2] if rng.uniform() < .5 else 3.
    if not kw:
        R, t = np.eye(3), np.zeros(3)
    plane = ProjectOntoPlane(**kw)
    n = int(rng.integers(1, 60))
    x = rng.normal(size=(n, 3)) * 100
    p = gen.table(rng, x, rng.normal(size=(n, 3)))
    if rng.uniform() < .4:
        plane.loc_coos_name = ['pa', 'pb']
    a, b = plane.loc_coos_name
    keep = frozen(p)
    out = plane(p)
    loc = (x - t) @ R
    c.close(out[a], loc[:, 1], 'projection', 'coordinate along y of the plane', atol=1e-9)
    c.close(out[b], loc[:, 2], 'projection', 'coordinate along z of the plane', atol=1e-9)
    q = out.copy()
    q.remove_columns([a, b])
    unchanged(c, q, keep, 'projection, all other columns')
    c.count('projected', n)
    # table of facets
    m = int(rng.integers(1, 20))
    fp = rng.normal(size=(m, 3)) * 100
    par = Parallel(elem_class=OpticalElement, elem_pos={'position': fp} if rng.uniform() < .5 else [gen.aff(f, gen.rot(rng)) for f in fp])
    ids = list(range(m))
    if rng.uniform() < .6:
        # elements with their own numbers
        ids = [int(i) for i in rng.permutation(30000)[:m]]
        for e, i in zip(par.elements, ids):
            e.id_num = i
    poses = [e.pos4d.copy() for e in par.elements]
    names = list(plane.loc_coos_name)
    use = rng.uniform() < .7
    tab = facet_table(par, plane) if use else facet_table(par)
    if not use:
        R, t = np.eye(3), np.zeros(3)
    loc = (fp - t) @ R
    c.check(plane.loc_coos_name == names, 'input', 'plane not changed')
    c.check(all(np.array_equal(e.pos4d, q) for e, q in zip(par.elements, poses)), 'input', 'facets not moved')
    c.check(list(tab['facet']) == ids, 'facets', 'one row for each facet')
    for i, k in enumerate('xyz'):
        c.close(tab['facet_' + k], fp[:, i], 'facets', 'position', atol=1e-9)
    for k, v in (('projx', loc[:, 1]), ('projy', loc[:, 2]), ('rad', np.hypot(loc[:, 1], loc[:, 2]))):
        c.close(tab['facet_' + k], v, 'facets', k, atol=1e-9)
    c.close(np.exp(1j * np.asarray(tab['facet_ang'])), np.exp(1j * np.arctan2(loc[:, 2], loc[:, 1])), 'facets', 'angle', atol=1e-9)
    c.check(ProjectOntoPlane().loc_coos_name == ['proj_x', 'proj_y'], 'input', 'default names not changed')
    c.count('facets', m)


@W(quick=80, thorough=3000)
def shell_radius(c):
    from marxs.design.rowland import find_radius_of_photon_shell
    rng = c.rng
    n = int(rng.integers(20, 300))
    x0 = rng.uniform(10, 1000)
    start = np.stack([x0 + rng.uniform(1, 100, n), *(rng.normal(size=(2, n)) * 100)], -1)
    d = gen.unit(rng.normal(size=(n, 3)) * [0, 20, 20] - start)
    t = gen.table(rng, start, d)
    t['mirror_shell'] = rng.integers(0, 4, n)
    t['probability'][rng.uniform(size=n) < .2] = 0
    before = frozen(t)
    s = int(rng.integers(4))
    ind = (t['mirror_shell'] == s) & (t['probability'] > 0)
    if not ind.any():
        c.skip()
    hit = start + d * ((x0 - start[:, 0]) / d[:, 0])[:, None]
    rad = np.hypot(hit[:, 1], hit[:, 2])[ind]
    pct = [[1, 99], [50], [0, 100], list(np.sort(rng.uniform(0, 100, 3)))][rng.integers(4)]
    got = find_radius_of_photon_shell(t, s, x0, percentile=pct)
    if pct == [1, 99]:
        c.close(find_radius_of_photon_shell(t, s, x0), got, 'shell-radius', 'default percentiles')
    c.close(got, np.percentile(rad, pct), 'shell-radius', 'percentiles of the radius at x', rtol=1e-7, atol=1e-7)
    unchanged(c, t, before, 'radius of a shell')
    c.count('radii')


@W(quick=20, thorough=300)
def helper(c):
    """a complete run at one energy"""
    from marxs.analysis.run_helpers import default_coord, monoenergetic_astrosimulation
    from marxs.optics import FlatDetector, RectangleAperture
    from marxs.simulator import Sequence
    rng = c.rng
    E = rng.uniform(.2, 8) * u.keV
    n = int(rng.integers(5, 200))
    M = np.eye(4) if rng.uniform() < .5 else gen.aff([0, 0, 0], gen.rot(rng))
    seen = []
    inst = Sequence(elements=[RectangleAperture(pos4d=M @ gen.aff([100, 0, 0], None, [1, 10, 10])), FlatDetector(pos4d=M @ gen.aff([0, 0, 0], None, [1, 50, 50]), pixsize=.5),
                              lambda p: (seen.append(len(p)), p)[1]])
    kw = {} if np.array_equal(M, np.eye(4)) else {'reference_transform': M}
    out = monoenergetic_astrosimulation(inst, E if rng.uniform() < .5 else E.to(u.eV), n_photons=n, **kw)
    c.check(seen == [n] and len(out) == n, 'run', 'requested number of photons goes through the instrument', n=n, seen=seen)
    c.close(out['energy'].to(u.keV).value if out['energy'].unit else np.asarray(out['energy']), np.full(n, E.value), 'run', 'requested energy', rtol=1e-9)
    c.close(out['ra'], np.full(n, default_coord.ra.deg), 'run', 'on axis', atol=1e-9)
    c.close(out['dec'], np.full(n, default_coord.dec.deg), 'run', 'on axis', atol=1e-9)
    c.close(out['dir'][:, :3], np.tile(-M[:3, 0], (n, 1)), 'run', 'along the optical axis', atol=1e-7)
    c.count('runs')
