"""C34: complete mission models trace every photon consistently."""
import copy

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord
from astropy.table import Table
from scipy import stats

from vmon import gen as G
from vmon.core import Registry
from vmon.props.c29 import axes, diffract, silicon

W = Registry('C34', rule='position, direction and probability of all photons were recorded behind every element of a mission model and compared to the path of the photon, the '
             'pose of the element with the recorded identifier and the product of tabulated efficiencies',
             require={'photons': 15000, 'steps': 120, 'diffracted': 2000, 'detected': 300, 'rods': 300, 'gratings in regular grids': 300, 'budgets': 12, 'inputs': 8},
             assumptions=['apertures, single elements and sources behave as checked in C01-C18', 'PerfectLens works to second order in the off-axis angle'])
HC = 1.2398419843320028e-6   # keV * mm


class Recorder:
    """A postprocess step that notes the state of all photons after every element"""

    def __init__(self):
        self.log = []

    def __call__(self, p):
        g = lambda k: np.array(p[k], float) if k in p.colnames else None
        self.log.append({k: g(k) for k in ('pos', 'dir', 'probability', 'energy', 'time', 'polarization')} | dict(n=len(p), cols=list(p.colnames)))
        return p


def ok(r):
    """photons with a defined position"""
    return np.isfinite(r['pos']).all(axis=1) & np.isfinite(r['dir']).all(axis=1)


def path(c, log, names, scale=1e4):
    """each photon moves along the direction it had"""
    for i, (a, b) in enumerate(zip(log[:-1], log[1:])):
        v = ok(a) & ok(b)
        dp = (b['pos'] - a['pos'])[v, :3]
        d = G.unit(a['dir'][v, :3])
        off = np.linalg.norm(np.cross(dp, d), axis=1)
        c.check(off < 1e-6 * (1 + np.linalg.norm(dp, axis=1) / 1e3), 'path', f'photons move along their direction of flight up to {names[i + 1]}', worst=off.max() if len(off) else 0)
        c.close(b['pos'][:, 3][ok(b)], 1., 'homogeneous', 'positions are points', rtol=0, atol=1e-9)
        c.close(b['dir'][:, 3][ok(b)], 0., 'homogeneous', 'directions are vectors', rtol=0, atol=1e-9)
        c.close(np.linalg.norm(b['dir'][ok(b), :3], axis=1), 1., 'norm', 'directions are normalised', rtol=0, atol=1e-8)
        dot = (b['dir'] * b['polarization'])[ok(b), :3].sum(1)
        fin = np.isfinite(dot)
        c.close(dot[fin], 0., 'pol', f'polarization is perpendicular to the direction after {names[i + 1]}', rtol=0, atol=1e-7)
        c.check(b['n'] == a['n'], 'lost', 'no photon is lost')
        c.same(b['energy'], a['energy'], 'energy', 'energies are not changed')
        c.same(b['time'], a['time'], 'time', 'times are not changed')
        c.check((b['probability'] <= a['probability'] * (1 + 1e-12)) & (b['probability'] >= 0), 'probability', f'probabilities do not grow at {names[i + 1]}')
        c.count('steps', 1)


def unchanged(c, a, b, keys, what):
    for k in keys:
        c.same(a[k], b[k], 'kept', f'{what} does not change {k}')


def near(t, pos, d, p4, margin):
    """Does a ray cross the active area of a flat element? -1: close to the edge"""
    cen, ax, z = G.frame(p4)
    s = ((cen - pos) @ ax[:, 0]) / (d @ ax[:, 0])
    loc = (pos + s[:, None] * d - cen) @ ax[:, 1:]
    m = (z[1:] - np.abs(loc)).min(axis=1)
    return np.where(m > margin, 1, np.where(m < -margin, 0, -1)), s, loc


def members(c, par, col, out, before, after, what, coos=None, need_hit=True):
    """recorded identifiers are those of the element in the path"""
    ids = np.asarray(out[col]).astype(int) if col in out.colnames else np.full(len(out), -1)
    by = {int(e.id_num): e for e in par.elements}
    c.check(len(by) == len(par.elements), 'id-unique', f'each {what} has its own number')
    got = sorted(set(ids.tolist()) - {-1})
    c.check(all(i in by for i in got), 'id-known', f'{col} is the number of a {what}', got=[i for i in got if i not in by][:5])
    for i in got:
        if i not in by:
            continue
        h = (ids == i) & ok(before)
        cen, ax, z = G.frame(np.asarray(by[i].pos4d, float))
        loc = (after['pos'][h, :3] - cen) @ ax
        c.close(loc[:, 0], 0., 'on-surface', f'photons are on the surface of the {what} with the recorded number', rtol=0, atol=1e-5)
        c.check(np.abs(loc[:, 1:]) <= z[1:] * (1 + 1e-7), 'in-element', f'photons are in the active area of the {what} with the recorded number', worst=np.abs(loc[:, 1:] / z[1:]).max() if len(loc) else 0)
        if coos:
            c.close(np.column_stack([np.asarray(out[k], float)[h] for k in coos]), loc[:, 1:], 'coordinates', f'local coordinates are those in the {what}', rtol=0, atol=1e-5)
    if need_hit:
        # photons that did not meet any
        k = np.nonzero((ids < 0) & ok(before))[0]
        k = k[c.rng.permutation(len(k))[:200]]
        if len(k):
            pos, d = before['pos'][k, :3], before['dir'][k, :3]
            crossed = np.zeros(len(k), int)
            for e in par.elements:
                hit, s, _ = near(None, pos, d, np.asarray(e.pos4d, float), 1e-3)
                crossed += (hit == 1) & (s > 0)
            c.check(crossed == 0, 'missed', f'photons without number do not cross a {what}', n=int((crossed > 0).sum()))
    return ids, by


def run(c, inst, t):
    rec = Recorder()
    inst.postprocess_steps.append(rec)
    cols = list(t.colnames)
    orig = t.copy()
    out = inst(t)
    inst.postprocess_steps.remove(rec)
    c.check(len(out) == len(orig), 'lost', 'no photon is lost')
    for k in cols:
        if k not in ('pos', 'dir', 'probability', 'polarization'):
            c.same(np.asarray(out[k]), np.asarray(orig[k]), 'kept', f'{k} is not changed')
    last = rec.log[-1]
    for k in ('pos', 'dir', 'probability'):
        c.same(last[k], np.asarray(out[k], float), 'last', f'{k} is the one after the last element')
    return out, rec.log


def source(rng, n, energy, offaxis, area=None):
    from marxs.source import FixedPointing, PointSource
    ra, dec = float(rng.uniform(0, 360)), float(rng.uniform(-70, 70))
    pnt = SkyCoord(ra, dec, unit='deg')
    src = pnt.directional_offset_by(rng.uniform(0, 360) * u.deg, offaxis * u.deg)
    flux = 1e-4 / u.s / u.mm**2
    kw = dict(coords=src, flux=flux, energy=lambda exposure: rng.uniform(*energy, size=len(exposure)) * u.keV)
    if area is not None:
        kw['geomarea'] = area
    s = PointSource(**kw)
    a = s.geomarea.to_value(u.mm**2) if s.geomarea is not None else 1.
    t = s.generate_photons(n / (1e-4 * a) * u.s)
    return FixedPointing(coords=pnt, roll=rng.uniform(0, 360) * u.deg)(t)


# ---------------------------------------------------------------- Lynx

def lynx():
    import marxs.missions.lynx.lynx as m
    return m


def state(v):
    if isinstance(v, dict):
        return {k: state(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [state(x) for x in v]
    if isinstance(v, (np.ndarray, float, int, str)) or hasattr(v, 'unit'):
        return repr(v)
    return id(v)


def shells(c, out, log, geom, col='shell'):
    r = np.hypot(log[0]['pos'][:, 1], log[0]['pos'][:, 2])
    s = np.asarray(out[col]).astype(int)
    for i, a, b in geom:
        h = s == i
        c.check((r[h] >= a - 1e-6) & (r[h] <= b + 1e-6), 'shell', 'the recorded shell is the one the photon fell on', shell=int(i), got=r[h][(r[h] < a) | (r[h] > b)][:3], want=[a, b])
    c.check(np.isin(s, [g[0] for g in geom]), 'shell', 'all photons have a shell', got=np.unique(s))
    return s


def focus(c, before, after, F, f, sigma, what):
    """photons are focused, but for a little scatter"""
    d = G.unit(before['dir'][:, :3])
    # a perfect lens deflects photons as if they came through its center
    want = np.array([F, 0, 0]) + f * d
    p, q = after['pos'][:, :3], G.unit(after['dir'][:, :3])
    miss = np.linalg.norm(np.cross(want - p, q), axis=1)
    off = np.arccos(np.clip(-d[:, 0], -1, 1)).max()
    r = np.linalg.norm(p[:, 1:], axis=1)
    c.check(miss < 9 * sigma * f * (1 + (r / f)**2) + f * off**2 * .05 + 1e-6, 'focus', f'{what} focuses photons at the image of the source, with the specified scatter', worst=miss.max())
    if off < 1e-6:
        c.check(np.median(miss) > .1 * sigma * f, 'scatter', 'photons are scattered', got=np.median(miss), want=sigma * f)


def normal(c, x, what, **kw):
    """The values are drawn from the standard normal distribution"""
    c.count('statistical', 2)
    q = (x**2).sum()
    c.pvalue(min(1, 2 * min(stats.chi2.sf(q, len(x)), stats.chi2.cdf(q, len(x)))), 'scatter', f'{what} has the configured width', got=x.std(), **kw)
    c.pvalue(stats.kstest(x, 'norm').pvalue, 'scatter', f'{what} is normally distributed', got=x.std(), **kw)


def scatter(c, ideal, got, p, axis, ins, perp, what):
    """Deviation from the ideal direction in the plane of the mirror and perpendicular to it"""
    ideal, got, p = ideal[:, :3], got[:, :3], p[:, :3]
    rad = p - axis
    rad = G.unit(rad - (rad * ideal).sum(1)[:, None] * ideal)
    for e, w, lab in ((rad, ins, 'in plane'), (np.cross(ideal, rad), perp, 'out of plane')):
        normal(c, ((got - ideal) * e).sum(1) / w.to_value(u.rad), f'scatter {lab} of {what}')


def spaced(c, gas, conf):
    """gratings do not overlap: they are at least one frame apart, seen along the optical axis"""
    P = np.array([np.asarray(e.pos4d)[1:3, 3] for e in gas.elements])
    pitch = conf['grating_size'] + 2 * conf['grating_frame']
    D = np.abs(P[:, None] - P[None])
    near_ = (D < .96 * pitch).all(axis=2)   # the structure is tilted
    np.fill_diagonal(near_, False)
    c.check(not near_.any(), 'spacing', 'gratings are separated by their frames', n=int(near_.sum()))
    r = np.array([conf['metashellgeometry'][k] for k in ('r_inner', 'r_outer')], float)
    d = np.hypot(*P.T)
    half = np.linalg.norm(pitch) / 2
    c.check((d.max() < r.max() + 3 * half) and (d.max() > .9 * r.max() - half), 'spacing', 'gratings are where the light of the shells is', got=[d.min(), d.max()])


def camera(c, det, y):
    """CCDs cover the range in y without holes"""
    e = [G.frame(np.asarray(x.pos4d, float)) for x in det.elements]
    cen = np.array([x[0][1] for x in e])
    half = np.array([abs(x[1][1, 1] * x[2][1]) for x in e])
    c.note(ccd=[cen.min(), cen.max()])
    c.check(cen.min() < y[0] + 2 * half.max() + 5 and cen.max() > y[1] - 2 * half.max() - 5 and cen.min() > y[0] - 2 * half.max() - 5 and cen.max() < y[1] + 2 * half.max() + 5, 'camera',
            'the CCDs cover the configured range', got=[cen.min(), cen.max()], want=list(y))


@W(quick=12, thorough=160, cpu=300)
def lynx_path(c):
    """Lynx from the source to the focal plane"""
    m = lynx()
    rng = c.rng
    conf = copy.deepcopy(m.conf)
    conf['grating_size'] = np.array([[80., 160.], [100., 100.], [60., 120.], [160., 80.]][int(rng.integers(4))])
    conf['grating_frame'] = float(rng.choice([2., 2., 10.]))
    g = conf['gas_kwargs']['elem_args']
    if rng.uniform() < .5:
        conf['blazeang'] = np.deg2rad(rng.uniform(1.2, 2.))
        conf['alphafac'], conf['betafac'] = float(rng.choice([2.2, 1.9])), float(rng.choice([4.4, 4.]))
        m.add_rowland_to_conf(conf)
        from marxs.design.rowland import design_tilted_torus
        want = design_tilted_torus(conf['design_tilted_torus'], conf['alphafac'] * conf['blazeang'], conf['betafac'] * conf['blazeang'])
        c.close([conf['rowland'].R, conf['rowland'].r], want[:2], 'torus', 'the torus is designed for the angles in the configuration', rtol=1e-9)
        c.close(conf['rowland'].pos4d, want[2], 'torus', 'the torus is designed for the angles in the configuration', rtol=1e-9, atol=1e-9)
        c.close([conf[k] for k in ('alpha', 'beta')], np.array([conf['alphafac'], conf['betafac']]) * conf['blazeang'], 'torus', 'angles are multiples of the blaze angle', rtol=1e-12)
    if rng.uniform() < .5:
        conf['inplanescatter'] = (10**rng.uniform(-6.5, -4.5) * u.rad).to(u.arcsec)
        conf['perpplanescatter'] = 10**rng.uniform(-6.5, -4.5) * u.rad
    if rng.uniform() < .4:
        g['order_selector'] = m.ralfgrating.order_selector_Pt
    if rng.uniform() < .4:
        g['d'] = float(rng.uniform(1.8e-4, 2.4e-4))
    if rng.uniform() < .4:
        g['qualityfactor'] = {'d': 200 * u.um, 'sigma': rng.uniform(.5, 3.) * u.um}
    if rng.uniform() < .4:
        p, b = rng.uniform(.6, 1.5), rng.uniform(.02, .1)
        g['l2_dims'] = {'bardepth': rng.uniform(.1, 1.) * u.mm, 'period': p * u.mm, 'barwidth': b * u.mm}
    if rng.uniform() < .3:
        # only some shells
        n = len(conf['metashellgeometry'])
        conf['metashellgeometry'] = conf['metashellgeometry'][np.sort(rng.permutation(n)[:int(rng.integers(2, n))])]
    cls = [m.PerfectLynx, m.Lynx][int(rng.integers(2))]
    was = state(conf)
    off = float(rng.choice([0., rng.uniform(0, .05)]))
    mod = {k: state(v) for k, v in m.conf.items()}
    c.note(shells=len(conf['metashellgeometry']), size=conf['grating_size'], cls=cls.__name__, off=off, d=g['d'], blaze=conf['blazeang'], scatter=[conf['inplanescatter'], conf['perpplanescatter']])
    inst = cls(conf=conf)
    c.check(state(conf) == was, 'conf', 'building an instrument does not change its configuration', got=[k for k in was if state(conf[k]) != was[k]])
    c.check({k: state(v) for k, v in m.conf.items()} == mod, 'conf-module', 'building an instrument does not change the default configuration')
    t = source(rng, 3000, (.3, float(rng.choice([1.2, 2.9]))), off, area=inst.elements[0].area)
    out, log = run(c, inst, t)
    names = [type(e).__name__ if not callable(getattr(e, '__name__', None)) else e.__name__ for e in inst.elements]
    path(c, log, names)
    c.check(len(inst.KeepPos.data) == len(log), 'keeppos', 'positions are kept for every element')
    for a, b in zip(inst.KeepPos.data, log):
        c.same(np.asarray(a, float), b['pos'], 'keeppos', 'positions kept are those of the photons')
    E = log[0]['energy']
    # mirror
    geom = conf['metashellgeometry']
    sh = shells(c, out, log, [(int(r['Metashell Serial Number']), float(r['r_inner']), float(r['r_outer'])) for r in geom])
    c.close(log[0]['pos'][:, 0], conf['focallength'] + 200, 'aperture', 'photons start at the aperture', rtol=0, atol=1e-9)
    c.close(log[1]['pos'][:, 0], conf['focallength'], 'mirror', 'the mirror is one focal length in front of the focal plane', rtol=0, atol=1e-9)
    focus(c, log[0], log[1], conf['focallength'], conf['focallength'], max(conf['inplanescatter'].to_value(u.rad), conf['perpplanescatter'].to_value(u.rad)), 'the mirror')
    if off == 0:
        ideal = G.unit(-log[1]['pos'])
        scatter(c, ideal, log[1]['dir'], log[1]['pos'], np.array([conf['focallength'], 0., 0]), conf['inplanescatter'], conf['perpplanescatter'], 'the mirror')
    eff = conf['metashelleff']
    want = np.empty(len(out))
    for row in geom:
        i = int(row['Metashell Serial Number'])
        a = np.pi * (row['r_outer']**2 - row['r_inner']**2)
        h = sh == i
        want[h] = np.clip(np.interp(E[h], np.asarray(eff['energy'], float), np.asarray(eff[str(i)], float) * 100 / a), 0, 1)
    c.close(log[1]['probability'], log[0]['probability'] * want, 'mirror-efficiency', 'the efficiency of the mirror is effective over geometric area of the shell', rtol=1e-9)
    # gratings
    gas = inst.elements_of_class(m.LynxGAS)[0]
    if cls is m.PerfectLynx:
        spaced(c, gas, conf)
    ids, by = members(c, gas, 'facet', out, log[1], log[2], 'grating')
    hit = ids >= 0
    for e in gas.elements[::10]:
        cen, ax, z = G.frame(np.asarray(e.pos4d, float))
        c.close(z[1:], conf['grating_size'] / 2, 'grating-size', 'gratings have the size in the configuration', rtol=1e-6)
    diffracted(c, out, log[1], log[2], ids, by, g)
    c.close(log[3]['probability'], np.where(hit, log[2]['probability'], 0), 'frame', 'photons that do not meet a grating are absorbed in the frame', rtol=1e-12)
    unchanged(c, log[2], log[3], ('pos', 'dir', 'polarization'), 'the frame')
    # filter
    fd = m.filterdata
    f = np.interp(E, np.asarray(fd['energy'], float) / 1000, np.asarray(fd['Total_throughput'], float))
    c.close(log[4]['probability'], log[3]['probability'] * f, 'filter', 'filter and detector reduce the probability as tabulated', rtol=1e-9)
    unchanged(c, log[3], log[4], ('pos', 'dir', 'polarization'), 'the filter')
    for a, b in zip(log[4:-1], log[5:]):
        unchanged(c, a, b, ('dir', 'polarization', 'probability'), 'the detectors')
    # detectors
    det = inst.elements_of_class(m.RowlandDetArray)[0]
    if cls is m.PerfectLynx:
        camera(c, det, conf['det_kwargs']['y_range'])
    ccd, bycd = members(c, det, 'CCD_ID', out, log[4], log[5], 'CCD', coos=('det_x', 'det_y'))
    h = ccd >= 0
    pixels(c, out, h, conf['det_kwargs']['elem_args']['zoom'][1:], conf['det_kwargs']['elem_args']['pixsize'])
    # projection on the focal plane
    v = ok(log[5])
    want = log[5]['pos'][:, 1:3]
    c.close(np.column_stack([np.asarray(out[k], float) for k in ('proj_x', 'proj_y')])[v], want[v], 'projection', 'projected coordinates are y and z', rtol=0, atol=1e-6)
    # Rowland circle
    ang = np.asarray(out['detcirc_phi'], float)
    tor = m.conf['rowland']     # one detector for all configurations
    v = ok(log[8]) & np.isfinite(ang)
    P = log[8]['pos'] @ np.linalg.inv(tor.pos4d).T
    dev = np.hypot(P[v, 0] - tor.R, P[v, 1]) - tor.r
    c.close(dev, 0., 'rowland-circle', 'photons are on the Rowland circle', rtol=0, atol=1e-5)
    mid = np.arctan2(-P[v, 1], -(P[v, 0] - tor.R))
    c.close(np.angle(np.exp(1j * (ang[v] - mid))), 0, 'rowland-phi', 'angles are counted on the Rowland circle', rtol=0, atol=1e-6)
    c.close(np.asarray(out['detcirc_y'], float)[v], P[v, 2], 'rowland-y', 'the second coordinate is perpendicular to the circle', rtol=0, atol=1e-5)
    # last detectors are in the focal plane
    for i, (a, b) in ((11, ('detinf_x', 'detinf_y')), (13, ('microcal_x', 'microcal_y'))):
        if a not in out.colnames:
            continue
        x = np.column_stack([np.asarray(out[k], float) for k in (a, b)])
        v = np.isfinite(x).all(axis=1) & ok(log[i])
        c.close(log[i]['pos'][v, 0], 0, 'flat', f'{a} is measured in the focal plane', rtol=0, atol=1e-6)
        c.close(x[v], log[i]['pos'][v, 1:3], 'flat', f'{a} is the position in the focal plane', rtol=0, atol=1e-6)
    inside = (np.abs(log[11]['pos'][:, 1:3]) < 49.9).all(axis=1) & ok(log[11])
    if inside.any():
        c.check(np.isfinite(np.asarray(out['microcal_x'], float)[inside]), 'microcal', 'photons close to the optical axis fall on the microcalorimeter')
    c.check('LYNX' in np.atleast_1d(out.meta.get('SATELLIT')), 'tag', 'photons are tagged with the name of the satellite', got=out.meta.get('SATELLIT'))
    c.count('photons', len(out))
    c.count('detected', int(h.sum()))
    for i in set(ccd.tolist()) - {-1}:
        c.seen('ccd', i)


def diffracted(c, out, before, after, ids, by, g, period=None):
    """``g`` holds the properties of the grating, ``period`` those of individual ones"""
    h = np.nonzero(ids >= 0)[0]
    missed = ids < 0
    c.same(after['dir'][missed], before['dir'][missed], 'kept', 'photons that meet no grating keep their direction')
    c.same(after['probability'][missed], before['probability'][missed], 'kept', 'photons that meet no grating keep their probability')
    if len(h) == 0:
        return
    P4 = {i: np.asarray(by[i].pos4d, float) for i in set(ids[h].tolist())}
    E = before['energy']
    order, o1 = np.asarray(out['order'], float), np.asarray(out['order_L1'], float)
    d0, d1 = before['dir'][:, :3], after['dir'][:, :3]
    per, dep = g['l2_dims']['period'].to_value(u.mm), g['l2_dims']['bardepth'].to_value(u.mm)
    free = per - g['l2_dims']['barwidth'].to_value(u.mm)
    p1 = g['l1_dims']['period'].to_value(u.mm)
    depth = g['l1_dims']['bardepth'].to_value(u.mm)
    tot, opn, blz = (np.empty(len(ids)) for _ in range(3))
    worst = 0.
    for i, p4 in P4.items():
        k = np.nonzero(ids == i)[0]
        d = period[i] if period else g['d']
        fin = diffract(diffract(d0[k], order[k], E[k], d, p4, 0.), o1[k], E[k], p1, p4, np.pi / 2)
        v = np.isfinite(fin).all(axis=1)
        ang = np.arctan2(np.linalg.norm(np.cross(fin, d1[k]), axis=1), (fin * d1[k]).sum(1))
        sig = 1.22 * .4 * np.arcsin(HC / E[k] / free)
        worst = max(worst, np.max((ang / sig)[v], initial=0))
        cen, ax, z = G.frame(p4)
        blz[k] = np.arctan2(np.abs(d0[k] @ ax[:, 1]), np.abs(d0[k] @ ax[:, 0]))
        s = np.linalg.norm(np.cross(fin, ax[:, 0]), axis=1)
        opn[k] = np.clip((free / per)**2 - dep * free * s / (per**2 / 2 * np.sqrt(3)), 0, 1)
    c.check(worst < 8, 'dispersion', 'photons follow the grating equation of the grating with the recorded number and order', worst=worst)
    c.close(np.asarray(out['blaze'], float)[h], blz[h], 'blaze', 'the blaze angle is the one at the grating', rtol=0, atol=1e-4)
    tot[h] = g['order_selector'].probabilities(E[h], None, blz[h])[1].sum(axis=0)
    q = np.exp(-(2 * np.pi * (g['qualityfactor']['sigma'] / g['qualityfactor']['d']).to_value(u.one))**2)**(order[h]**2)
    want = np.clip(tot[h], 0, 1) * q * opn[h]
    with np.errstate(divide='ignore', invalid='ignore'):
        ratio = after['probability'][h] / before['probability'][h] / want
    v = np.isfinite(ratio) & (want > 1e-9)
    lo, hi = silicon(E[h], depth)
    bar = (o1[h] == 0) & (ratio > lo * .995) & (ratio < hi * 1.005)
    good = (np.abs(ratio - 1) < 5e-3) | bar
    c.check(good | ~v, 'grating-efficiency', 'the efficiency of a grating is the product of membrane, quality and support bars', n=int((~good & v).sum()), got=ratio[~good & v][:4])
    c.count('diffracted', len(h))
    for m_ in np.unique(order[h]):
        c.seen('order', int(m_))


def pixels(c, out, h, size, pix, names=(('detpix_x', 'det_x'), ('detpix_y', 'det_y'))):
    for (k, x), s in zip(names, size):
        if h.any():
            c.close(np.asarray(out[k], float)[h], np.asarray(out[x], float)[h] / pix + s / pix - .5, 'pixel', 'pixel coordinates count pixels from the corner of the CCD', rtol=0, atol=1e-5)


@W(quick=6, thorough=40, cpu=300)
def lynx_budget(c):
    """elements are misaligned as in the alignment budget, all relative to the perfect instrument"""
    m = lynx()
    rng = c.rng
    names = ('PerfectLynx', 'Lynx')
    budget = [list(r) for r in m.align_requirement_in]
    reformat = m.reformat_errorbudget
    if rng.uniform() < .4:
        arcus()
        import marxs.missions.AXIS.AXIS as m
        names = ('PerfectAXIS', 'AXIS')
        for r in budget:
            if r[0].__name__ == 'RowlandDetArray':
                r[0] = m.RowlandDetArray
    conf = copy.deepcopy(m.conf)
    conf['grating_size'] = np.array([80., 160.])
    c.note(model=names[1])
    for r in budget:
        r[2] = (np.array(r[2], float) * rng.uniform(.2, 3, 6)).tolist()
    fac = float(rng.choice([.8, 1., .3]))
    given = copy.deepcopy([r[2] for r in budget])
    reformat(budget, globalfac=fac)
    if m is lynx():
        neg = [[None, str(rng.choice(['global', 'individual'])), rng.normal(size=6).tolist(), None, ''] for _ in range(6)]
        f0 = float(rng.choice([0, .5]))
        reformat(neg, globalfac=f0)
        for r in neg:
            c.close(r[3], np.array(r[2]) * (f0 if r[1] == 'global' else 1), 'budget', 'global tolerances are scaled, with their sign', rtol=1e-12, atol=1e-300)
    for r, want in zip(budget, given):
        c.close(r[2], want, 'budget', 'requirements are kept', rtol=0)
        c.close(r[3], np.array(want) * (fac if r[1] == 'global' else 1), 'budget', 'global tolerances are scaled', rtol=1e-12)
    conf['alignmentbudget'] = budget
    a, b = getattr(m, names[0])(conf=conf), getattr(m, names[1])(conf=conf)
    dets = [x.elements_of_class(m.RowlandDetArray)[0] for x in (a, b)]
    M = [np.asarray(q.pos4d) @ np.linalg.inv(np.asarray(p.pos4d)) for p, q in zip(dets[0].elements, dets[1].elements)]
    c.close(M, np.broadcast_to(M[0], (len(M), 4, 4)), 'rigid', 'the detectors move as one rigid body', rtol=0, atol=1e-6)
    mv = budget[2][3]
    # the array pivots about its own center
    P = np.asarray(dets[0].pos4d)
    U = np.linalg.inv(P) @ M[0] @ P
    c.close(np.sort(np.abs(U[:3, 3])), np.sort(np.abs(mv[:3])), 'moved', 'detectors are moved by the tolerance', rtol=1e-3, atol=1e-6)
    ang = np.arccos(np.clip((np.trace(U[:3, :3]) - 1) / 2, -1, 1))
    c.close(ang, np.linalg.norm(mv[3:]), 'moved', 'detectors are turned by the tolerance', rtol=.02, atol=1e-6)
    g = [x.elements_of_class(m.LynxGAS)[0] for x in (a, b)]
    P = np.asarray(g[0].pos4d)
    s = np.array(budget[1][3])
    # grating structure: shift all + individual
    dx = []
    for p, q in zip(g[0].elements, g[1].elements):
        p, q = np.asarray(p.pos4d), np.asarray(q.pos4d)
        c.close(np.linalg.norm(q[:3, :3], axis=0), np.linalg.norm(p[:3, :3], axis=0), 'rigid', 'gratings keep their size', rtol=1e-9)
        dx.append(q[:3, 3] - p[:3, 3])
    dx = np.array(dx)
    c.check(np.linalg.norm(dx, axis=1) > 0, 'moved', 'all gratings are moved')
    gl = np.array(budget[0][3])
    # all gratings move as one body, and by a random offset along the axes of the structure
    p4 = [np.asarray(e.pos4d) for e in g[0].elements]
    A, B = [], []
    for v, p in zip(dx, p4):
        x, y, z = p[:3, 3] - P[:3, 3]
        J = np.column_stack([np.eye(3), [[0, z, -y], [-z, 0, x], [y, -x, 0]]])
        R = G.frame(P)[1]
        A.append(R.T @ J / s[:3, None])
        B.append(R.T @ v / s[:3])
    A, B = np.concatenate(A), np.concatenate(B)
    sol, _, rank, _ = np.linalg.lstsq(A, B, rcond=None)
    dof = len(B) - rank
    q = ((B - A @ sol)**2).sum()
    c.note(q=q, dof=dof, s=s, gl=budget[0][3], size=conf['grating_size'], res=(B - A @ sol).reshape(-1, 3).std(0).round(3), sol=sol, mx=np.abs(B).max())
    c.count('statistical', 1)
    c.pvalue(min(1, 2 * min(stats.chi2.sf(q, dof), stats.chi2.cdf(q, dof))), 'individual', 'gratings have random offsets of the width of the tolerance', got=q / dof)
    r = np.linalg.norm([np.asarray(e.pos4d)[:3, 3] - P[:3, 3] for e in g[0].elements], axis=1)
    c.check(np.linalg.norm(dx, axis=1) < 7 * np.linalg.norm(s[:3]) + np.linalg.norm(gl[:3]) + r * np.linalg.norm(gl[3:]) * 1.1, 'moved', 'gratings are moved by no more than the tolerances')
    c.count('budgets', 1)


# ---------------------------------------------------------------- Chandra

@W(quick=16, thorough=160, cpu=200)
def chandra(c):
    """Chandra with or without grating, from the source to ACIS"""
    import marxs.missions.chandra as m
    from marxs.missions.chandra.hrma_py import mirror_radii, HRMA, Aperture
    from marxs.source import PointSource
    rng = c.rng
    grating = rng.uniform() < .6
    aim = str(rng.choice(['ACIS-I', 'ACIS-S']))
    chips = [4, 5, 6, 7, 8, 9] if aim == 'ACIS-S' else [0, 1, 2, 3]
    elem = [Aperture(), HRMA()] + ([m.HETG()] if grating else []) + [m.ACIS(chips=chips, aimpoint=m.AIMPOINTS[aim])]
    inst = m.Chandra(elements=elem)
    off = float(rng.choice([0., rng.uniform(0, .08)]))
    t = source(rng, 2500, (.5, 8.), off, area=elem[0].area)
    c.note(grating=grating, aim=aim, off=off)
    F = 10061.65
    out, log = run(c, inst, t)
    path(c, log, [type(e).__name__ for e in elem] + ['end'] * 5)
    s = np.asarray(out['mirror_shell']).astype(int)
    r = np.hypot(log[0]['pos'][:, 1], log[0]['pos'][:, 2])
    radii = {0: (598, 610), 1: (481, 491), 2: (424, 433), 3: (315, 322)}
    for i in np.unique(s):
        c.check(i in radii, 'shell', 'photons have a shell')
        if i in radii:
            a, b = radii[int(i)]
            c.check((r[s == i] >= a - 1e-6) & (r[s == i] <= b + 1e-6), 'shell', 'the recorded shell is the one the photon fell on', shell=int(i))
            c.seen('chandra shell', int(i))
    focus(c, log[0], log[1], F, F, 3.6e-6, 'HRMA')
    if off == 0:
        scatter(c, G.unit(-log[1]['pos'][:, :3]), log[1]['dir'], log[1]['pos'], np.array([F, 0., 0]), 3.6e-6 * u.rad, 1.2e-6 * u.rad, 'HRMA')
    c.close(log[1]['probability'], log[0]['probability'] * .66, 'mirror-efficiency', 'the mirror passes 66 per cent of the photons', rtol=1e-9)
    last = 1
    if grating:
        last = 2
        h, by = members(c, elem[2], 'facet', out, log[1], log[2], 'facet', need_hit=True)
        k = h >= 0
        c.check(k.mean() > .5, 'facets', 'most photons meet a facet', got=k.mean())
        E, o = log[0]['energy'][k], np.asarray(out['order'], float)[k]
        c.check(np.isin(o, np.arange(-3, 4)), 'orders', 'orders are -3 to 3')
        # HEG or MEG
        cen = np.array([np.asarray(by[i].pos4d)[:3, 3] for i in h[k]])
        lam = HC / E
        d = np.where(np.hypot(cen[:, 1], cen[:, 2]) > 380, 4001.95e-7, 2000.81e-7)
        ang = np.arccos(np.clip((log[1]['dir'][k, :3] * log[2]['dir'][k, :3]).sum(1), -1, 1))
        # photons meet facets almost at normal incidence
        c.close(ang, np.arcsin(np.abs(o) * lam / d), 'dispersion', 'the angle of diffraction is that of the type of grating under the shell', rtol=2e-3, atol=1e-6)
        inner = s[k] >= 2
        c.check((d < 3e-4) == inner, 'hetg-shell', 'photons from the inner shells (2 and 3) fall on high energy gratings, those from the outer shells on medium energy gratings')
        c.count('diffracted', int(k.sum()))
        # each type of grating has its own line in the focal plane
        A = log[2]['pos'][k, :3]
        D = log[2]['dir'][k, :3]
        X = A - (A[:, :1] / D[:, :1]) * D
        zero = log[1]['pos'][k, :3] - (log[1]['pos'][k, :1] / log[1]['dir'][k, :1]) * log[1]['dir'][k, :3]
        dX = X - zero
        for kind, tilt in (('heg', -5.), ('meg', 5.)):
            q = (inner if kind == 'heg' else ~inner) & (o != 0)
            if q.sum() < 20:
                continue
            tl = np.rad2deg(np.arctan(dX[q, 2] / dX[q, 1]))
            c.close(np.median(tl), tilt, 'tilt', f'the {kind} spectrum is tilted against the y axis as in the design', rtol=0, atol=.02)
            c.check(tl.std() < .05, 'tilt', f'all {kind} facets disperse in the same direction', got=tl.std())
    c.same(log[last + 1]['probability'], log[last]['probability'], 'kept', 'ACIS does not change the probability')
    ccd, _ = members(c, elem[-1], 'CCD_ID', out, log[last], log[last + 1], 'CCD', need_hit=True)
    c.check(np.isin(ccd, [-1] + chips), 'ccd', 'only the chips that are on are hit', got=np.unique(ccd))
    c.count('detected', int((ccd >= 0).sum()))
    c.count('photons', len(out))


# ---------------------------------------------------------------- silicon pore optics

@W(quick=16, thorough=160, cpu=200)
def pores(c):
    """silicon pore optics, from the aperture to the focal plane"""
    from marxs.missions.athena import spo
    from marxs.optics import FlatDetector
    from marxs.simulator import Sequence
    from marxs.math.utils import xyz2zxy
    from marxs.source import FixedPointing, PointSource
    rng = c.rng
    R = rng.uniform(.3, .95)
    slope = rng.uniform(0, .02)
    refl = lambda en, ang, grid=True: np.clip(R - slope * np.asarray(en) - 2 * np.abs(np.asarray(ang)), 0, 1)
    ins, perp = 10**rng.uniform(-7, -5), 10**rng.uniform(-8, -6)
    sub = spo.spogeom
    pose = spo.spo_pos4d
    if rng.uniform() < .5:
        k = np.sort(rng.choice(len(sub), int(rng.integers(20, 200)), replace=False))
        sub, pose = sub[k], [pose[i] for i in k]
    if rng.uniform() < .5:
        sub = sub.copy()
        sub['focal_length'] = np.asarray(sub['focal_length']) * rng.uniform(.97, 1.03, len(sub))
    conf = dict(spo_geom=sub, spo_pos4d=pose, inplanescatter=ins * u.rad, perpplanescatter=perp * u.rad, reflectivity_interpolator=refl)
    det = FlatDetector(orientation=xyz2zxy[:3, :3], zoom=[1, 1e4, 1e4])
    mir = spo.SimpleSPOs(conf)
    inst = Sequence(elements=[spo.aperture] + list(mir.elements) + [det], postprocess_steps=[])
    ra, dec = rng.uniform(0, 360), rng.uniform(-70, 70)
    pnt = SkyCoord(ra, dec, unit='deg')
    off = float(rng.choice([0., rng.uniform(0, .05)]))
    src = pnt.directional_offset_by(rng.uniform(0, 360) * u.deg, off * u.deg)
    A = spo.aperture.area
    s = PointSource(coords=src, flux=1e-4 / u.s / u.mm**2, geomarea=A, energy=lambda e: rng.uniform(.3, 5., size=len(e)) * u.keV)
    t = s.generate_photons(2500 / (1e-4 * A.to_value(u.mm**2)) * u.s)
    t = FixedPointing(coords=pnt, reference_transform=xyz2zxy)(t)
    c.note(off=off, n=len(sub), ins=ins, perp=perp)
    out, log = run(c, inst, t)
    path(c, log, [getattr(e, '__name__', type(e).__name__) for e in inst.elements])
    ids, by = members(c, mir.elements[0], 'xou', out, log[0], log[1], 'mirror module')
    h = ids >= 0
    E = log[0]['energy']
    # graze angle is a quarter of the deflection of photons parallel to the axis
    d = -log[0]['dir'][:, :3]
    r = np.array([sub['r_mid'][i] if i >= 0 else np.nan for i in ids])
    f = np.array([sub['focal_length'][i] if i >= 0 else np.nan for i in ids])
    fin = log[1]['dir'][:, :3]
    ang = np.arccos(np.clip((-d * fin).sum(1), -1, 1)) / 4
    if off == 0:
        want = refl(E[h], ang[h])**2
        c.close((log[1]['probability'] / log[0]['probability'])[h], want, 'reflectivity', 'photons are reflected twice at a quarter of the angle of deflection', rtol=5e-3)
    c.check((log[1]['probability'] <= log[0]['probability'] * R**2 + 1e-12)[h], 'reflectivity', 'photons are reflected twice')
    # modules focus in the same place
    F = np.array([0, 0, 12000.]) + f[:, None] * log[0]['dir'][:, :3]
    p = log[1]['pos'][:, :3]
    miss = np.linalg.norm(np.cross(F - p, fin), axis=1)[h]
    c.check(miss < 1e-3 + 12000 * np.deg2rad(off)**2, 'focus', 'modules focus at the image of the source', worst=miss.max() if len(miss) else 0)
    # scatter
    dev = np.arccos(np.clip((fin * log[2]['dir'][:, :3]).sum(1), -1, 1))
    c.check(dev[h] < 8 * np.hypot(ins, perp) + 3e-8, 'scatter', 'photons are scattered by no more than specified', worst=dev[h].max() if h.any() else 0)
    c.same(log[2]['dir'][~h], log[1]['dir'][~h], 'scatter', 'photons that meet no module are not scattered')
    if h.sum() > 100:
        c.check(np.median(dev[h]) > .2 * max(ins, perp), 'scatter', 'photons are scattered')
        a, b = fin[h], log[2]['dir'][h, :3]
        rad = p[h] * [1, 1, 0]
        rad = G.unit(rad - (rad * a).sum(1)[:, None] * a)
        for e_, w_, lab in ((rad, ins, 'in plane'), (np.cross(a, rad), perp, 'out of plane')):
            x = ((b - a) * e_).sum(1) / w_
            if off == 0 and w_ > 3e-8:
                c.count('statistical', 2)
                c.pvalue(min(1, 2 * min(stats.chi2.sf((x**2).sum(), len(x)), stats.chi2.cdf((x**2).sum(), len(x)))), 'scatter', f'scatter {lab} has the configured width', got=x.std())
                c.pvalue(stats.kstest(x, 'norm').pvalue, 'scatter', f'scatter {lab} is normally distributed', got=x.std())
    c.same(log[2]['probability'], log[1]['probability'], 'kept', 'scatter does not change the probability')
    c.close(log[3]['probability'], np.where(h, log[2]['probability'], 0), 'mounting', 'photons that meet no module are absorbed', rtol=1e-12)
    c.close(log[4]['probability'], log[3]['probability'] * .92609, 'open-area', 'ribs of the pores reduce the probability', rtol=1e-6)
    tab = Table.read(G.repo_data('missions', 'athena', 'data', 'lossterm.csv'), format='ascii.ecsv')
    en = tab['energy'].to(u.keV, equivalencies=u.spectral()).value
    k = np.argsort(en)
    c.close(log[5]['probability'], log[4]['probability'] * np.interp(E, en[k], np.asarray(tab[tab.colnames[1]], float)[k]), 'loss', 'tabulated losses reduce the probability', rtol=1e-6)
    for a, b in zip(log[2:-1], log[3:]):
        c.same(a['dir'], b['dir'], 'kept', 'only mirrors and scatter change the direction')
    x = np.column_stack([np.asarray(out[k], float) for k in ('det_x', 'det_y')])
    c.close(log[-1]['pos'][:, 2], 0, 'detector', 'the detector is in the focal plane', rtol=0, atol=1e-6)
    c.close(x, log[-1]['pos'][:, :2], 'detector', 'detector coordinates are x and y', rtol=0, atol=1e-6)
    c.count('photons', len(out))
    c.count('detected', int((np.asarray(out['probability']) > 0).sum()))


# ---------------------------------------------------------------- boom

def segdist(p, d, a, b):
    """smallest distance between rays from p along d and the segment a - b, and the place along the segment of the closest approach"""
    ab = b - a
    L = np.linalg.norm(ab)
    e = ab / L
    n = np.cross(d, e)
    nn = (n * n).sum(1)
    w = a - p
    dist = np.abs((w * n).sum(1)) / np.sqrt(nn)
    s = (np.cross(w, d) * n).sum(1) / nn          # along the segment
    k = (np.cross(w, np.broadcast_to(e, d.shape)) * n).sum(1) / nn    # along the ray
    return dist, s / L, k


@W(quick=40, thorough=600, cpu=100)
def booms(c):
    """photons are absorbed in the rods in their path"""
    from marxs.missions.arcus import boom
    rng = c.rng
    cls = [boom.ThreeSidedBoom, boom.FourSidedBoom][int(rng.integers(2))]
    dims = {}
    if rng.uniform() < .7:
        start = int(rng.integers(0, 6))
        dims.update(start_bay=start, n_bays=start + int(rng.integers(1, 3)))
    if rng.uniform() < .5:
        dims.update(d_longeron=rng.uniform(5, 80), d_batten=rng.uniform(5, 80), d_diag=rng.uniform(5, 80))
    p4 = G.rigid(rng)
    b = cls(pos4d=p4, **({'boom_dimensions': dims} if dims else {}))
    c.note(cls=cls.__name__, dims=dims)
    g = lambda k: dims.get(k, getattr(cls, k))
    nb = g('n_bays') - g('start_bay')
    ns = cls.n_sides
    c.check(len(b.elements) == nb * ns * 4, 'rods', 'each side of a bay has a longeron, a batten and two diagonals', got=len(b.elements), want=nb * ns * 4)
    # corners of the truss
    inv = np.linalg.inv(p4)
    rad = g('l_batten') / (np.sqrt(3) if ns == 3 else np.sqrt(2))
    ang0 = 0 if ns == 3 else np.pi / 4
    corner = lambda h, i: np.array([h * g('l_longeron'), rad * np.cos(ang0 + 2 * np.pi * i / ns), rad * np.sin(ang0 + 2 * np.pi * i / ns)])
    want = []
    for h in range(g('start_bay'), g('n_bays')):
        for i in range(ns):
            want += [(corner(h, i), corner(h + 1, i), g('d_longeron')), (corner(h, i), corner(h, i + 1), g('d_batten')),
                     (corner(h, i), corner(h + 1, i + 1), g('d_diag')), (corner(h, i + 1), corner(h + 1, i), g('d_diag'))]
    ends = []
    for e in b.elements:
        m = inv @ np.asarray(e.geometry.pos4d)
        z = np.linalg.norm(m[:3, :3], axis=0)
        ends.append((m[:3, 3] - m[:3, 2], m[:3, 3] + m[:3, 2], 2 * z[0]))
    key = lambda w: (min(tuple(np.round(w[0], 0)), tuple(np.round(w[1], 0))), max(tuple(np.round(w[0], 0)), tuple(np.round(w[1], 0))))
    mid = lambda w: (w[0] + w[1]) / 2
    used = set()
    for w in want:
        dist = [min(np.abs(np.r_[w[0] - e[0], w[1] - e[1]]).max(), np.abs(np.r_[w[0] - e[1], w[1] - e[0]]).max()) for e in ends]
        k = int(np.argmin(dist))
        c.check(dist[k] < 2., 'truss', 'rods connect the corners of the bays', got=dist[k], want=[w[0], w[1]])
        c.check(k not in used, 'truss', 'each rod is there once')
        used.add(k)
        c.close(ends[k][2], w[2], 'thickness', 'rods have the diameter in the description', rtol=1e-6)
    # photons
    n = 250
    k = rng.integers(len(want), size=n)
    A, B, D = (np.array([want[i][j] for i in k]) for j in range(3))
    # places on the axis, and a distance away from it
    f = rng.uniform(.05, .95, n)
    q = A + f[:, None] * (B - A)
    d = G.unit(rng.normal(size=(n, 3)) + [rng.choice([0, 3]), 0, 0])
    e = G.unit(B - A)
    nrm = np.cross(d, e)
    sin = np.linalg.norm(nrm, axis=1)
    nrm /= sin[:, None]
    far = rng.choice([.9, 1.1, .5, 1.5, 0.], n)
    q = q + nrm * (far * D / 2)[:, None] * rng.choice([-1, 1], (n, 1))
    s = q - d * rng.uniform(500, 3000, (n, 1))
    P = (np.column_stack([s, np.ones(n)]) @ p4.T)[:, :3]
    DD = d @ p4[:3, :3].T
    t = G.table(rng, P, DD)
    before = t.copy()
    out = b(t)
    hit = np.zeros(n, bool)
    unsure = np.zeros(n, bool)
    for w in ends:
        dist, along, kk = segdist(s, d, w[0], w[1])
        r = w[2] / 2
        L = np.linalg.norm(w[1] - w[0])
        sn = np.linalg.norm(np.cross(d, (w[1] - w[0]) / L), axis=1)
        # where the ray enters and leaves the (infinite) cylinder
        half = np.sqrt(np.clip(r**2 - dist**2, 0, None)) / sn
        cs = np.sqrt(np.clip(1 - sn**2, 0, None))
        lo, hi = along * L - half * cs, along * L + half * cs      # places of entry and exit along the rod
        inside = (dist < r)
        through = inside & (((lo > 0) & (lo < L)) | ((hi > 0) & (hi < L)))
        fwd = kk - half > 0
        edge = (np.abs(dist - r) < 1e-3 * r) | (inside & ((np.abs(lo) < 1e-2) | (np.abs(lo - L) < 1e-2) | (np.abs(hi) < 1e-2) | (np.abs(hi - L) < 1e-2))) | \
            (inside & (np.abs(kk) < 3 * half + r + 1e-3)) | (sn < 1e-2)
        hit |= through & fwd & ~edge
        unsure |= edge
    got = np.asarray(out['hitrod']).astype(bool) if 'hitrod' in out.colnames else np.zeros(n, bool)
    j = ~unsure
    c.check(got[j & hit], 'absorbed', 'photons whose path crosses a rod are absorbed', n=int((~got[j & hit]).sum()), of=int((j & hit).sum()))
    c.check(~got[j & ~hit], 'free', 'photons whose path crosses no rod are not absorbed', n=int(got[j & ~hit].sum()))
    pr = np.asarray(out['probability'])
    c.check(pr[got] == 0, 'absorbed', 'photons that hit a rod have probability 0')
    c.same(pr[~got], np.asarray(before['probability'])[~got], 'free', 'other photons keep their probability')
    c.same(np.asarray(out['dir']), np.asarray(before['dir']), 'free', 'rods do not change the direction')
    c.count('rods', len(ends))
    c.count('boom photons', int(j.sum()))
    c.seen('boom', (cls.__name__, bool(dims)))


@W(quick=4, thorough=10)
def invalid(c):
    from marxs.missions.arcus import boom
    from marxs.missions.mitsnl.catgrating import catsupportbars
    c.raises(ValueError, lambda: boom.FourSidedBoom(boom_dimensions={'nonsense': 3}), 'unknown-dimension', 'dimensions that do not exist are refused')
    a = boom.FourSidedBoom(boom_dimensions={'n_bays': 1})
    b = boom.FourSidedBoom()
    c.check(len(a.elements) == 16 and len(b.elements) == 8 * 16, 'dimension-shared', 'dimensions of one boom do not change another', got=[len(a.elements), len(b.elements)])
    t = G.table(c.rng, np.zeros((5, 3)), np.tile([1., 0, 0], (5, 1)))
    out = catsupportbars(t)
    arcus()
    import marxs.missions.AXIS.AXIS as X
    for m in (lynx(), X):
        conf = m.conf
        c.check('chirp_energy' not in conf and 'chirp_order' not in conf, 'conf-shared', f'gratings of the default design are not chirped ({m.__name__})')
        c.check(not np.array_equal(conf['grating_size'], m.conf_chirp['grating_size']), 'conf-shared', f'chirped gratings have their own size ({m.__name__})')
    c.check(np.asarray(out['probability']) == 0, 'no-facets', 'photons that never met a grating are absorbed')


# ---------------------------------------------------------------- Arcus and AXIS with a made-up calibration database

def arcus():
    from vmon import arcuscal
    return arcuscal.make(np.random.default_rng(20240601))


def tabulated(t, e):
    return np.interp(e, np.asarray(t['energy'], float), np.asarray(t[t.colnames[1]], float))


FILTERS = [('filters', 'sifilter'), ('filters', 'opticalblocking'), ('filters', 'uvblocking'), ('detectors', 'contam'), ('detectors', 'qe')]
OFFSET = {'1': 0, '2': 1000, '1m': 10000, '2m': 11000}


@W(quick=16, thorough=200, cpu=300)
def arcus_path(c):
    """Arcus from the source to the CCDs"""
    from types import SimpleNamespace
    from marxs.math.utils import xyz2zxy
    from marxs.missions.arcus.analyze_grid import zeropos
    from marxs.missions.arcus.defaults import DefaultPointing
    from marxs.missions.arcus.ralfgrating import RegularGrid
    from marxs.missions.mitsnl import catgrating as cat
    from marxs.source import FixedPointing, PointSource
    rng = c.rng
    C = arcus()
    A = C['arcus']
    conf = A.defaultconf
    mode = ['perfect', 'grid', 'budget', 'direct'][c.idx % 4]
    chans = [['1', '1m', '2', '2m'], [str(x) for x in rng.permutation(list(OFFSET))[:int(rng.integers(1, 5))]]][c.idx // 4 % 2]
    if mode == 'grid':
        # the grids of channels next to each other overlap
        chans = [['1', '2', '1m', '2m'][c.idx // 4 % 4]]
    base = A.Arcus if mode == 'budget' else A.PerfectArcus
    cls = type('Model', (base,), {'direct': dict(gratings_class=None), 'grid': dict(gratings_class=RegularGrid)}.get(mode, {}))
    was = {k: state(v) for k, v in conf.items()}
    inst = cls(channels=list(chans))
    c.check({k: state(v) for k, v in conf.items()} == was, 'conf-module', 'building an instrument does not change the default configuration')
    area = inst.elements[0].area
    coords = SkyCoord(30, 30, unit='deg')
    off = [0., rng.uniform(0, .03)][c.idx // 8 % 2]
    s = PointSource(coords=coords.directional_offset_by(rng.uniform(0, 360) * u.deg, off * u.deg), flux=1e-4 / u.s / u.mm**2, geomarea=area,
                    energy=lambda e: rng.uniform(.3, 2., size=len(e)) * u.keV)
    t = s.generate_photons(4000 / (1e-4 * area.to_value(u.mm**2)) * u.s)
    jitter = rng.uniform() < .5
    t = (DefaultPointing(coords=coords) if jitter else FixedPointing(coords=coords, reference_transform=xyz2zxy))(t)
    if jitter:
        ang = np.arccos(np.clip(-np.asarray(t['dir'])[:, 2], -1, 1))
        c.check(ang < np.deg2rad(off) + 8 * np.deg2rad(C['jitter'] / 2.3545 / 3600), 'jitter', 'the pointing varies by the value in the calibration', worst=ang.max())
    c.note(mode=mode, chans=chans, off=off, jitter=jitter)
    out, log = run(c, inst, t)
    names = [getattr(e, '__name__', type(e).__name__) for e in inst.elements]
    path(c, log, names)
    E = log[0]['energy']
    # mirrors
    spo = inst.elements_of_class(A.SPOChannelMirror)
    c.check(len(spo) == len(chans), 'channels', 'there is one mirror for each channel')
    mods = SimpleNamespace(elements=[e for m in spo for e in m.elements])
    ids, by = members(c, mods, 'xou', out, log[0], log[1], 'mirror module')
    h = ids >= 0
    c.check(set((ids[h] // 1000).tolist()) <= {OFFSET[k] // 1000 for k in chans}, 'channels', 'numbers of modules start at the offset of the channel', got=sorted(set((ids[h] // 1000).tolist())))
    geo = C['modules']
    idx = ids[h] % 1000
    num = C['numbers']
    chan = np.array([{v: k for k, v in OFFSET.items()}[i // 1000 * 1000] for i in ids[h]])
    axis = np.array([np.asarray(conf['pos_opt_ax'][k])[:3] for k in chan]).reshape(-1, 3)
    d0 = log[0]['dir'][h, :3]
    F = axis + [0, 0, 12000.] + 12000. * d0
    p, q = log[1]['pos'][h, :3], G.unit(log[1]['dir'][h, :3])
    r = np.hypot(*(p - axis)[:, :2].T)
    if mode != 'budget':
        mid = ((geo['inner_radius'] + geo['outer_radius']) / 2)[idx]
        half = np.hypot(((geo['outer_radius'] - geo['inner_radius']) / 2)[idx], .07 * mid)
        c.check(np.abs(r - mid) < half, 'module-radius', 'modules are at the radius in the calibration', worst=np.abs(r - mid).max() if len(r) else 0)
        side = np.where(np.char.startswith(chan, '1'), 1, -1)
        c.check((p - axis)[:, 1] * side > 0, 'module-side', 'channels 1 and 2 are on opposite sides')
    move = 8 * .17 * 2 + 8 * 12000 * 2 * 5e-4 if mode == 'budget' else 0
    miss = np.linalg.norm(np.cross(F - p, q), axis=1)
    sig = np.deg2rad(7. / (2 * .68) / 3600)
    c.check(miss < 9 * sig * 12500 + 12000 * np.deg2rad(off)**2 + move + .01, 'focus', 'all modules of a channel focus at the optical axis of the channel', worst=miss.max() if len(miss) else 0)
    if mode != 'budget' and off == 0 and h.sum() > 100:
        c.check(np.median(miss) > .1 * sig * 12000, 'scatter', 'photons are scattered', got=np.median(miss))
    if mode != 'budget' and off == 0:
        # in and perpendicular to the plane of the mirror module
        ideal = G.unit(F - p)
        rad = (p - axis) * [1, 1, 0]
        rad = G.unit(rad - (rad * ideal).sum(1)[:, None] * ideal)
        for k in chans:
            sel = chan == k
            if sel.sum() < 30:
                continue
            for e_, w_, lab in ((rad, conf['inplanescatter'], 'in plane'), (np.cross(ideal, rad), conf['perpplanescatter'], 'out of plane')):
                x = (((q - ideal) * e_).sum(1) / w_.to_value(u.rad))[sel]
                c.count('statistical', 2)
                c.pvalue(min(1, 2 * min(stats.chi2.sf((x**2).sum(), len(x)), stats.chi2.cdf((x**2).sum(), len(x)))), 'scatter', f'scatter {lab} has the configured width', got=x.std(), chan=k)
                c.pvalue(stats.kstest(x, 'norm').pvalue, 'scatter', f'scatter {lab} is normally distributed', got=x.std(), chan=k)
    gamma = np.arccos(np.clip((d0 * q).sum(1), -1, 1)) / 4
    want = np.where(h, num['geometricthroughput'] * num['porespecifications'] * tabulated(C['curves'][('spos', 'lossterm')], E), 0.)
    if mode != 'budget':
        want[h] *= C['refl'](E[h], gamma)**2
        if off == 0:
            c.close(log[1]['probability'], log[0]['probability'] * want, 'mirror-efficiency', 'the throughput of the mirror is reflectivity, open area and losses of the calibration', rtol=5e-3)
    c.check(log[1]['probability'][~h] == 0, 'mounting', 'photons that meet no module are absorbed')
    # gratings
    i = 1
    if mode != 'direct':
        i = 2
        stacks = SimpleNamespace(elements=inst.elements_of_class(cat.CATL1L2Stack, subclass_ok=False))
        fac, fby = members(c, stacks, 'facet', out, log[1], log[2], 'grating')
        caught = fac >= 0
        g = dict(order_selector=A.globalorderselector, l1_dims=cat.l1_dims, l2_dims=cat.l2_dims, qualityfactor=cat.qualityfactor)
        if mode == 'grid':
            g.update({k: conf['gratinggrid']['elem_args'][k] for k in ('l1_dims', 'l2_dims', 'qualityfactor')}, d=cat.d)
            period = None
        else:
            period = {int(n) + OFFSET[k]: float(p_) for k in chans for n, p_ in zip(C['facets']['facet_num'], C['facets']['period'])}
            c.check(set(fby) == set(period), 'facet-numbers', 'gratings have the numbers in the calibration plus the offset of the channel', got=sorted(fby)[:5], want=sorted(period)[:5])
        framed = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in log[2].items()}
        # photons in the frame are absorbed behind the gratings
        c.check(log[2]['probability'][~caught] == 0, 'frame', 'photons that meet no grating are absorbed')
        framed['probability'][~caught] = log[1]['probability'][~caught]
        if period is None or set(fby) == set(period):
            diffracted(c, out, log[1], framed, fac, fby, g, period)
        both = caught & h
        if mode == 'grid':
            c.check((fac[both] // 1000) == (ids[both] // 1000), 'channel', 'mirror and grating belong to the same channel')
            if h.sum() > 50:
                c.check(both.sum() > .5 * h.sum(), 'grid-cover', 'the regular grid of gratings is in the beam of the mirrors of its channel', got=int(both.sum()), of=int(h.sum()))
        if mode in ('perfect',):
            c.check((fac[both] // 1000) == (ids[both] // 1000), 'channel', 'mirror and grating belong to the same channel')
            tab = C['facets']
            for k in chans:
                mx, my = (1 if 'm' in k else -1), (-1 if '2' in k else 1)
                ax = np.asarray(conf['pos_opt_ax'][k])[:3]
                P = np.column_stack([mx * tab['X'], my * tab['Y'], tab['Z']]) + ax
                got = np.array([np.asarray(fby[int(n) + OFFSET[k]].pos4d)[:3, 3] for n in tab['facet_num']])
                c.close(got, P, 'facet-position', 'gratings are at the place in the calibration, mirrored for the other channels', rtol=0, atol=1e-6)
                nrm = np.column_stack([mx * tab['NormNX'], my * tab['NormNY'], tab['NormNZ']])
                dsp = np.column_stack([mx * tab['DispNX'], my * tab['DispNY'], tab['DispNZ']])
                for j, n in enumerate(tab['facet_num']):
                    cen, fr, z = G.frame(np.asarray(fby[int(n) + OFFSET[k]].pos4d))
                    c.close([abs(fr[:, 0] @ nrm[j]), abs(fr[:, 1] @ dsp[j])], 1., 'facet-frame', 'gratings are oriented as in the calibration', rtol=0, atol=1e-9)
                    c.close(z[1:], [tab['xsize'][j] / 2, tab['ysize'][j] / 2], 'facet-size', 'gratings have the size in the calibration', rtol=1e-9)
    f = np.prod([tabulated(C['curves'][k], E) for k in FILTERS], axis=0)
    c.close(log[i + 1]['probability'], log[i]['probability'] * f, 'filter', 'filters, contamination and detector reduce the probability as in the calibration', rtol=1e-7)
    unchanged(c, log[i], log[i + 1], ('pos', 'dir', 'polarization'), 'the filter')
    for a, b in zip(log[i + 1:-1], log[i + 2:]):
        unchanged(c, a, b, ('dir', 'polarization', 'probability'), 'the detectors')
    # circular detector
    j = i + 2
    c.check(type(inst.elements[j]).__name__ == 'CircularDetector', 'layout', 'the circular detector comes behind the filters')
    rd = conf['rowland_detector']
    P = log[j]['pos']
    z0 = np.sqrt(rd.r**2 - conf['d']**2)
    phi, y = np.asarray(out['circ_phi'], float), np.asarray(out['circ_y'], float)
    v = np.isfinite(phi) & ok(log[j])
    c.close(np.hypot(P[v, 0], P[v, 2] - z0), rd.r, 'circle', 'photons are on the Rowland circle of the detector', rtol=0, atol=1e-5)
    pix = np.stack([np.asarray(out[k], float) for k in ('circpix_x', 'circpix_y')], -1)
    c.close(np.diff(pix[v], axis=0), np.diff(np.stack([phi[v] * rd.r, y[v]], -1), axis=0) / inst.elements[j].pixsize, 'circle-pixel', 'pixels have the specified size', rtol=1e-6, atol=1e-3)
    c.close(phi[v], np.arctan2(P[v, 0], z0 - P[v, 2]), 'circle-phi', 'circ_phi is counted from the bottom of the circle to positive x', rtol=0, atol=1e-6)
    c.close(np.abs(y[v]), np.abs(P[v, 1]), 'circle-y', 'circ_y is the distance in y', rtol=0, atol=1e-6)
    c.close(np.column_stack([np.asarray(out[k], float) for k in ('projcirc_x', 'projcirc_y')])[v], P[v, :2], 'projection', 'projected coordinates are x and y', rtol=0, atol=1e-6)
    # zero order
    if mode != 'budget' and off == 0 and not jitter and (mode == 'direct' or 'order' in out.colnames):
        zero = v.copy()
        if mode != 'direct':
            zero &= (np.asarray(out['order']) == 0) & (np.asarray(out['order_L1']) == 0) & (np.asarray(out['facet']) >= 0)
        for k in chans:
            n = zero & (ids // 1000 * 1000 == OFFSET[k]) & h
            if n.sum() < 5:
                continue
            for name, tol in (('circ_phi', 3. / rd.r), ('circ_y', 3.), ('proj_x', 3.), ('proj_y', 3.)):
                x = np.asarray(out[name], float)[n]
                x = x[np.isfinite(x)]
                if name.startswith('proj'):
                    # measured with the last position, possibly on a CCD a few mm away from the focal plane
                    tol = 4.
                c.close(np.median(x), zeropos(name, k), 'zeropos', f'the zeroth order of each channel is where zeropos says ({name})', rtol=0, atol=tol) if len(x) else None
                c.count('zero orders', 1)
    # CCDs
    cam = [e for e in inst.elements if isinstance(e, A.DetCamera)][0]
    k = [i_ for i_, e in enumerate(inst.elements) if e is cam][0]
    ccd, cby = members(c, cam, 'CCD', out, log[k - 1], log[k], 'CCD', coos=('det_x', 'det_y'))
    c.check(sorted(cby) == list(range(1, 17)), 'ccd-numbers', 'CCDs are numbered from 1 to 16', got=sorted(cby))
    x = np.array([np.asarray(cby[i_].pos4d)[0, 3] for i_ in sorted(cby)])
    c.check(np.diff(x) > 0, 'ccd-order', 'CCD numbers increase with x')
    pixels(c, out, ccd >= 0, [24.576, 12.288], .024)
    for i_ in sorted(cby):
        g3 = np.asarray(cby[i_].pos4d)
        dev = np.hypot(g3[0, 3], g3[2, 3] - z0) - rd.r
        if mode != 'budget':
            c.close(dev, 0, 'ccd-circle', 'the centers of CCDs are on the Rowland circle', rtol=0, atol=1e-5)
            c.check(g3[0, 1] * np.asarray(cby[1].pos4d)[0, 1] > 0, 'ccd-orientation', 'det_x points in the same direction on all CCDs')
    sg = np.sign(np.asarray(cby[1].pos4d)[0, 1])
    gaps = [np.linalg.norm((np.asarray(cby[i_ + 1].pos4d) @ [0, -sg, 0, 1] - np.asarray(cby[i_].pos4d) @ [0, sg, 0, 1])[:3]) for i_ in list(range(1, 8)) + list(range(9, 16))]
    c.check(np.minimum(np.abs(np.array(gaps) - 2.15), np.abs(np.array(gaps) - 4.)) < .2, 'ccd-gaps', 'CCDs in a strip are separated by one of the two gaps', got=gaps)
    # CCDs do not overlap
    fp = np.column_stack([np.asarray(out[n], float) for n in ('detfp_x', 'detfp_y')])
    v = np.isfinite(fp).all(axis=1) & ok(log[k + 2])
    c.close(log[k + 2]['pos'][v, 2], 0, 'focal-plane', 'photons end in the focal plane', rtol=0, atol=1e-6)
    p_, d_ = log[k + 1]['pos'], log[k + 1]['dir']
    far = -p_[:, 2] / d_[:, 2]
    cross = ok(log[k + 1]) & (far > 1e-6) & (np.abs(p_[:, :2] + far[:, None] * d_[:, :2]) < 9990).all(axis=1)
    c.check(np.isfinite(fp[cross]), 'focal-plane', 'all photons on their way to the focal plane are recorded there', n=int(cross.sum()))
    c.close(np.abs(fp[v]), np.abs(log[k + 2]['pos'][v, :2]), 'focal-plane', 'detfp coordinates are x and y', rtol=0, atol=1e-6)
    c.check('ARCUS' in np.atleast_1d(out.meta.get('SATELLIT')), 'tag', 'photons are tagged with the name of the satellite', got=out.meta.get('SATELLIT'))
    c.count('photons', len(out))
    c.count('detected', int((ccd >= 0).sum()))
    c.seen('arcus', (mode, tuple(chans)))


@W(quick=18, thorough=180, cpu=200)
def arcus_budget(c):
    """each entry of the alignment budget moves the elements it names in all channels, by the tolerance stated"""
    from marxs.missions.arcus.ralfgrating import CATWindow, CATfromMechanical
    from marxs.missions.mitsnl.catgrating import CATL1L2Stack, NonParallelCATGrating
    rng = c.rng
    A = arcus()['arcus']
    kind = ['mirror', 'petal', 'window', 'grating', 'camera', 'tilt'][c.idx % 6]
    cls, how, parts = {'mirror': (A.SPOChannelMirror, 'individual', None), 'petal': (CATfromMechanical, 'global', CATL1L2Stack),
                       'window': (CATfromMechanical, 'individual', None), 'grating': (CATWindow, 'individual', None),
                       'camera': (A.DetCamera, 'global', None), 'tilt': (CATWindow, 'individual_with_tilt', None)}[kind]
    chans = [['1', '1m', '2', '2m'], ['1', '2m'], ['2', '1m']][int(rng.integers(3))]
    mm = (10**rng.uniform(0, 3, 3)).tolist()      # micro-meter
    arcsec = (10**rng.uniform(0, 2.7, 3)).tolist()
    budget = [[cls, how, mm + arcsec + ([float(rng.uniform(100, 2000))] if kind == 'tilt' else []), None, 'test']]
    fac = float(rng.choice([.8, 1., .3]))
    given = list(budget[0][2])
    A.reformat_randall_errorbudget(budget, globalfac=fac)
    want = np.array(given) / 3 * ([1e-3] * 3 + [np.pi / 180 / 3600] * (len(given) - 3)) * (fac if how == 'global' else 1)
    c.check(list(budget[0][2]) == given, 'budget', 'requirements are kept')
    c.close(budget[0][3], want, 'budget', 'tolerances are a third of the requirement (3 sigma), in mm and radian', rtol=1e-12)
    c.note(kind=kind, chans=chans, tolerance=want)
    # random global offsets
    many = [[A.DetCamera, 'global', given[:6], None, ''] for i in range(40)]
    A.reformat_randall_errorbudget(many, globalfac=None)
    z = np.array([r[3] for r in many]) / (want[:6] / (fac if how == 'global' else 1))
    c.count('statistical', 3)
    c.pvalue(stats.kstest(z.ravel(), 'norm').pvalue, 'budget-random', 'random global offsets have the width of the tolerance')
    c.pvalue(stats.chi2.sf((z**2).sum(), z.size), 'budget-random', 'random global offsets have the width of the tolerance')
    for i in range(5):
        c.pvalue(stats.pearsonr(z[:, i], z[:, i + 1]).pvalue, 'budget-random', 'offsets along different axes are independent')
    conf = dict(A.defaultconf, alignmentbudget=budget)
    was = {k: state(v) for k, v in conf.items()}
    a, b = A.PerfectArcus(conf=conf, channels=list(chans)), A.Arcus(conf=conf, channels=list(chans))
    c.check({k: state(v) for k, v in conf.items()} == was, 'conf', 'building an instrument does not change its configuration')
    pos = lambda x: np.asarray(x.pos4d, float)
    groups = [inst.elements_of_class(cls) for inst in (a, b)]
    c.check(len(groups[0]) == len(groups[1]) > 0, 'layout', 'both instruments have the same groups of elements')
    if kind != 'camera':
        num = [len(inst.elements_of_class(A.SPOChannelMirror)) for inst in (a, b)]
        c.check(num == [len(chans)] * 2, 'layout', 'one mirror per channel', got=num)
    # the others stay in place
    for other in (A.SPOChannelMirror, CATWindow, A.DetCamera):
        if other is cls or (other is CATWindow and cls is CATfromMechanical):
            continue
        x, y = [[pos(e) for g in inst.elements_of_class(other) for e in g.elements] for inst in (a, b)]
        c.close(x, y, 'others', f'{other.__name__} is not in the budget and stays in place', rtol=1e-9, atol=1e-7)
    T, R = [], []
    for g, h in zip(*groups):
        P = pos(g)
        P0, Pr, _ = G.frame(P)
        U = []
        for e, f in zip(g.elements, h.elements):
            p, q = pos(e), pos(f)
            (pc, pr, pz), (qc, qr, qz) = G.frame(p), G.frame(q)
            c.close(pz, qz, 'rigid', 'elements keep their size', rtol=1e-9)
            T.append(Pr.T @ (qc - pc))
            M = Pr.T @ qr @ pr.T @ Pr
            R.append(np.array([M[2, 1] - M[1, 2], M[0, 2] - M[2, 0], M[1, 0] - M[0, 1]]) / 2)
            U.append(np.linalg.inv(P) @ q @ np.linalg.inv(p) @ P)
            if kind in ('window', 'petal'):
                # gratings of a window move with it
                V = [pos(y) @ np.linalg.inv(pos(x)) for x, y in zip(e.elements, f.elements)]
                c.close(V, np.broadcast_to(V[0], (len(V), 4, 4)), 'rigid', 'gratings in one window move together', rtol=0, atol=1e-5)
        if how == 'global':
            c.close(U, np.broadcast_to(U[0], (len(U), 4, 4)), 'rigid', f'{kind}: all elements of a group move together', rtol=0, atol=1e-5)
            c.close(U[0][:3, 3], want[:3], 'moved', f'{kind}: moved by the tolerance about the center of the group', rtol=1e-6, atol=1e-7)
            M = U[0]
            got = np.array([M[2, 1] - M[1, 2], M[0, 2] - M[2, 0], M[1, 0] - M[0, 1]]) / 2
            c.close(got, want[3:], 'moved', f'{kind}: turned by the tolerance', rtol=0, atol=2 * (want[3:]**2).sum() + 1e-9)
        if kind == 'tilt':
            for e, f in zip(g.elements, h.elements):
                n = [x for x in f.elements if isinstance(x, NonParallelCATGrating)] if hasattr(f, 'elements') else []
                if c.check(len(n) == 1, 'tilt', 'a grating has one membrane'):
                    c.check(abs(n[0].blaze_center) <= want[6], 'tilt', 'bars are tilted by no more than the tolerance', got=n[0].blaze_center)
                    R[len(R) - len(g.elements) + list(h.elements).index(f)][1] += n[0].blaze_center
                    T.append([np.nan] * 2 + [n[0].blaze_center / want[6]])
    if how != 'global':
        tilts = np.array([t[2] for t in T if np.isnan(t[0])])
        T, R = np.array([t for t in T if not np.isnan(t[0])]) / want[:3], np.array(R)
        if kind == 'tilt':
            c.pvalue(stats.kstest(tilts, stats.uniform(-1, 2).cdf).pvalue, 'tilt', 'tilts of bars are uniform within the tolerance')
            c.count('tilted bars', len(tilts))
        c.check(np.abs(T) > 0, 'moved', 'every element is moved')
        for x, lab in ((T, 'shift'), (R / want[3:6], 'angle')):
            # angles about one axis depend on the other angles to second order
            for i in range(3):
                if lab == 'angle' and (want[3:6]**2).sum() + (want[6]**2 if kind == 'tilt' else 0) > .02 * want[3 + i]:
                    continue
                v = x[:, i]
                for p in (stats.chi2.sf((v**2).sum(), len(v)), stats.chi2.cdf((v**2).sum(), len(v))):
                    c.pvalue(p, 'moved', f'{kind}: {lab} {"xyz"[i]} has the width of the tolerance', got=float(np.sqrt((v**2).mean())))
                c.count('statistical', 2)
        c.check(len(np.unique(T.round(12), axis=0)) == len(T), 'moved', 'elements are moved individually')
    bad = [[cls, str(rng.choice(['', 'all', 'Global', 'tilt'])), given, want, '']]
    c.raises(NotImplementedError, lambda: A.Arcus(conf=dict(conf, alignmentbudget=bad), channels=list(chans)), 'unknown-kind', 'unknown kinds of misalignment are refused')
    c.count('budgets', 1)
    c.seen('budget', kind)


@W(quick=12, thorough=100)
def arcus_grid(c):
    """regular grid of gratings for all channels of Arcus"""
    from marxs.missions.arcus.ralfgrating import RegularGrid
    from marxs.missions.arcus.spo import rmid_spo, zoom_to_cover_all_spos
    rng = c.rng
    conf = dict(arcus()['arcus'].defaultconf)
    n = int(rng.integers(1, 5))
    chans = [str(x) for x in rng.permutation(['1', '2', '1m', '2m'])[:n]]
    if c.idx < 4:
        chans = [['1'], ['2'], ['1m'], ['2m']][c.idx]
    conf['blazeang'] = float(rng.choice([conf['blazeang'], rng.uniform(.5, 3)]))
    conf['gratinggrid'] = dict(conf['gratinggrid'], d_element=[float(x) for x in rng.uniform(30, 45, 2)])
    was = {k: state(v) for k, v in conf.items()}
    g = RegularGrid(conf, channels=list(chans))
    c.check({k: state(v) for k, v in conf.items()} == was, 'conf', 'building a grid does not change its configuration')
    arrs = [e for e in g.elements if hasattr(e, 'elements')]
    if not c.check(len(arrs) == len(chans), 'channels', 'one grid for each channel'):
        return
    _, wx, wy = zoom_to_cover_all_spos(conf, .5, .5)
    mid = rmid_spo(conf)
    for k, a in zip(chans, arrs):
        mx, my = (-1 if 'm' in k else 1), (-1 if '2' in k else 1)
        ax = np.asarray(conf['pos_opt_ax'][k], float)[:3]
        P = np.array([np.asarray(e.pos4d, float) for e in a.elements])
        cen = P[:, :3, 3]
        T = conf['rowland_' + k]
        c.close(np.asarray(T.quartic(cen), float) / (T.r + T.R)**4, 0., 'on-torus', 'gratings are on the Rowland torus of their channel', rtol=0, atol=1e-9)
        c.check(cen[:, 2] > .9 * 12000 - 2000, 'above', 'gratings are between the mirrors and the focal plane', got=cen[:, 2].min())
        r, nrm = G.unit(cen - ax), G.unit(P[:, :3, 0])
        cos = (r * nrm).sum(1)
        c.close(np.rad2deg(np.arccos(np.clip(np.abs(cos), -1, 1))), conf['blazeang'], 'blaze', 'gratings are blazed against the line to the optical axis', rtol=0, atol=1e-6)
        # channels are mirror images of each other
        tilt = (nrm * np.sign(cos)[:, None] - r) * [mx, my, 1]
        c.check(tilt[:, 0] * -1 > .9 * np.deg2rad(conf['blazeang']), 'blaze-side', 'the four channels are blazed towards the same side of their spectrum', got=tilt[:, 0].max())
        off = (cen - ax) * [1, my, 1]
        d = np.asarray(conf['gratinggrid']['d_element'], float)
        c.check((off[:, 1] > mid - wy - d[1]) & (off[:, 1] < mid + wy + d[1]), 'region', 'gratings are below the mirrors of their channel', got=[off[:, 1].min(), off[:, 1].max()])
        for j, w, lab in ((0, wx, 'x'), (1, wy, 'y')):
            lo, hi = off[:, j].min() - d[j] / 2, off[:, j].max() + d[j] / 2
            c.check((hi - lo > 2 * w * .97 - 1e-3) & (hi - lo < 2 * w + d[j] + 2), 'region', f'the grid is as large as the mirrors in {lab}', got=hi - lo, want=2 * w)
        ids = np.array([e.id_num for e in a.elements])
        c.same(ids, OFFSET[k] + np.arange(len(ids)), 'numbers', 'numbers of gratings start at the offset of the channel')
        c.seen('grid channel', k)
        c.count('gratings in regular grids', len(P))


@W(quick=24, thorough=300)
def defaults(c):
    """Source and pointing of Arcus use what they are given, and defaults for the rest; rectangles cover all mirror modules"""
    arcus()
    from marxs.math.utils import xyz2zxy
    from marxs.missions.arcus import defaults as D
    from marxs.missions.arcus import spo
    from marxs.source import JitterPointing, PointSource
    rng = c.rng
    seed = int(rng.integers(2**31))
    ref = dict(coords=SkyCoord(30., 30., unit='deg'), energy=.5 * u.keV, flux=1 / u.s / u.cm**2)
    own = dict(coords=SkyCoord(rng.uniform(0, 360), rng.uniform(-80, 80), unit='deg'), energy=rng.uniform(.3, 5) * u.keV, flux=rng.uniform(.5, 3) / u.s / u.cm**2,
               polarization=rng.uniform(0, 3) * u.rad)
    use = {k: v for k, v in own.items() if rng.uniform() < .5}
    area = rng.uniform(50, 200) * u.cm**2
    c.note(given=list(use))
    np.random.seed(seed)
    a = D.DefaultSource(geomarea=area, **use).generate_photons(3 * u.s)
    np.random.seed(seed)
    b = PointSource(geomarea=area, **(ref | use)).generate_photons(3 * u.s)
    c.check(len(a) == len(b) and all(np.array_equal(a[k], b[k]) for k in b.colnames), 'default-source', 'the default source uses the parameters given, and defaults for others', got=len(a), want=len(b))
    ref = dict(coords=SkyCoord(30., 30., unit='deg'), reference_transform=xyz2zxy, jitter=arcus()['jitter'] / 2.3545 * u.arcsec)
    own = dict(coords=SkyCoord(rng.uniform(0, 360), rng.uniform(-80, 80), unit='deg'), reference_transform=np.eye(4), jitter=rng.uniform(.1, 10) * u.arcsec, roll=rng.uniform(0, 300) * u.deg)
    use = {k: v for k, v in own.items() if rng.uniform() < .5}
    c.note(pointing=list(use))
    np.random.seed(seed)
    a = D.DefaultPointing(**use)(b.copy())
    np.random.seed(seed)
    b = JitterPointing(**(ref | use))(b.copy())
    for k in ('dir', 'polarization'):
        c.close(np.asarray(a[k]), np.asarray(b[k]), 'default-pointing', f'the default pointing uses the parameters given, and defaults for others: {k}', rtol=0, atol=1e-9)
    c.check({k: a.meta[k] for k in b.meta} == dict(b.meta), 'default-pointing', 'the header is that of the pointing')
    # rectangles
    n = int(rng.integers(1, 9))
    xy = rng.normal(size=(n, 2)) * 10**rng.uniform(0, 3, 2) + rng.normal(size=2) * 300
    p4 = [G.aff(np.append(v, rng.normal()), G.rot(rng), [1., 2, 3]) for v in xy]
    r0 = rng.uniform(100, 900, n)
    geom = Table(dict(azwidth=rng.uniform(20, 60, n), inner_radius=r0, outer_radius=r0 + rng.uniform(10, 70, n)))
    s = [{}, dict(azscale=rng.uniform(0, 2), rscale=rng.uniform(0, 2))][int(rng.integers(2))]
    got = np.asarray(spo.zoom_to_cover_all_spos(dict(spo_pos4d=p4, spo_geom=geom), **s), float)
    mid = (xy.max(axis=0) + xy.min(axis=0)) / 2
    half = (xy.max(axis=0) - xy.min(axis=0)) / 2
    size = np.array([geom['azwidth'].max(), (geom['outer_radius'] - geom['inner_radius']).max()])
    want = half + size * [s.get('azscale', .8), s.get('rscale', 1.1)]
    c.close(got, np.append(1., want), 'cover', 'the rectangle extends from the outermost modules by a fraction of their size', rtol=1e-9)
    c.close(spo.rmid_spo(dict(spo_pos4d=p4, spo_geom=geom)), mid[1], 'cover', 'the rectangle is in the middle of the modules', rtol=0, atol=1e-9)
    c.seen('defaults', (tuple(use), n))


@W(quick=8, thorough=80, cpu=300)
def axis_path(c):
    """AXIS with and without gratings"""
    arcus()
    import marxs.missions.AXIS.AXIS as X
    C = arcus()
    rng = c.rng
    conf = copy.deepcopy(X.conf)
    conf['grating_size'] = np.array([[80., 160.], [100., 100.], [60., 120.]][int(rng.integers(3))])
    conf['mirrorgeometricscaling'] = float(rng.choice([.61, rng.uniform(.2, 1)]))
    gr = rng.uniform() < .7
    if not gr and rng.uniform() < .5:
        conf['chirp_energy'], conf['chirp_order'] = .6, -5.4
    was = state(conf)
    c.note(size=conf['grating_size'], gratings=gr)
    inst = X.PerfectAXIS(conf=conf, gratings=gr)
    c.check(state(conf) == was, 'conf', 'building an instrument does not change its configuration', got=[k for k in was if state(conf[k]) != was[k]])
    off = float(rng.choice([0., rng.uniform(0, .03)]))
    t = source(rng, 3000, (.3, 2.), off, area=inst.elements[0].area)
    out, log = run(c, inst, t)
    names = [getattr(e, '__name__', type(e).__name__) for e in inst.elements]
    path(c, log, names)
    E = log[0]['energy']
    geom = conf['metashellgeometry']
    shells(c, out, log, [(int(r['Metashell Serial Number']), float(r['r_inner']), float(r['r_outer'])) for r in geom])
    focus(c, log[0], log[3], 9000., 9000., 5e-6, 'the mirror')
    c.close(log[2]['probability'], log[1]['probability'] * conf['mirrorgeometricscaling'], 'mirror-scaling', 'part of the area is open', rtol=1e-12)
    unchanged(c, log[1], log[2], ('pos', 'dir', 'polarization'), 'the scaling')
    c.same(log[3]['probability'], log[2]['probability'], 'kept', 'scatter does not change probabilities')
    scatter(c, log[2]['dir'], log[3]['dir'], log[2]['pos'], np.array([9000., 0., 0]), conf['inplanescatter'], conf['perpplanescatter'], 'the mirror')
    i = 3
    c.check(len(inst.elements_of_class(X.LynxGAS)) == gr, 'gratings', 'there are gratings if asked for')
    if gr:
        gas = inst.elements_of_class(X.LynxGAS)[0]
        spaced(c, gas, conf)
        ids, by = members(c, gas, 'facet', out, log[3], log[4], 'grating')
        diffracted(c, out, log[3], log[4], ids, by, conf['gas_kwargs']['elem_args'])
        c.close(log[5]['probability'], np.where(ids >= 0, log[4]['probability'], 0), 'frame', 'photons that do not meet a grating are absorbed in the frame', rtol=1e-12)
        i = 5
    f = np.prod([tabulated(C['curves'][k], E) for k in FILTERS], axis=0)
    c.close(log[i + 1]['probability'], log[i]['probability'] * f, 'filter', 'filters, contamination and detector reduce the probability as in the calibration', rtol=1e-7)
    for a, b in zip(log[i + 1:-1], log[i + 2:]):
        unchanged(c, a, b, ('dir', 'polarization', 'probability'), 'the detectors')
    det = inst.elements_of_class(X.RowlandDetArray)[0]
    k = [j for j, e in enumerate(inst.elements) if e is det][0]
    camera(c, det, conf['det_kwargs']['y_range'])
    ccd, cby = members(c, det, 'CCD_ID', out, log[k - 1], log[k], 'CCD', coos=('det_x', 'det_y'))
    pixels(c, out, ccd >= 0, [24.576, 12.288], .024)
    # imaging detector
    if 'imaging_x' in out.colnames:
        P = log[k + 1]['pos']
        x = np.column_stack([np.asarray(out[n], float) for n in ('imaging_x', 'imaging_y')])
        v = np.isfinite(x).all(axis=1)
        c.close(P[v, 0], 0, 'imaging', 'the imaging detector is in the focal plane', rtol=0, atol=1e-6)
        c.close(x[v], P[v, 1:3], 'imaging', 'imaging coordinates are the position in the focal plane', rtol=0, atol=1e-6)
        pix = np.column_stack([np.asarray(out[n], float) if n in out.colnames else np.full(len(out), np.nan) for n in ('imagingpix_x', 'imagingpix_y')])
        c.close(pix[v], x[v] / .008 + 15 / .008 - .5, 'imaging-pixel', 'pixels of the imaging detector count from its corner', rtol=0, atol=1e-5)
        c.check(np.abs(x[v]) <= 15 + 1e-6, 'imaging', 'the imaging detector is 30 mm wide')
        c.count('detected', int(v.sum()))
    c.check('AXIS' in np.atleast_1d(out.meta.get('SATELLIT')), 'tag', 'photons are tagged with the name of the satellite', got=out.meta.get('SATELLIT'))
    c.count('photons', len(out))
    c.seen('axis', gr)


@W(quick=6, thorough=40, cpu=300)
def for_plot(c):
    """Models for 3D plots and for other simulators have the same optics"""
    rng = c.rng
    A = arcus()['arcus']
    import marxs.missions.AXIS.AXIS as X
    L = lynx()
    k = c.idx % 4
    m, names = [(A, ('PerfectArcus', 'ArcusForPlot')), (A, ('Arcus', 'ArcusForSIXTE')), (X, ('PerfectAXIS', 'AXISForPlot')), (L, ('PerfectLynx', 'LynxForPlot'))][k]
    kw = {}
    if k == 2 or k == 3:
        kw['conf'] = copy.deepcopy(m.conf)
        kw['conf']['grating_size'] = np.array([80., 160.])
    else:
        kw['channels'] = [['1', '2m'], ['1m']][int(rng.integers(2))]
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    a = getattr(m, names[0])(**kw)
    np.random.seed(seed)
    b = getattr(m, names[1])(**kw)
    c.note(model=names[1], **({'chan': kw['channels']} if 'channels' in kw else {}))
    if k < 2:
        from marxs.math.utils import xyz2zxy
        from marxs.source import FixedPointing, PointSource
        area = a.elements[0].area
        s = PointSource(coords=SkyCoord(30, 30, unit='deg'), flux=1e-4 / u.s / u.mm**2, geomarea=area, energy=lambda e: rng.uniform(.3, 2., size=len(e)) * u.keV)
        t = s.generate_photons(1500 / (1e-4 * area.to_value(u.mm**2)) * u.s)
        t = FixedPointing(coords=s.coords, reference_transform=xyz2zxy)(t)
    else:
        t = source(rng, 1500, (.3, 2.), 0., area=a.elements[0].area)
    np.random.seed(seed)
    x = a(t.copy())
    np.random.seed(seed)
    y = b(t.copy())
    optics_ = [n for n in ('aperture', 'xou', 'shell', 'facet', 'order', 'order_L1', 'mirror_x', 'mirror_y', 'grat_y', 'grat_z', 'energy', 'time', 'CCD_ID') if n in x.colnames and n in y.colnames]
    if k == 0:
        optics_.append('CCD')
    c.check(len(optics_) >= 6, 'variant', 'both models record the path through the optics', got=optics_)
    for n in optics_:
        c.same(np.asarray(x[n]), np.asarray(y[n]), 'variant', f'{n} of {names[1]} is that of {names[0]}')
    if k == 1:
        c.check(np.asarray(y['probability']) >= np.asarray(x['probability']) * (1 - 1e-12), 'variant', 'SIXTE simulates filters and detectors itself')
        v = np.isfinite(np.asarray(x['detfp_x'], float)) & np.isfinite(np.asarray(y['detfp_x'], float))
        c.close(np.asarray(y['detfp_x'])[v], np.asarray(x['detfp_x'])[v], 'variant', 'photons reach the same place in the focal plane', rtol=0, atol=1e-5)
        c.check(v.sum() > 100, 'variant', 'photons reach the focal plane', n=int(v.sum()))
    elif k == 0:
        # rods of the boom absorb some photons
        h = np.asarray(y['hitrod']).astype(bool) if 'hitrod' in y.colnames else np.zeros(len(y), bool)
        c.same(np.asarray(y['probability'])[~h], np.asarray(x['probability'])[~h], 'variant', 'photons that do not hit the boom have the same probability')
        c.check(np.asarray(y['probability'])[h] == 0, 'variant', 'photons that hit the boom are absorbed')
    else:
        c.same(np.asarray(x['probability']), np.asarray(y['probability']), 'variant', 'probabilities are the same')
    c.count('variants', 1)
    c.seen('variant', names[1])


@W(quick=12, thorough=120)
def inputs(c):
    """Numbers and tables of the calibration are read with their units; a number that is not unique is refused"""
    import os
    import tempfile
    arcus()
    from marxs.missions.arcus import load_csv as A
    from marxs.missions.arcus.utils import config
    from marxs.missions.lynx import load_csv as L
    rng = c.rng
    units = [None, u.mm, u.arcsec, u.keV, u.deg]
    names = [f'v{i}' for i in range(int(rng.integers(1, 4)))]
    unit = [units[int(rng.integers(5))] for _ in names]
    old = config['data']['caldb_inputdata']
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, 'sub'))
        for n in (1, int(rng.integers(2, 6)), 0):
            val = rng.normal(size=(len(names), n)) * 10**rng.uniform(-3, 3)
            t = Table({k: v if w is None else v * w for k, v, w in zip(names, val, unit)})
            file = os.path.join(d, 'sub', f'f{n}.csv')
            t.write(file, format='ascii.ecsv', overwrite=True)
            config['data']['caldb_inputdata'] = d
            try:
                for M, arg in ((A, ('sub', f'f{n}')), (L, (file,))):
                    if n:
                        o = M.load_table(*arg)
                        c.check(list(o.colnames) == names and len(o) == n, 'load', 'the table is read', got=o.colnames)
                        for k, v, w in zip(names, val, unit):
                            c.close(np.asarray(o[k], float), v, 'load', 'values of a table', rtol=1e-12)
                            c.check(o[k].unit == w, 'load', 'unit of a column', got=str(o[k].unit))
                    for k, v, w in zip(names, val, unit):
                        if n == 1:
                            x = M.load_number(*arg, k)
                            c.close(float(getattr(x, 'value', x)), v[0], 'load', 'value of a number', rtol=1e-12)
                            c.check((w is None and not getattr(x, 'unit', None)) or getattr(x, 'unit', None) == w, 'load', 'unit of a number', got=str(x))
                        else:
                            c.raises(M.DataFileFormatException, lambda: M.load_number(*arg, k), 'load', 'a table without a single row has no number')
            finally:
                config['data']['caldb_inputdata'] = old
    c.count('inputs')
