"""C11: entrance apertures illuminate their open area uniformly."""
import astropy.units as u
import numpy as np
from scipy import stats

from vmon import gen
from vmon.core import Registry

W = Registry('C11', rule='positions of photons generated by real apertures were mapped to the unit square of their open area and tested',
             require={'photons_placed': 50000, 'areas': 100, 'statistical': 150, 'combined': 20, 'after_changes': 20},
             assumptions=['photons arrive with unit direction vectors',
                          'aperture coordinates are recorded in units of the half size of the aperture',
                          'combined apertures do not overlap (documented)'])


def rays(rng, n, around, half=.6):
    """photons without positions; directions mostly into the aperture"""
    th = np.arccos(1 - rng.uniform(0, 1, n) * (1 - np.cos(half)))
    ph = rng.uniform(0, 2 * np.pi, n)
    e2 = gen.unit(np.cross(around, rng.normal(size=3)))
    e3 = np.cross(around, e2)
    d = -(np.cos(th)[:, None] * around + np.sin(th)[:, None] * (np.cos(ph)[:, None] * e2 + np.sin(ph)[:, None] * e3))
    d[rng.uniform(size=n) < .05] *= -1      # through the back
    t = gen.table(rng, np.zeros((n, 3)), d)
    if rng.uniform() < .8:
        t.remove_column('pos')
    return t


def grid2d(c, a, b, mech, msg, n=8):
    """(a, b) uniform on the unit square: margins and joint distribution"""
    c.count('statistical', 3)
    c.pvalue(stats.kstest(a, 'uniform').pvalue, mech, f'{msg}: first coordinate')
    c.pvalue(stats.kstest(b, 'uniform').pvalue, mech, f'{msg}: second coordinate')
    H = np.histogram2d(a, b, bins=n, range=[[0, 1], [0, 1]])[0]
    if len(a) >= 10 * n * n:
        c.pvalue(stats.chisquare(H.ravel()).pvalue, mech, f'{msg}: joint distribution')


def independent(c, x, ys, mech, msg):
    for k, y in ys.items():
        c.count('statistical')
        c.pvalue(stats.spearmanr(x, y).pvalue, mech, f'{msg}: independent of {k}')


def make(rng, p4, kind):
    """aperture, open area, map of local (mm) coordinates to the unit square"""
    from marxs import optics
    cen, ax, z = gen.frame(p4)
    if kind == 'rect':
        return (optics.RectangleAperture(pos4d=p4), 4 * z[1] * z[2],
                lambda y, zz: ((y / z[1] + 1) / 2, (zz / z[2] + 1) / 2))
    R = z[1]
    kw = {}
    ri, p0, dp = 0., 0., 2 * np.pi
    if 'ring' in kind:
        ri = R * rng.uniform(.1, .97)
        kw['r_inner'] = ri
    if 'wedge' in kind:
        p0 = rng.uniform(-6, 3)
        dp = rng.uniform(.05, 2 * np.pi)
        kw['phi'] = [p0, p0 + dp] if rng.uniform() < .5 else np.array([p0, p0 + dp])
    return (optics.CircleAperture(pos4d=p4, **kw), dp / 2 * (R**2 - ri**2),
            lambda y, zz: ((y**2 + zz**2 - ri**2) / (R**2 - ri**2), (np.arctan2(zz, y) - p0 + 1e-12) % (2 * np.pi) / dp))


KINDS = ['rect', 'circ', 'circ-ring', 'circ-wedge', 'circ-ring-wedge']


def on_surface(c, p4, o, sel, mapping, msg):
    cen, ax, z = gen.frame(p4)
    q = (o['pos'].data[sel, :3] - cen) @ ax
    c.close(q[:, 0], 0., 'on-surface', f'{msg}: positions in the plane of the aperture', atol=1e-8 * np.abs(p4).max())
    c.close(o['pos'].data[sel, 3], 1., 'on-surface', f'{msg}: homogeneous points')
    a, b = mapping(q[:, 1], q[:, 2])
    c.check((a > -1e-7) & (a < 1 + 1e-7) & (b > -1e-7) & (b < 1 + 1e-7), 'inside', f'{msg}: positions inside the open area')
    c.close(np.asarray(o['y'])[sel] * z[1], q[:, 1], 'coordinates', f'{msg}: recorded first coordinate', atol=1e-7 * np.abs(p4).max())
    c.close(np.asarray(o['z'])[sel] * z[2], q[:, 2], 'coordinates', f'{msg}: recorded second coordinate', atol=1e-7 * np.abs(p4).max())
    return np.clip(a, 0, 1), np.clip(b, 0, 1)


@W(quick=60, thorough=600)
def single(c):
    rng = c.rng
    kind = KINDS[c.idx % len(KINDS)]
    p4 = gen.pose(rng, equal=kind != 'rect')
    if rng.uniform() < .2:
        p4[:3, 1:3] *= 1e-2
    a, area, mapping = make(rng, p4, kind)
    n = 1500
    t = rays(rng, n, gen.frame(p4)[1][:, 0])
    t0 = t.copy()
    o = a(t)
    c.note(kind=kind, pose=p4)
    c.seen('kind', kind)
    c.check(len(o) == n and np.all(o['serial'] == t0['serial']), 'photons', 'same photons in the same order')
    A, B = on_surface(c, p4, o, np.ones(n, bool), mapping, kind)
    grid2d(c, A, B, 'uniform', kind, 8)
    independent(c, A, {'energy': t0['energy'], 'order': np.arange(n), 'direction': t0['dir'].data[:, 1]}, 'uniform', kind)
    mu = -t0['dir'].data[:, :3] @ gen.frame(p4)[1][:, 0]
    c.close(o['probability'], t0['probability'] * np.clip(mu, 0, 1), 'projection', 'probability times the projection factor', rtol=1e-9, atol=1e-12)
    for k in ('dir', 'polarization', 'energy', 'time'):
        c.same(o[k], t0[k], 'untouched', k)
    c.count('photons_placed', n)
    q = u.Quantity(a.area)
    c.close(q.to_value(u.mm**2), area, 'area', f'{kind}: collecting area', rtol=1e-9)
    c.count('areas')


def disjoint(rng, n):
    out = []
    for i in range(n):
        kind = KINDS[rng.integers(len(KINDS))]
        p4 = gen.pose(rng, ysize=(2, 20), equal=kind != 'rect', shift=0)
        p4[:3, 3] = [0, 0, 100. * i]
        out.append((kind, p4) + make(rng, p4, kind))
    return out


@W(quick=40, thorough=400)
def combined(c):
    from marxs.optics import MultiAperture
    rng = c.rng
    k = int(rng.integers(1, 6))
    parts = disjoint(rng, k)
    if k > 2 and rng.uniform() < .4:      # several concentric rings
        R = np.sort(rng.uniform(2, 40, 2 * k))
        base = gen.rigid(rng)
        from marxs.optics import CircleAperture
        parts = []
        for i in range(k):
            p4 = base @ np.diag([1, R[2 * i + 1], R[2 * i + 1], 1])
            ri, ro = R[2 * i], R[2 * i + 1]
            parts.append(('circ-ring', p4, CircleAperture(pos4d=p4, r_inner=ri), np.pi * (ro**2 - ri**2),
                          lambda y, z, ri=ri, ro=ro: ((y**2 + z**2 - ri**2) / (ro**2 - ri**2), np.arctan2(z, y) % (2 * np.pi) / (2 * np.pi))))
    areas = np.array([p[3] for p in parts])
    off = int(rng.choice([0, 0, 5]))
    kw = {} if not off else {'id_num_offset': off}
    col = 'aperture'
    if rng.uniform() < .4:
        col = kw['id_col'] = 'xou'
    log = []
    m = MultiAperture(elements=[p[2] for p in parts], preprocess_steps=[lambda t: log.append('pre')],
                      postprocess_steps=[lambda t: log.append('post')], **kw)
    n = 2500
    t = rays(rng, n, gen.unit(rng.normal(size=3)), np.pi / 2)
    t0 = t.copy()
    o = m(t)
    c.note(kinds=[p[0] for p in parts], areas=areas, offset=off)
    c.count('combined')
    c.count('photons_placed', n)
    c.check(log == ['pre', 'post'] * k, 'steps', 'steps around each aperture')
    c.check(len(o) == n and np.all(o['serial'] == t0['serial']), 'photons', 'same photons in the same order')
    c.close(u.Quantity(m.area).to_value(u.mm**2), areas.sum(), 'area', 'sum of the areas', rtol=1e-9)
    c.count('areas')
    ids = np.asarray(o[col]) - off
    c.check((ids >= 0) & (ids < k), 'aperture-id', 'every photon has one aperture')
    cnt = np.array([(ids == i).sum() for i in range(k)])
    ex = n * areas / areas.sum()
    big = ex >= 10
    if big.sum() > 1:
        O, E = np.append(cnt[big], cnt[~big].sum()), np.append(ex[big], ex[~big].sum())
        O, E = (O, E) if E[-1] > 5 else (O[:-1], E[:-1])
        c.count('statistical')
        c.pvalue(stats.chisquare(O, E * O.sum() / E.sum()).pvalue, 'shares', 'photons in proportion to area', got=O, want=E)
        independent(c, ids, {'order': np.arange(n), 'energy': t0['energy']}, 'shares', 'aperture')
        # neighbours in the list are independent of each other
        c.pvalue(stats.spearmanr(ids[1:], ids[:-1]).pvalue, 'shares', 'aperture of consecutive photons')
    pr = np.zeros(n)
    for i, (kind, p4, a, area, mapping) in enumerate(parts):
        s = ids == i
        if not s.any():
            continue
        A, B = on_surface(c, p4, o, s, mapping, f'aperture {i} {kind}')
        if s.sum() > 30:
            grid2d(c, A, B, 'uniform', f'aperture {i} {kind}', 4)
        pr[s] = np.clip(-t0['dir'].data[s, :3] @ gen.frame(p4)[1][:, 0], 0, 1)
    c.close(o['probability'], np.asarray(t0['probability']) * pr, 'projection', 'projection of the aperture of each photon', rtol=1e-9, atol=1e-12)


@W(quick=30, thorough=300)
def changes(c):
    """shares and total follow the apertures as they are when the photons arrive"""
    from marxs.optics import MultiAperture
    rng = c.rng
    k = int(rng.integers(2, 5))
    parts = disjoint(rng, k)
    m = MultiAperture(elements=[p[2] for p in parts])
    areas = np.array([p[3] for p in parts])
    for step in range(3):
        t = rays(rng, 1500, gen.unit(rng.normal(size=3)), np.pi / 2)
        o = m(t)
        c.close(u.Quantity(m.area).to_value(u.mm**2), areas.sum(), 'area', f'sum of the areas after {step} changes', rtol=1e-9)
        c.count('areas')
        cnt = np.bincount(np.asarray(o['aperture'], int), minlength=len(areas))
        ex = 1500 * areas / areas.sum()
        c.count('statistical')
        for i in range(len(areas)):
            c.pvalue(stats.binomtest(int(cnt[i]), 1500, min(1., areas[i] / areas.sum())).pvalue, 'shares',
                     f'photons in proportion to area after {step} changes', got=cnt, want=ex)
        what = str(rng.choice(['resize', 'replace']))
        kind = KINDS[rng.integers(len(KINDS))]
        p4 = gen.pose(rng, ysize=(2, 20), equal=kind != 'rect', shift=0)
        i = int(rng.integers(len(areas)))
        if what == 'resize' and parts[i][0] in ('rect', 'circ', 'circ-wedge'):
            f = rng.uniform(.2, 3)
            m.elements[i].geometry.pos4d = m.elements[i].geometry.pos4d @ np.diag([1, f, f, 1])
            areas[i] *= f**2
        else:
            what = 'replace'
            p4[:3, 3] = [0, 0, 100. * i]
            a, area, mapping = make(rng, p4, kind)
            a.id_num, a.id_col = i, 'aperture'
            m.elements[i] = a
            parts[i] = (kind,)
            areas[i] = area
        c.seen('change', what)
        c.count('after_changes')


@W(quick=20, thorough=100)
def rejects_and_state(c):
    from marxs import optics
    from marxs.base import GeometryError
    rng = c.rng
    R = rng.uniform(1, 50)
    for kw, e in ((dict(zoom=R, r_inner=R * 1.2), ValueError), (dict(zoom=[1, R, 1.3 * R]), GeometryError),
                  (dict(zoom=R, phi=[0, 30.]), ValueError), (dict(zoom=R, phi=[2., 1.]), ValueError),
                  (dict(zoom=R, phi=[-1., 6.]), ValueError)):
        c.raises(e, lambda: optics.CircleAperture(**kw), 'reject', str(kw))
    # one aperture does not influence another one
    a = optics.CircleAperture(zoom=R, r_inner=R * .5)
    A = a.area
    b = optics.CircleAperture(zoom=R)
    d = optics.CircleAperture(zoom=R, r_inner=R * .9, phi=[0, 1])
    c.check(a.area == A, 'shared-state', 'area of an earlier aperture')
    c.close(b.area.to_value(u.mm**2), np.pi * R**2, 'shared-state', 'full circle made after a ring', rtol=1e-9)
    c.close(d.area.to_value(u.mm**2), .5 * R**2 * .19, 'shared-state', 'wedge', rtol=1e-9)
    c.count('areas', 3)
    from marxs.math.geometry import FinitePlane
    c.raises(KeyError, lambda: FinitePlane()['r_inner'], 'shared-state', 'a plane has no hole')
    # empty photon list
    t = rays(rng, 1, np.array([1., 0, 0]))[:0]
    o = a(t)
    c.check(len(o) == 0, 'empty', 'empty list')
    c.note(R=R)
