"""C03: photons are never lost, reordered, mixed up or touched where they miss."""
import numpy as np

from vmon import gen
from vmon.core import Registry

W = Registry('C03', rule='photon lists before and after real elements were compared row by row',
             require={'photons_missed': 1500, 'photons_met': 1500, 'splits': 100, 'empty_lists': 20, 'long lists': 20, 'random elements one by one': 12},
             assumptions=['photons within a relative 1e-7 of an edge are not decided',
                          'results of vectorised arithmetic may differ by rounding when a list is split'])

KEEP = ('time', 'energy', 'polangle', 'ra', 'dec', 'serial', 'mytag')


def same_photons(c, name, o, t):
    if not c.check(len(o) == len(t), 'photon-lost', f'{name}: {len(t)} photons in, {len(o)} out'):
        return False
    for k in KEEP:
        c.check(k in o.colnames, 'source-column-lost', f'{name}: {k}')
        if k in o.colnames:
            c.same(o[k], t[k], 'source-column-changed', f'{name}: {k}')
    return True


def untouched(c, name, o, t, miss, absorbed=False):
    for k in t.colnames:
        if k == 'probability' and absorbed:
            c.same(np.asarray(o[k])[miss], np.zeros(miss.sum()), 'miss-not-absorbed', f'{name}: photons outside the opening are removed')
            continue
        c.same(np.asarray(o[k])[miss], np.asarray(t[k])[miss], 'miss-touched', f'{name}: {k} of photons that miss')
    for k in o.colnames:
        if k in t.colnames:
            continue
        a = np.asarray(o[k])[miss]
        if a.dtype.kind == 'f':
            c.check(np.isnan(a), 'miss-marked', f'{name}: new column {k} of photons that miss is not filler')
        elif a.dtype.kind == 'i':
            c.check(a < 0, 'miss-marked', f'{name}: new column {k} of photons that miss is not filler')
    c.count('photons_missed', miss.sum())


def equal_rows(c, name, a, b, mech):
    # columns appear only when a photon of the list meets the element
    for k in set(a.colnames) ^ set(b.colnames):
        v = np.asarray((a if k in a.colnames else b)[k])
        c.check(np.isnan(v) if v.dtype.kind == 'f' else v < 0, mech, f'{name}: column {k} is filled in one part only')
    for k in a.colnames:
        if k not in b.colnames:
            continue
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.dtype.kind == 'f':
            c.close(x, y, mech, f'{name}: column {k}', rtol=1e-9, atol=1e-9)
        else:
            c.check(x == y, mech, f'{name}: column {k}')


def absorbed(rng, t):
    """some or all photons have been absorbed before"""
    f = rng.choice([0, 0, 0, .3, 1])
    t['probability'][rng.uniform(size=len(t)) < f] = 0


@W(quick=500, thorough=6000)
def element(c):
    S = gen.specs()
    names = list(S)
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng)
    e = s.make(c.rng, p4)
    mode = c.idx % 5
    kw = [{}, {}, dict(spread=.9), dict(away=1.), dict(spread=4.)][mode]
    t = s.photons(c.rng, p4, int(c.rng.choice([1, 2, 17, 60])), **kw)
    if c.rng.uniform() < .3:   # list that was already processed by an element of the same kind
        t = s.make(c.rng, gen.rigid(c.rng) @ p4)(t)
        t = t[np.isfinite(t['dir'].data).all(1)]   # evanescent orders
    absorbed(c.rng, t)
    t0 = t.copy()
    c.note(element=s.name, pose=p4, mode=mode, n=len(t))
    c.seen('element', s.name)
    lim = (-np.pi, np.pi) if s.surface == 'plane' else tuple(e.geometry.coos_limits[0])
    dec, hit = gen.ref_hits(p4, t, s.surface, lim)
    o = e(t)
    if same_photons(c, s.name, o, t0):
        miss = dec & ~hit
        untouched(c, s.name, o, t0, miss, s.misses == 'absorbed')
        c.count('photons_met', (dec & hit).sum())
        c.check(np.any(o['pos'].data != t0['pos'].data) or not (dec & hit).any() or s.name == '', 'not-processed',
                f'{s.name}: photons that hit are moved to the surface')


@W(quick=300, thorough=3000)
def split(c):
    """deterministic elements: any subset, order or split gives the same photons"""
    S = gen.deterministic_specs()
    names = list(S)
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng)
    e = s.make(c.rng, p4)
    n = 24
    t = s.photons(c.rng, p4, n)
    absorbed(c.rng, t)
    lim = (-np.pi, np.pi) if s.surface == 'plane' else tuple(e.geometry.coos_limits[0])
    dec, hit = gen.ref_hits(p4, t, s.surface, lim)
    t = t[dec]
    n = len(t)
    hit = hit[dec]
    if n < 4:
        c.skip()
    c.note(element=s.name, pose=p4)
    c.seen('element', s.name)
    full = e(t.copy())
    perm = c.rng.permutation(n)
    equal_rows(c, s.name, e(t[perm]), full[perm], 'order-dependent')
    c.count('splits')
    k = int(c.rng.integers(1, n))
    for part in (slice(0, k), slice(k, n)):
        equal_rows(c, s.name, e(t[part].copy()), full[part], 'split-dependent')
        c.count('splits')
    i = int(c.rng.integers(n))
    equal_rows(c, s.name, e(t[i:i + 1].copy()), full[i:i + 1], 'split-dependent')
    for sub in (hit, ~hit):
        if sub.any():
            o = e(t[sub])
            f = full[sub]
            for col in o.colnames:
                x, y = np.asarray(o[col]), np.asarray(f[col])
                if x.dtype.kind == 'f':
                    c.close(x, y, 'split-dependent', f'{s.name}: column {col}', rtol=1e-9, atol=1e-9)
                else:
                    c.check(x == y, 'split-dependent', f'{s.name}: column {col}')
    # duplicates: the same photon twice comes out the same twice
    dup = np.r_[np.arange(n), np.arange(n)]
    o = e(t[dup])
    equal_rows(c, s.name, o[:n], o[n:], 'order-dependent')
    c.count('photons_met', hit.sum())


@W(quick=30, thorough=240, cpu=120)
def large(c):
    """long lists give the same as their parts"""
    S = gen.deterministic_specs()
    names = list(S)
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng)
    e = s.make(c.rng, p4)
    n = int(c.rng.choice([3000, 12000, 25000] if not s.name == 'ThinLens' else [3000]))
    if c.thorough and c.idx % 40 == 7:
        n = 120000
    t = s.photons(c.rng, p4, 500)
    # a photon in the middle of the list is compared to its copies everywhere else
    i = c.rng.integers(500, size=n)
    full = e(t[i])
    c.check(len(full) == n, 'photon-lost', f'{s.name}: {n} photons in, {len(full)} out')
    ref = e(t.copy())
    c.note(element=s.name, pose=p4, n=n)
    equal_rows(c, s.name, full, ref[i], 'length-dependent')
    c.count('long lists')
    c.seen('element', s.name)


@W(quick=22, thorough=220, cpu=120)
def one_by_one(c):
    """random elements: the distribution of results does not depend on the other photons in the list"""
    from scipy import stats
    S = {k: v for k, v in gen.specs().items() if v.random}
    names = list(S)
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng)
    e = s.make(c.rng, p4)
    np.random.seed(c.seed % 2**32)
    n = 400
    t = s.photons(c.rng, p4, 40)
    lim = (-np.pi, np.pi) if s.surface == 'plane' else tuple(e.geometry.coos_limits[0])
    dec, hit = gen.ref_hits(p4, t, s.surface, lim)
    h = np.flatnonzero(dec & hit)
    if len(h) == 0:
        c.skip()
    i = int(h[0])
    c.note(element=s.name, pose=p4)
    alone = e(t[np.full(n, i)])
    mix = np.r_[np.full(n, i), c.rng.integers(40, size=n)]
    perm = c.rng.permutation(2 * n)
    mixed = e(t[mix[perm]])[perm < n]
    ones = [e(t[i:i + 1].copy()) for _ in range(n)]

    def values(tab, k):
        v = np.concatenate([np.asarray(o[k], float) for o in tab]) if isinstance(tab, list) else np.asarray(tab[k], float)
        return v.reshape(n, -1)
    for k in alone.colnames:
        if any(k not in o.colnames for o in [mixed] + ones):
            c.check(False, 'split-dependent', f'{s.name}: column {k} is missing for some lists')
            continue
        if np.asarray(alone[k]).dtype.kind not in 'fiu':
            continue
        a, b, m = values(alone, k), values(ones, k), values(mixed, k)
        # what is not random is the same, but for rounding
        for j in range(a.shape[1]):
            x = [np.where(np.isfinite(v[:, j]), v[:, j], -1e99) for v in (a, b, m)]
            scale = 1e-9 * (1 + np.abs(x[0][np.abs(x[0]) < 1e90]).max(initial=0))
            if np.ptp(np.concatenate(x)) <= scale:
                continue
            q = [np.round(v / scale) for v in x]
            for v, what in ((q[1], 'alone in the list'), (q[2], 'among others')):
                c.pvalue(stats.ks_2samp(q[0], v, method='asymp').pvalue, 'split-distribution', f'{s.name}: {k}[{j}] of a photon {what} and among its copies', copies=x[0][:3], other=v[:3] * scale)
    c.count('random elements one by one')


@W(quick=60, thorough=300)
def empty(c):
    S = gen.specs()
    names = list(S)
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng)
    e = s.make(c.rng, p4)
    t = s.photons(c.rng, p4, 5)[:0]
    c.note(element=s.name)
    o = e(t.copy())
    c.check(len(o) == 0, 'empty-list', f'{s.name}: an empty list stays empty')
    c.check(set(t.colnames) <= set(o.colnames), 'empty-list', f'{s.name}: columns are kept')
    c.count('empty_lists')


@W(quick=120, thorough=2000)
def chain(c):
    """random chains, including groups; every boundary is observed"""
    from marxs.simulator import Parallel, Sequence, Propagator
    from marxs import optics
    rng = c.rng
    S = gen.specs()
    t = gen.beam(rng, 40)
    first = t.copy()
    kinds = []
    elems = []
    snaps = [t.copy()]
    for k in range(int(rng.integers(3, 8 if not c.thorough else 16))):
        pos, d = t['pos'].data, t['dir'].data
        if np.isfinite(d).all(1).sum() < 3:
            break
        r = rng.uniform()
        if r < .15:
            e = Propagator(distance=float(rng.normal() * 10))
            kinds.append('Propagator')
        elif r < .3:
            sp = S['FlatDetector']
            p4 = gen.place(rng, t, sp)
            e = Parallel(elem_class=optics.FlatDetector, pos4d=gen.aff(p4[:3, 3], p4[:3, :3] / np.linalg.norm(p4[:3, :3], axis=0)),
                         elem_pos=[gen.aff([0., y, z]) for y in (-6., 6.) for z in (-6., 6.)], id_col=f'chip{k}',
                         elem_args={'zoom': [1, 5.5, 5.5], 'pixsize': .5})
            kinds.append('Parallel')
        elif r < .4:
            e = optics.GlobalEnergyFilter(filterfunc=gen.filterfunc(rng))
            kinds.append('GlobalEnergyFilter')
        else:
            name = str(rng.choice(gen.CHAINABLE))
            e = S[name].make(rng, gen.place(rng, t, S[name]))
            kinds.append(name)
        if kinds[-1] in ('MultiLayerMirror', 'CATL1L2Stack', 'L1') and False:
            pass
        elems.append(e)
        before = t.copy()
        state = np.random.get_state()
        t = e(t)
        if not same_photons(c, kinds[-1], t, before):
            return
        c.check(set(before.colnames) <= set(t.colnames), 'column-lost', f'{kinds[-1]}: columns survive')
        c.count('boundaries')
        c.seen('pair', '>'.join(kinds[-2:]))
        if kinds[-1] == 'Parallel':
            ids = t[f'chip{k}'].data if f'chip{k}' in t.colnames else -np.ones(len(t))
            miss = ids < 0
            untouched(c, 'Parallel', t, before, miss)
            c.count('photons_met', (~miss).sum())
    c.note(chain=kinds)
    same_photons(c, 'chain', t, first)


@W(quick=60, thorough=1500)
def along(c):
    """moving photons along their path, and element code that works in the frame of the element"""
    from marxs.optics.base import OpticalElement, photonlocalcoords
    from marxs.simulator import Propagator
    from marxs.simulator.simulator import propagate
    rng = c.rng
    t = gen.beam(rng, int(rng.integers(1, 60)))
    t['tag'] = np.arange(len(t))
    was = t.copy()
    d = float(rng.choice([0., rng.normal() * 10, -rng.uniform(0, 1e4)]))
    p, v = np.array(was['pos'], float), np.array(was['dir'], float)
    for name, f in (('propagate', lambda x: propagate(x, d)), ('Propagator', Propagator(distance=d))):
        o = f(was.copy())
        c.close(np.asarray(o['pos']), p + d * v, 'propagated', f'{name} moves photons by the distance', rtol=1e-12, atol=1e-12)
        for k in was.colnames:
            if k != 'pos':
                c.same(np.asarray(o[k]), np.asarray(was[k]), 'untouched', f'{name} does not change {k}')
        back = propagate(o, -d)
        c.close(np.asarray(back['pos']), p, 'propagated', 'photons can be moved back', rtol=1e-9, atol=1e-9 * (1 + abs(d)))
        c.check(o.colnames == was.colnames and len(o) == len(was), 'column-lost', f'{name} keeps all columns')
    p4 = gen.pose(rng)
    seen = {}

    class Local(OpticalElement):
        @photonlocalcoords
        def step(self, photons, far, side=0.):
            seen['pos'], seen['dir'] = np.array(photons['pos']), np.array(photons['dir'])
            photons['pos'] = photons['pos'] + far * photons['dir'] + np.array([0, side, 0, 0])
            photons['dir'] = photons['dir'] * [1, -1, 1, 1]
            photons['new'] = 7.
            return photons
    e = Local(pos4d=p4)
    far, side = rng.normal(size=2)
    o = e.step(was.copy(), far, side=side)
    inv = np.linalg.inv(p4)
    lp, ld = p @ inv.T, v @ inv.T
    s = 1 + np.abs(lp).max()
    c.close(seen['pos'], lp, 'local', 'positions are given in the frame of the element', rtol=1e-9, atol=1e-9 * s)
    c.close(seen['dir'], ld, 'local', 'directions are given in the frame of the element', rtol=1e-9, atol=1e-9)
    c.close(np.asarray(o['pos']), (lp + far * ld + [0, side, 0, 0]) @ p4.T, 'local', 'positions are transformed back', rtol=1e-8, atol=1e-8 * (s + np.abs(p).max()))
    c.close(np.asarray(o['dir']), (ld * [1, -1, 1, 1]) @ p4.T, 'local', 'directions are transformed back', rtol=1e-8, atol=1e-8)
    c.check(np.all(np.asarray(o['new']) == 7.), 'column-lost', 'new columns are kept')
    for k in was.colnames:
        if k not in ('pos', 'dir'):
            c.same(np.asarray(o[k]), np.asarray(was[k]), 'untouched', f'{k} is not changed')
    c.count('moved', len(t))
