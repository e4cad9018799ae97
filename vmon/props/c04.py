"""C04: survival probability stays in [0, 1] and only ever shrinks."""
import numpy as np
import astropy.units as u

from vmon import gen
from vmon.core import Registry

W = Registry('C04', rule='probability factors of photons that met an element were observed',
             require={'factors': 2000, 'attenuated': 500, 'rejections': 50, 'boundaries': 100},
             assumptions=['both runs start from the same state of the numpy random number generator'])


def prob(t):
    return np.asarray(t['probability'], float)


@W(quick=560, thorough=8000)
def factor(c):
    """the factor is in [0, 1] and independent of the incoming probability"""
    S = gen.specs()
    names = list(S)
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng)
    e = s.make(c.rng, p4)
    if c.idx % 7 == 3 and s.maxangle < .7:
        t = s.photons(c.rng, p4, 30, maxangle=s.maxangle * .1)
    else:
        t = s.photons(c.rng, p4, 30)
    seed = int(c.rng.integers(2**31))
    c.note(element=s.name, pose=p4)
    c.seen('element', s.name)
    runs = []
    p0s = [np.ones(30), c.rng.uniform(0, 1, 30), np.where(c.rng.uniform(size=30) < .5, 0., 1e-200), np.zeros(30)]
    for p0 in p0s:
        x = t.copy()
        x['probability'] = p0
        np.random.seed(seed)
        runs.append(prob(e(x)))
    f = runs[0]
    c.check((f >= 0) & (f <= 1), 'out-of-range', f'{s.name}: probability in [0, 1]', f=f)
    for p0, r in zip(p0s[1:], runs[1:]):
        c.close(r, p0 * f, 'not-multiplicative', f'{s.name}: factor independent of the incoming probability',
                rtol=1e-9, atol=1e-290)
        c.check(r <= p0 * (1 + 1e-12), 'increased', f'{s.name}: probability never increases')
    c.count('factors', 30)
    c.count('attenuated', (f < 1).sum())


@W(quick=150, thorough=2500)
def chain(c):
    """probability at every boundary of a chain; efficiencies multiply"""
    from marxs import optics
    rng = c.rng
    S = gen.specs()
    t = gen.beam(rng, 40)
    kinds = []
    for k in range(int(rng.integers(3, 9))):
        if np.isfinite(t['dir'].data).all(1).sum() < 3:
            break
        name = str(rng.choice(gen.CHAINABLE))
        e = S[name].make(rng, gen.place(rng, t, S[name]))
        if rng.uniform() < .2:
            e = optics.GlobalEnergyFilter(filterfunc=gen.filterfunc(rng))
            name = 'GlobalEnergyFilter'
        kinds.append(name)
        before = prob(t).copy()
        t = e(t)
        a = prob(t)
        c.check((a >= 0) & (a <= 1), 'out-of-range', f'{name}: probability in [0, 1]')
        c.check(a <= before * (1 + 1e-12), 'increased', f'{name}: probability never increases')
        c.count('boundaries')
        c.count('factors', len(a))
        c.count('attenuated', (a < before).sum())
    c.note(chain=kinds)


@W(quick=60, thorough=600)
def product(c):
    """stacked filters, stacks and repeated groups multiply"""
    from marxs import optics
    from marxs.simulator import Sequence
    rng = c.rng
    n = 30
    t = gen.table(rng, np.column_stack([np.full(n, 50.), rng.uniform(-2, 2, (n, 2))]), np.tile([-1., 0, 0], (n, 1)))
    fs = [gen.filterfunc(rng) for _ in range(int(rng.integers(2, 6)))]
    elems = []
    for i, f in enumerate(fs):
        k = rng.integers(3)
        if k == 0:
            elems.append(optics.EnergyFilter(filterfunc=f, position=[40. - i, 0, 0], zoom=5))
        elif k == 1:
            elems.append(optics.GlobalEnergyFilter(filterfunc=f))
        else:
            elems.append(optics.FlatStack(elements=[optics.EnergyFilter], keywords=[{'filterfunc': f}],
                                          position=[40. - i, 0, 0], zoom=5))
    want = prob(t).copy()
    en = np.asarray(t['energy'])
    for f in fs:
        want = want * f(en)
    perm = rng.permutation(len(elems))
    stack = optics.FlatStack(elements=[optics.EnergyFilter] * len(fs), keywords=[{'filterfunc': f} for f in fs],
                             position=[20., 0, 0], zoom=5)
    c.note(n=len(fs), order=perm)
    c.close(prob(Sequence(elements=elems)(t.copy())), want, 'not-product', 'sequence of filters', rtol=1e-12, atol=0)
    c.close(prob(stack(t.copy())), want, 'not-product', 'flat stack of filters', rtol=1e-12, atol=0)
    c.count('factors', n * len(fs))
    c.count('attenuated', n)


class Sel:
    def __init__(self, m, p):
        self.m, self.p = m, p

    def __call__(self, energy, pol, blaze):
        return np.full(len(energy), self.m), np.broadcast_to(self.p(energy), energy.shape).copy()


@W(quick=140, thorough=1500)
def invalid(c):
    """efficiencies outside [0, 1] are reported, valid ones at the limits are accepted"""
    from marxs import optics
    rng = c.rng
    n = 20
    zoom = 5.
    t = gen.table(rng, np.column_stack([np.full(n, 50.), rng.uniform(-2, 2, (n, 2))]),
                  np.tile([-1., 0, 0], (n, 1)) + rng.normal(size=(n, 3)) * .01)
    bad = float(rng.choice([1.0001, 1.5, 50., -1e-6, -.5, -3., np.inf]))
    k = int(rng.integers(n))
    ek = float(t['energy'][k])
    good = rng.uniform(0, 1)
    onlyone = rng.uniform() < .7

    def badf(e, *a, **kw):
        e = np.asarray(e, float)
        return np.where(e == ek, bad, good) if onlyone else np.full(e.shape, bad)

    class MyElement(optics.FlatOpticalElement):
        def specific_process_photons(self, photons, intersect, interpos, intercoos):
            return {'probability': self.f(photons['energy'].data[intersect])}

    class Single(optics.FlatOpticalElement):
        loc_coos_name = ['aa', 'bb']

        def process_photon(self, dir, pos, energy, polarization):
            return dir, pos, energy, polarization, float(self.f(energy))

    def make(f):
        kind = c.idx % 7
        if kind == 0:
            return optics.EnergyFilter(filterfunc=f, zoom=zoom)
        if kind == 1:
            return optics.GlobalEnergyFilter(filterfunc=f)
        if kind == 2:
            return optics.FlatGrating(d=3e-4, order_selector=Sel(1, f), zoom=zoom)
        if kind == 3:
            return optics.PerfectLens(focallength=100., zoom=zoom, reflectivity_interpolator=lambda e, a, grid: f(e))
        if kind == 4:
            e = MyElement(zoom=zoom)
            e.f = f
            return e
        if kind == 5:
            e = Single(zoom=zoom)
            e.f = f
            return e
        return optics.FlatStack(elements=[optics.EnergyFilter, optics.FlatDetector], zoom=zoom,
                                keywords=[{'filterfunc': f}, {'pixsize': .5}])
    c.note(kind=c.idx % 7, bad=bad, onlyone=onlyone)
    c.seen('rejecting', c.idx % 7)
    if c.idx % 7 == 3 and bad < 0:      # squared: two reflections
        c.skip()
    x = t.copy()
    old = prob(x).copy()
    c.raises(ValueError, lambda: make(badf)(x), 'invalid-accepted', f'efficiency {bad} is not a probability')
    c.check((prob(x) >= 0) & (prob(x) <= 1), 'invalid-recorded', 'the invalid value was not recorded')
    if onlyone:
        c.check((prob(x)[k] <= old[k]), 'invalid-recorded', 'photon with invalid efficiency')
        # the same function is fine for a list without that photon
        y = t[np.arange(n) != k]
        o = make(badf)(y.copy())
        f = good**2 if c.idx % 7 == 3 else good
        c.close(prob(o), prob(y) * f, 'valid-rejected', 'other photons', rtol=1e-12)
    for lim in (0., 1.):
        o = make(lambda e, *a, **kw: np.full(np.shape(e), lim))(t.copy())
        c.close(prob(o), prob(t) * lim, 'valid-rejected', f'efficiency {lim}', rtol=1e-12)
    c.count('rejections')


@W(quick=40, thorough=300)
def shadow(c):
    """deep support bars seen at an angle block light, at most all of it"""
    from marxs.missions.mitsnl import catgrating as cat
    rng = c.rng
    dims = {'bardepth': rng.uniform(.1, 4.) * u.mm, 'period': .96 * u.mm, 'barwidth': rng.uniform(.02, .5) * u.mm}
    p4 = gen.pose(rng)
    e = cat.L2Abs(pos4d=p4, l2_dims=dims)
    t = gen.aim(rng, p4, 40, maxangle=1.3)
    old = prob(t).copy()
    c.note(**{k: float(v.value) for k, v in dims.items()})
    a = prob(e(t))
    c.check((a >= 0) & (a <= old * (1 + 1e-12)), 'out-of-range', 'support bars')
    c.count('factors', 40)
    c.count('attenuated', (a < old).sum())


@W(quick=30, thorough=200)
def supportbars(c):
    from marxs.missions.mitsnl.catgrating import catsupportbars
    rng = c.rng
    t = gen.beam(rng, 40)
    t['facet'] = rng.integers(-1, 5, 40)
    old = prob(t).copy()
    o = catsupportbars(t)
    c.close(prob(o), np.where(np.asarray(t['facet']) < 0, 0, old), 'support', 'photons outside of facets are absorbed', rtol=0, atol=0)
    c.count('factors', 40)
    c.note(n=40)
