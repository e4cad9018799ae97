"""C24: tolerancing studies leave instrument and photons as they found them."""
import copy
import io
import os
import tempfile
import warnings
from contextlib import redirect_stdout

import astropy.units as u
import numpy as np
from astropy.table import Table
from scipy import stats
from scipy.spatial.transform import Rotation

from vmon import gen
from vmon.core import Registry
from vmon.props.c07 import compose, make, parts

W = Registry('C24', rule='poses and parameters of all elements, the photon list and the result table were compared to references before, '
             'during and after each step of a study',
             require={'moved_behaviour': 80, 'members': 3000, 'operations': 400, 'runs': 80, 'rows': 150, 'statistical': 40, 'plots': 10},
             assumptions=['rotations of one parameter set are combined in the order x, y, z about fixed axes, as documented for euler angles sxyz',
                          'moveelem turns about the origin of the global coordinate system'])
DOF = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz']


def pars(rng, small=.1):
    """parameters for the six degrees of freedom; some left out"""
    p = dict(zip(DOF, np.append(rng.normal(size=3) * 5, rng.normal(size=3) * small)))
    kind = rng.choice(['all', 'one', 'some', 'zero', 'empty'], p=[.4, .3, .2, .05, .05])
    if kind == 'one':
        k = rng.choice(DOF)
        p = {k: p[k]}
    elif kind == 'some':
        p = {k: p[k] for k in DOF if rng.uniform() < .5}
    elif kind == 'zero':
        p = dict.fromkeys(DOF, 0.)
    elif kind == 'empty':
        p = {}
    return {k: float(v) for k, v in p.items()}


def matrix(p):
    p = {**dict.fromkeys(DOF, 0.), **p}
    return gen.aff([p['dx'], p['dy'], p['dz']], Rotation.from_euler('xyz', [p['rx'], p['ry'], p['rz']]).as_matrix())


def poses(e):
    return [np.array(x.pos4d) for x in e.elements]


def member_check(c, p, ref, U, unc, mech, msg):
    I = np.eye(4)
    for i, e in enumerate(p.elements):
        want = compose(ref['G'], I if U is None else U, ref['elems'][i], I if unc is None else unc, ref['common'])
        c.close(e.pos4d, want, mech, f'{msg}: pose of member {i}', rtol=1e-9, atol=1e-7)
        c.count('members')


@W(quick=120, thorough=2000)
def group_histories(c):
    """any order of global and individual moves of some of several groups"""
    from marxs.design.tolerancing import moveglobal, moveindividual, reset_6d
    groups = [make(c) for i in range(c.rng.integers(1, 4))]
    state = [[None, None] for g in groups]
    for k in range(c.rng.integers(2, 6)):
        which = [i for i in range(len(groups)) if c.rng.uniform() < .6] or [0]
        glob = c.rng.uniform() < .5
        p = dict(reset_6d) if c.rng.uniform() < .2 else pars(c.rng)
        keep = dict(p)
        target = [groups[i][0] for i in which]
        if len(target) == 1 and c.rng.uniform() < .5:
            target = target[0]
        elif c.rng.uniform() < .3:
            target = tuple(target)
        (moveglobal if glob else moveindividual)(target, **p)
        c.check(p == keep, 'parameters-changed', 'parameters of a move are not changed')
        for i in which:
            state[i][0 if glob else 1] = matrix(p)
        c.count('operations')
        c.seen('operation', ('global' if glob else 'individual', len(which), isinstance(target, (list, tuple))))
        for i, (g, r) in enumerate(groups):
            member_check(c, g, r, *state[i], mech='move', msg=f'step {k}, ' + ('named' if i in which else 'not named'))
    for g, r in groups:
        moveglobal(g, **reset_6d)
        moveindividual(g, **reset_6d)
        member_check(c, g, r, None, None, mech='reset', msg='after neutral parameters')


@W(quick=60, thorough=1000)
def global_after_move_center(c):
    from marxs.design.tolerancing import moveglobal, reset_6d
    g, r = make(c, no_offset=True)
    before = poses(g)
    C = gen.rigid(c.rng, 50.)
    g.move_center(C)
    G2 = C @ r['G']
    for k in range(3):
        p = pars(c.rng)
        moveglobal(g, **p)
        M = G2 @ matrix(p) @ np.linalg.inv(G2)
        for a, e in zip(before, g.elements):
            c.close(e.pos4d, M @ a, 'move-centre', 'move about the new centre', rtol=1e-8, atol=1e-6)
            c.count('members')
        c.count('operations')
    moveglobal(g, **reset_6d)
    for a, e in zip(before, g.elements):
        c.close(e.pos4d, a, 'reset', 'after neutral parameters', rtol=1e-9, atol=1e-6)


@W(quick=120, thorough=1500)
def element_histories(c):
    from marxs.design.tolerancing import moveelem, reset_6d
    from marxs.optics import CircularDetector, EnergyFilter, FlatDetector
    rng = c.rng
    elems = []
    for i in range(rng.integers(1, 5)):
        p4 = gen.pose(rng)
        cls = [FlatDetector, CircularDetector, EnergyFilter][rng.integers(3)]
        kw = dict(filterfunc=lambda e: e * 0 + .5) if cls is EnergyFilter else dict(pixsize=.1)
        if cls is FlatDetector:
            kw['ignore_pixel_warning'] = True
        elems.append(cls(pos4d=p4, **kw))
    nom = [e.pos4d.copy() for e in elems]
    now = [np.eye(4) for e in elems]
    for k in range(rng.integers(2, 6)):
        which = [i for i in range(len(elems)) if rng.uniform() < .5] or [0]
        p = pars(rng)
        target = [elems[i] for i in which]
        moveelem(target[0] if len(target) == 1 and rng.uniform() < .5 else target, **p)
        for i in which:
            now[i] = matrix(p)
        c.count('operations')
        for i, e in enumerate(elems):
            c.close(e.pos4d, now[i] @ nom[i], 'move-element', 'pose of ' + ('named' if i in which else 'other') + ' element', rtol=1e-9, atol=1e-7)
            c.count('members')
    # where photons meet it
    t = gen.aim(rng, now[0] @ nom[0], 10, surface='cyl' if isinstance(elems[0], CircularDetector) else 'plane')
    if not isinstance(elems[0], CircularDetector):
        hit = elems[0].geometry.intersect(t['dir'].data, t['pos'].data)[0]
        q = gen.move(t.copy(), np.linalg.inv(now[0]))
        hit0 = type(elems[0])(pos4d=nom[0].copy(), **kwargs_of(elems[0])).geometry.intersect(q['dir'].data, q['pos'].data)[0]
        c.same(hit, hit0, 'move-element', 'photons see the moved element')
    moveelem(elems, **reset_6d)
    for e, n in zip(elems, nom):
        c.close(e.pos4d, n, 'reset', 'after neutral parameters', rtol=1e-12, atol=1e-9)


@W(quick=120, thorough=1500, cpu=60)
def moved_behaviour(c):
    """a moved element treats photons like one that was built there"""
    from marxs.design.tolerancing import moveelem, reset_6d
    from vmon.props.c33 import diff
    rng = c.rng
    S = gen.specs()
    name = str(rng.choice(sorted(S))) if rng.uniform() < .6 else str(rng.choice([k for k in S if 'Stack' in k] + ['MultiLayerMirror']))
    s = S[name]
    p4 = s.pose(rng)
    sd = int(rng.integers(2**31))
    p = pars(rng)
    m = matrix(p)
    e = s.make(np.random.default_rng(sd), p4.copy())
    n = s.make(np.random.default_rng(sd), m @ p4)
    if rng.uniform() < .3:
        moveelem(e, **pars(rng))
    moveelem(e, **p)
    t = s.photons(rng, m @ p4, 40)
    c.note(name=name, pars=p)

    def run(el):
        np.random.seed(sd)
        return el(t.copy())
    a, b = run(n), run(e)
    # orders and random numbers are the same, rounding is not
    for k in a.colnames:
        if not c.check(k in b.colnames, 'moved-behaviour', f'{name}: column {k}'):
            continue
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.dtype.kind == 'f':
            same = np.isclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True).reshape(len(x), -1).all(1)
        else:
            same = x == y
        # a photon right at an edge may fall on the other side
        c.check((~same).sum() <= 1, 'moved-behaviour', f'{name}: {k} of photons behind an element moved there', n=int((~same).sum()))
    moveelem(e, **reset_6d)
    t = s.photons(rng, p4, 40)
    a, b = run(s.make(np.random.default_rng(sd), p4.copy())), run(e)
    for k in ('pos', 'dir', 'probability', 'polarization'):
        c.close(b[k].data, a[k].data, 'moved-behaviour', f'{name}: {k} after moving back', rtol=1e-6, atol=1e-6)
    c.count('moved_behaviour')


def kwargs_of(e):
    from marxs.optics import EnergyFilter
    return dict(filterfunc=lambda x: x) if isinstance(e, EnergyFilter) else dict(pixsize=.1, ignore_pixel_warning=True)


def big_group(rng, cls=None, n=600, **args):
    from marxs.optics import FlatDetector
    from marxs.simulator import Parallel
    if cls is None:
        cls, args = FlatDetector, dict(zoom=3., ignore_pixel_warning=True)
    G = gen.rigid(rng)
    ep = [gen.aff(rng.normal(size=3) * 100, gen.rot(rng)) for i in range(n)]
    return Parallel(elem_class=cls, elem_args=args, elem_pos=[e.copy() for e in ep], pos4d=G), G, ep


def own_moves(G, ep, now):
    """misalignment of each member in the frame of the group: shift, angles"""
    a = []
    for e, x in zip(ep, now):
        loc = np.linalg.inv(G) @ x
        loc[:3, :3] /= np.linalg.norm(loc[:3, :3], axis=0)
        a.append(np.append(loc[:3, 3] - e[:3, 3], Rotation.from_matrix(loc[:3, :3] @ e[:3, :3].T).as_euler('xyz')))
    return np.array(a)


@W(quick=12, thorough=60)
def wiggle(c):
    """random moves: centred on the nominal place, with the stated widths, new for each member and each call"""
    from marxs.design.tolerancing import reset_6d, wiggle
    rng = c.rng
    g, G, ep = big_group(rng)
    nom = poses(g)
    last = None
    for k in range(2):
        s = {d: float(rng.uniform(.1, 3) if d[0] == 'd' else rng.uniform(.001, .05)) for d in DOF if rng.uniform() < .7}
        wiggle(g if rng.uniform() < .5 else [g], **s)
        x = own_moves(G, ep, poses(g))
        c.note(sigma=s)
        for j, d in enumerate(DOF):
            if s.get(d, 0) == 0:
                c.close(x[:, j], 0., 'wiggle-zero', f'{d} does not change', atol=1e-8)
            else:
                c.count('statistical')
                c.pvalue(stats.kstest(x[:, j], stats.norm(0, s[d]).cdf).pvalue, 'wiggle-width', f'{d}: sigma {s[d]} in call {k}')
        c.count('members', len(x))
        if last is not None and len(s):
            both = [j for j, d in enumerate(DOF) if d in s and np.std(last[:, j]) > 1e-9]
            for j in both:
                c.count('statistical')
                c.pvalue(stats.spearmanr(last[:, j], x[:, j]).pvalue, 'wiggle-new', f'{DOF[j]}: second call is a new draw')
        last = x
        c.count('operations')
    wiggle(g, **reset_6d)
    for a, b in zip(nom, poses(g)):
        c.close(b, a, 'reset', 'after neutral parameters', rtol=1e-9, atol=1e-8)


@W(quick=10, thorough=50)
def bar_tilt(c):
    """each grating is turned by the opposite of the tilt of its bars, on top of the random moves"""
    from marxs.missions.mitsnl.catgrating import NonParallelCATGrating
    from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt
    from marxs.optics import OrderSelector
    rng = c.rng
    g, G, ep = big_group(rng, NonParallelCATGrating, d=2e-4, zoom=10., order_selector=OrderSelector([0]))
    nom = poses(g)
    m = float(rng.uniform(.01, .2))
    s = {} if c.idx % 2 else {d: float(rng.uniform(.1, 3)) for d in DOF[:3]}
    wiggle_and_bar_tilt(g, max_bar_tilt=m, **s)
    t = np.array([e.blaze_center for e in g.elements])
    x = own_moves(G, ep, poses(g))
    c.note(max_tilt=m, sigma=s)
    c.count('statistical')
    c.check(np.all(np.abs(t) <= m), 'tilt-range', 'tilt is at most the maximum')
    c.pvalue(stats.kstest(t, stats.uniform(-m, 2 * m).cdf).pvalue, 'tilt-uniform', 'tilts fill the range')
    c.close(x[:, 4], -t, 'tilt-compensated', 'rotation about y', atol=1e-8)
    c.close(x[:, [3, 5]], 0., 'tilt-compensated', 'no other rotation', atol=1e-8)
    for j, d in enumerate(DOF[:3]):
        if d in s:
            c.count('statistical')
            c.pvalue(stats.kstest(x[:, j], stats.norm(0, s[d]).cdf).pvalue, 'wiggle-width', f'{d}: sigma {s[d]}')
        else:
            c.close(x[:, j], 0., 'wiggle-zero', d, atol=1e-7)
    wiggle_and_bar_tilt(g)
    c.check(all(e.blaze_center == 0 for e in g.elements), 'reset', 'no tilt left')
    for a, b in zip(nom, poses(g)):
        c.close(b, a, 'reset', 'after neutral parameters', rtol=1e-9, atol=1e-8)
    c.count('operations', 2)


def diffraction_period(g, rng, m=1):
    """the period of a grating as seen by a photon at normal incidence"""
    p4 = g.pos4d
    t = gen.table(rng, (p4[:3, 3] + p4[:3, 0] * 2)[None], -gen.unit(p4[:3, 0])[None], energy=(1., 2.))
    e = float(t['energy'][0])
    t = g(t)
    s = np.linalg.norm(t['dir'].data[0, :3] - (t['dir'].data[0, :3] @ gen.unit(p4[:3, 0])) * gen.unit(p4[:3, 0]))
    return 12.39841984e-7 / e / s, t['order'][0]


@W(quick=10, thorough=40)
def grating_parameters(c):
    from marxs.design.tolerancing import varyattribute, varyorderselector, varyperiod
    from marxs.optics import EnergyFilter, FlatDetector, FlatGrating, OrderSelector, RadialMirrorScatter
    rng = c.rng
    n = 300
    gr = [FlatGrating(pos4d=gen.aff(rng.normal(size=3) * 100, gen.rot(rng), 20.), d=5e-4, order_selector=OrderSelector([1])) for i in range(n)]
    named, other = gr[:n // 2], gr[n // 2:]
    mean, sig = float(rng.uniform(2e-3, 4e-3)), float(rng.uniform(1e-5, 1e-4))
    for k in range(2):
        varyperiod(named, mean, sig)
    d = np.array([diffraction_period(g, rng)[0] for g in named])
    c.count('statistical')
    c.pvalue(stats.kstest(d, stats.norm(mean, sig).cdf).pvalue, 'period', f'periods drawn from {mean} +- {sig}')
    c.close([diffraction_period(g, rng)[0] for g in other[:20]], 5e-4, 'period-others', 'gratings that are not named', rtol=1e-5)
    varyperiod(named[0], mean, 0.)
    c.close(diffraction_period(named[0], rng)[0], mean, 'period', 'no scatter', rtol=1e-5)
    o = int(rng.choice([-2, 0, 3]))
    varyorderselector(named[:5], OrderSelector, [o])
    c.check(all(diffraction_period(g, rng)[1] == o for g in named[:5]), 'order-selector', 'new order is used')
    c.check(all(diffraction_period(g, rng)[1] == 1 for g in named[5:9] + other[:4]), 'order-selector', 'other gratings keep theirs')
    varyorderselector(named[1], OrderSelector, orderlist=[2], p=[.25])
    t = gen.table(rng, (named[1].pos4d[:3, 3] + named[1].pos4d[:3, 0])[None], -gen.unit(named[1].pos4d[:3, 0])[None], prob=np.ones(1))
    t = named[1](t)
    c.check(t['order'][0] == 2 and abs(t['probability'][0] - .25) < 1e-9, 'order-selector', 'keywords are passed on')
    s = RadialMirrorScatter(inplanescatter=1 * u.arcsec, perpplanescatter=0 * u.arcsec)
    c.raises(ValueError, lambda: varyattribute(s, inplanescater=2 * u.arcsec), 'misspelled', 'attribute that does not exist')
    c.check(not hasattr(s, 'inplanescater'), 'misspelled', 'not set')
    det = FlatDetector(zoom=10)
    c.raises(ValueError, lambda: varyperiod(det, 1e-3, 1e-5), 'misspelled', 'no period')
    c.raises(ValueError, lambda: varyorderselector(det, OrderSelector, [1]), 'misspelled', 'no order selector')
    f = [EnergyFilter(filterfunc=lambda e: e * 0 + .5, zoom=50.) for i in range(3)]
    varyattribute(f[:2], filterfunc=lambda e: e * 0 + .25)
    for i, e in enumerate(f):
        t = gen.table(rng, np.array([[5., 0, 0]]), np.array([[-1., 0, 0]]), prob=np.ones(1))
        c.close(e(t)['probability'], .25 if i < 2 else .5, 'attribute', 'new value is used by the named elements', rtol=1e-12)
    c.count('operations', 6)


def frozen(t):
    return {k: np.array(t[k]) for k in t.colnames}, copy.deepcopy(dict(t.meta))


def unchanged(c, t, f, mech, msg):
    c.check(t.colnames == list(f[0]), mech, f'{msg}: columns')
    for k in f[0]:
        if k in t.colnames:
            c.same(t[k], f[0][k], mech, f'{msg}: {k}')


def instrument(rng):
    """a small deterministic instrument: lens, grating group, detector"""
    from marxs.optics import FlatDetector, FlatGrating, OrderSelector, PerfectLens
    from marxs.simulator import Parallel, Sequence
    lens = PerfectLens(focallength=1000., position=[1000., 0, 0], zoom=[1, 60, 60])
    k = int(rng.integers(2, 4))
    ep = [gen.aff([0, y, z]) for y in (np.arange(k) - (k - 1) / 2) * 30 for z in (np.arange(k) - (k - 1) / 2) * 30]
    gr = Parallel(elem_class=FlatGrating, elem_pos=ep, elem_args=dict(d=1e-3, zoom=[1, 15., 15.], order_selector=OrderSelector([int(rng.integers(-2, 3))])),
                  position=[900., 0, 0])
    det = FlatDetector(position=[rng.normal() * 3, 0, 0], zoom=[1, 100, 100], pixsize=.01)
    return lens, gr, det, Sequence


def photons(rng, n=40, e=None):
    y = rng.uniform(-30, 30, (n, 2))
    t = gen.table(rng, np.column_stack([np.full(n, 1200.), y]), np.tile([-1., 0, 0], (n, 1)), energy=(1., 2.))
    if e is not None:
        t['energy'] = e
    return t


class Analyze:
    """records what the study hands over and gives back numbers"""

    def __init__(self, spoil=False, quantity=False):
        self.seen = []
        self.spoil, self.quantity = spoil, quantity

    def __call__(self, t):
        y = np.array(t['det_x']) if 'det_x' in t.colnames else np.full(len(t), np.nan)
        out = {'mean': float(np.nanmean(y)) if np.isfinite(y).any() else -99., 'sum': float(np.sum(t['probability']))}
        if self.quantity:
            out['area'] = out['sum'] * u.cm**2
        self.seen.append(frozen(t)[0])
        if self.spoil:
            t['probability'] = 0.
            t['pos'][:, 0] += 5.
        return out


MOVES = ['moveglobal', 'moveindividual', 'moveelem']


@W(quick=60, thorough=700)
def run(c):
    """each requested parameter set, on the same photons, one result each"""
    import marxs.design.tolerancing as tol
    rng = c.rng
    lens, gr, det, Sequence = instrument(rng)
    how = str(rng.choice(MOVES + ['lens']))
    if how in ('moveglobal', 'moveindividual'):
        parts_, func = gr, getattr(tol, how)
    else:
        parts_, func = (det if how == 'moveelem' else lens), tol.moveelem
    if rng.uniform() < .4:
        parts_ = [parts_]
    before = rng.uniform() < .5 and how != 'lens'
    instr = Sequence(elements=[gr, det] if before else [lens, gr, det])
    t = photons(rng)
    if before:
        t = lens(t)
    fz = frozen(t)
    plist = [pars(rng, .01) for i in range(rng.integers(1, 5))]
    if rng.uniform() < .5:
        plist.append(dict(tol.reset_6d))
    if rng.uniform() < .3:
        plist.append(dict(plist[0]))    # one set twice
    keep = copy.deepcopy(plist)
    an = Analyze(spoil=rng.uniform() < .5)
    c.note(kind=how, n=len(plist), spoil=an.spoil)
    with redirect_stdout(io.StringIO()):
        out = tol.run_tolerances(t, instr, func, parts_, plist, an)
    c.count('runs')
    c.seen('study', (how, len(plist), before))
    unchanged(c, t, fz, 'photons-changed', 'incoming photons')
    c.check(plist == keep, 'parameters-changed', 'parameter list')
    if not c.check(len(out) == len(plist) and len(an.seen) == len(plist), 'one-row-each', f'{len(out)} results for {len(plist)} parameter sets'):
        return
    tol.moveglobal(gr, **tol.reset_6d)
    tol.moveindividual(gr, **tol.reset_6d)
    for e, n in ((det, 0), (lens, 0)):
        if hasattr(e.geometry, 'pos4d_orig'):
            tol.moveelem(e, **tol.reset_6d)
    # an instrument of its own for each parameter set
    for i, p in enumerate(plist):
        l2, g2, d2 = copy.deepcopy((lens, gr, det))
        M = matrix(p)
        if how == 'moveglobal':
            G = g2.pos4d
            for e in g2.elements:
                e.geometry.pos4d = G @ M @ np.linalg.inv(G) @ e.geometry.pos4d
        elif how == 'moveindividual':
            G = g2.pos4d
            for e in g2.elements:
                loc = np.linalg.inv(G) @ e.geometry.pos4d
                loc[:3, :3] = M[:3, :3] @ loc[:3, :3]
                loc[:3, 3] += M[:3, 3]
                e.geometry.pos4d = G @ loc
        else:
            e = l2 if how == 'lens' else d2
            e.geometry.pos4d = M @ e.geometry.pos4d
        q = t.copy()
        for e in ([g2, d2] if before else [l2, g2, d2]):
            q = e(q)
        for k in ('pos', 'dir', 'energy', 'probability', 'det_x'):
            if k in q.colnames and c.check(k in an.seen[i], 'photons-differ', f'column {k} in run {i}'):
                c.close(an.seen[i][k], np.array(q[k]), 'photons-differ', f'{k} of run {i} of {len(plist)}: parameters on the incoming photons',
                        rtol=1e-8, atol=1e-7)
        want = {**p, **Analyze()(q)}
        if c.check(set(out[i]) == set(want), 'result', f'entries of result {i}: {sorted(out[i])}'):
            for k in want:
                c.close(out[i][k], want[k], 'result', f'{k} of result {i}', rtol=1e-7, atol=1e-6)
        c.count('rows')


@W(quick=40, thorough=400)
def run_energies(c):
    import marxs.design.tolerancing as tol
    from astropy.coordinates import SkyCoord
    from marxs.optics import RectangleAperture
    from marxs.source import FixedPointing, PointSource
    rng = c.rng
    lens, gr, det, Sequence = instrument(rng)
    sky = SkyCoord(rng.uniform(0, 360), rng.uniform(-60, 60), unit='deg')
    n = int(rng.integers(5, 30))
    src = PointSource(coords=sky, flux=1 / u.s / u.cm**2)
    front = [FixedPointing(coords=sky), RectangleAperture(position=[1200., 0, 0], zoom=[1, 20, 20])]
    en = rng.uniform(.5, 2, rng.integers(1, 4)) * u.keV
    given = en.to(u.Angstrom, equivalencies=u.spectral()) if rng.uniform() < .3 else en
    names = DOF if rng.uniform() < .7 else ['dy', 'rz']
    plist = [{k: float(rng.normal() * (3 if k[0] == 'd' else .01)) for k in names} for i in range(rng.integers(1, 4))]
    keep = copy.deepcopy(plist)
    an = Analyze(spoil=rng.uniform() < .5, quantity=rng.uniform() < .5)
    reset = dict(tol.reset_6d) if rng.uniform() < .6 else None
    two = rng.uniform() < .5
    how = str(rng.choice(['moveglobal', 'moveelem']))

    def record(t):
        # what the photons are like when they reach the parts that are moved
        for k in ('pos', 'dir', 'probability'):
            t['enter_' + k] = np.array(t[k])
        return t
    nominal = poses(gr), det.pos4d.copy()
    moved = []

    def func(e, **kw):
        moved.append(dict(kw))
        getattr(tol, how)(e, **kw)
    c.note(energies=en, rows=len(plist), reset=bool(reset), variant=2 if two else 1, kind=how)
    with redirect_stdout(io.StringIO()):
        if two:
            sub = rng.uniform() < .5
            part = gr if how == 'moveglobal' else det
            cls = type(part)
            if sub:
                class Derived(cls):
                    pass
                part.__class__ = Derived
            el = front + [lens, gr, record, det] if how == 'moveelem' else front + [lens, record, gr, det]
            instr = Sequence(elements=el)
            tab = tol.run_tolerances_for_energies2(src, given, instr, cls, func, plist, an, reset=reset, subclass_ok=sub, t_source=n * u.s)
        else:
            cut = rng.integers(0, 3)
            el = front + [lens]
            cut = [0, 2, 3][cut]
            before = Sequence(elements=el[:cut])
            rest = Sequence(elements=el[cut:] + ([record, gr, det] if how == 'moveglobal' else [gr, record, det]))
            part = gr if how == 'moveglobal' else det
            tab = tol.run_tolerances_for_energies(src, given, before, rest, func, part if rng.uniform() < .5 else [part], plist, an,
                                                  reset=reset, t_source=n * u.s)
    c.count('runs')
    c.seen('energies', (len(en), len(plist), two, how, bool(reset)))
    c.check(plist == keep, 'parameters-changed', 'parameter list')
    c.check(moved == plist * len(en) + ([reset] if reset else []), 'applied', 'parameters applied, energy by energy, and the neutral ones last')
    if not c.check(len(tab) == len(en) * len(plist), 'one-row-each', f'{len(tab)} rows'):
        return
    c.count('rows', len(tab))
    for i in range(len(tab)):
        e, p = en[i // len(plist)], plist[i % len(plist)]
        g = tab['energy'][i] * (tab['energy'].unit or given.unit) if not isinstance(tab['energy'][i], u.Quantity) else tab['energy'][i]
        c.close(g.to(u.keV, equivalencies=u.spectral()).value, e.value, 'row-energy', f'energy of row {i}', rtol=1e-9)
        w = tab['wave'][i] * (tab['wave'].unit or u.Angstrom) if not isinstance(tab['wave'][i], u.Quantity) else tab['wave'][i]
        c.close(w.to(u.Angstrom).value, e.to(u.Angstrom, equivalencies=u.spectral()).value, 'row-energy', f'wavelength of row {i}', rtol=1e-9)
        for k in p:
            c.close(tab[k][i], p[k], 'row-parameters', f'{k} of row {i}', rtol=1e-12)
        s = an.seen[i]
        c.check(len(s['energy']) == n, 'photons-differ', f'number of photons in run {i}')
        c.close(s['energy'], e.value, 'row-energy', f'energy of the photons in run {i}', rtol=1e-9)
        q = Table({k: s[k] for k in s})
        want = Analyze(quantity=an.quantity)(q)
        for k in want:
            c.close(tab[k][i], getattr(want[k], 'value', want[k]), 'result', f'{k} of row {i}', rtol=1e-9)
        first = an.seen[i - i % len(plist)]
        for k in ('enter_pos', 'enter_dir', 'enter_probability', 'energy', 'time'):
            # with the whole instrument behind the cut, positions on the aperture are drawn anew
            if not two and cut == 0 and k[:5] == 'enter':
                continue
            c.same(s[k], first[k], 'photons-differ', f'{k}: photons that enter run {i} are those of the first run')
    end = reset or plist[-1]
    M = matrix(end)
    if how == 'moveglobal':
        G = gr.pos4d
        for a, e in zip(nominal[0], gr.elements):
            c.close(e.pos4d, G @ M @ np.linalg.inv(G) @ a, 'state-after', 'pose of gratings after the study', rtol=1e-8, atol=1e-7)
        c.close(det.pos4d, nominal[1], 'state-after', 'detector was not named', rtol=1e-12)
    else:
        c.close(det.pos4d, M @ nominal[1], 'state-after', 'pose of detector after the study', rtol=1e-8, atol=1e-7)
        for a, e in zip(nominal[0], gr.elements):
            c.close(e.pos4d, a, 'state-after', 'gratings were not named', rtol=1e-12, atol=1e-12)


@W(quick=60, thorough=600)
def parameter_lists(c):
    from marxs.design.tolerancing import generate_6d_wigglelist, reset_6d, select_1dof_changed
    rng = c.rng
    c.check(set(reset_6d) == set(DOF) and all(v == 0 for v in reset_6d.values()), 'neutral', 'neutral parameters')
    tr = np.append(0., np.cumsum(rng.uniform(.1, 2, rng.integers(0, 5)))) * rng.choice([u.mm, u.cm, u.um])
    ro = np.append(0., np.cumsum(rng.uniform(.1, 2, rng.integers(0, 5)))) * rng.choice([u.deg, u.arcmin, u.rad])
    kt, kr = tr.copy(), ro.copy()
    names = DOF if rng.uniform() < .7 else list('abcdef')
    gl, ind = generate_6d_wigglelist(tr, ro) if names is DOF else generate_6d_wigglelist(tr, ro, names=names)
    c.same(tr.value, kt.value, 'list', 'input')
    c.same(ro.value, kr.value, 'list', 'input')
    want = []
    for i, k in enumerate(names):
        v = tr.to(u.mm).value if i < 3 else ro.to(u.rad).value
        want += [tuple(x if j == i else 0. for j in range(6)) for x in v[1:]]
    neg = [tuple(-x + 0. for x in w) for w in want]
    for got, w, s in ((gl, want + neg, 'global'), (ind, want, 'individual')):
        w = sorted(w + [(0.,) * 6])
        c.check(all(set(g) == set(names) for g in got), 'list', f'{s}: names')
        g = sorted(tuple(float(x[k]) + 0. for k in names) for x in got)
        if c.check(len(g) == len(w), 'list', f'{s}: {len(g)} entries instead of {len(w)}', trans=tr, rot=ro):
            c.close(g, w, 'list', f'{s}: values in mm and rad', rtol=1e-12)
    c.count('rows', len(gl))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        generate_6d_wigglelist(tr + 1 * tr.unit, ro)
    c.check(any('should be 0' in str(w.message) for w in ws), 'list', 'warning if first step is not 0')
    # selection of one degree of freedom
    n = 25
    t = Table({k: rng.choice([0., 0., 0., 1., -2., 1e-5, -3e-9], n) for k in DOF})
    t['id'] = np.arange(n)
    par = str(rng.choice(DOF))
    s = select_1dof_changed(t, par)
    w = [i for i in range(n) if all(t[k][i] == 0 for k in DOF if k != par)]
    c.check(list(s['id']) == w, 'select', f'rows with changes in {par} only')
    sub = [k for k in DOF if rng.uniform() < .6]
    par = str(rng.choice(DOF))
    s = select_1dof_changed(t, par, sub)
    w = [i for i in range(n) if all(t[k][i] == 0 for k in sub if k != par)]
    c.check(list(s['id']) == w, 'select', f'rows with changes in {par} among {sub}')
    c.count('operations')


@W(quick=8, thorough=60)
def plots(c):
    """the overview shows the rows of the table, and does not change it"""
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from marxs.design.tolerancing import DispersedWigglePlotter
    rng = c.rng
    rows = []
    waves = rng.choice([10., 15., 21.5, 30.], rng.integers(1, 4), replace=False)
    for w in waves:
        for i, k in enumerate(DOF):
            for v in rng.permutation([-2., -1., 0, 1., 3.]):
                rows.append([v * (.01 if k[0] == 'r' else 1) if j == i else 0. for j in range(6)] + [w, rng.uniform(100, 900), rng.uniform(1, 50)])
    t = Table(rows=rows, names=DOF + ['wave', 'Rgrat', 'Aeffgrat'])
    t['other'] = t['Rgrat'] * 2
    fz = frozen(t)
    P = DispersedWigglePlotter()

    def expected(par, col, w):
        s = [(t[par][i], t[col][i]) for i in range(len(t)) if t['wave'][i] == w and all(t[k][i] == 0 for k in DOF if k != par)]
        return sorted((np.rad2deg(a) if par[0] == 'r' else a, b) for a, b in s)

    def compare(ax, par, col, what):
        lines = ax.get_lines()
        if c.check(len(lines) == len(waves), 'plot', f'{what}: one line per wavelength'):
            for w, l in zip(sorted(waves), lines):
                g = sorted(zip(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)))
                c.close(g, expected(par, col, w), 'plot', f'{what}: values shown for {par}, wave {w}', rtol=1e-9, atol=1e-12)
                x = np.asarray(l.get_xdata(), float)
                c.check(np.all(np.diff(x) >= 0), 'plot', f'{what}: ordered along x')
        c.count('plots')
    par = str(rng.choice(DOF))
    fig = plt.figure()
    ax = fig.add_subplot()
    kw = {'R_col': 'other'} if rng.uniform() < .5 else {}
    axt = ax.twinx() if rng.uniform() < .5 else None
    P.plot_wiggle(t, par, DOF, ax, axt=axt, **kw)
    compare(ax, par, kw.get('R_col', 'Rgrat'), 'left')
    tw = axt or [a for a in fig.axes if a is not ax][0]
    compare(tw, par, 'Aeffgrat', 'right')
    c.check(par[1] in ax.get_title(), 'plot', f'title {ax.get_title()}')
    unchanged(c, t, fz, 'table-changed', 'table of results')
    plt.close(fig)
    with tempfile.TemporaryDirectory() as d:
        kind = str(rng.choice(['global', 'individual', 'x']))
        f = os.path.join(d, f'wiggle_{kind}.fits')
        t.write(f)
        own = rng.uniform() < .5
        tab, fig = P.load_and_plot(f, **({'axes_facecolor': 'c'} if own else {}))
        left = [a for a in fig.axes if a.get_title()]
        if c.check(len(left) == 6, 'plot', 'six panels'):
            for a, k in zip(left, DOF):
                compare(a, k, 'Rgrat', f'panel {k}')
            col = 'c' if own else {'global': '0.9', 'individual': (1, .9, .9), 'x': 'w'}[kind]
            c.check(np.allclose(left[0].get_facecolor(), to_rgba(col)), 'plot-colour', f'background colour {col} for {kind}')
        c.check(len(tab) == len(t), 'plot', 'table that is read')
        plt.close('all')
