"""C06: containers run exactly the elements they hold, once each, in order."""
import astropy.units as u
import numpy as np

from vmon import gen
from vmon.core import Registry

W = Registry('C06', rule='call logs, id columns, snapshots and searches of real containers were compared to references',
             require={'calls_logged': 2000, 'photons_with_id': 2000, 'photons_without_id': 500,
                      'snapshots': 200, 'searches': 200, 'stack_layers': 100},
             assumptions=['photons within a relative 1e-7 of an edge are not decided'])


class Probe:
    """callable element that logs what it sees and changes one column;
    sometimes hands back a new table (allowed for elements)"""

    def __init__(self, log, name, a, b, copy, drop=None):
        self.log, self.name, self.a, self.b, self.copy, self.drop = log, name, a, b, copy, drop

    def __call__(self, t):
        self.log.append((self.name, tuple(t['x'])))
        if self.copy:
            t = t.copy()
        t['x'] = t['x'] * self.a + self.b
        if self.drop is not None:
            t = t[self.keep(t['x'])]
        return t

    def keep(self, x):
        """photons that the element lets pass; drop=0 removes all of them"""
        return (np.asarray(x) % 4) < self.drop

    def ref(self, log, x):
        log.append((self.name, tuple(x)))
        x = x * self.a + self.b
        return x if self.drop is None else x[self.keep(x)]


class Step:
    """pre/post step: logs, may change the table in place, returns rubbish"""

    def __init__(self, log, name, add):
        self.log, self.name, self.add = log, name, add

    def __call__(self, t):
        self.log.append((self.name, tuple(t['x'])))
        if self.add:
            t['x'] += self.add
        return 'not a table'

    def ref(self, log, x):
        log.append((self.name, tuple(x)))
        return x + self.add


class Node:
    """reference of a container: written from the statement only"""

    def __init__(self, pre, elems, post):
        self.pre, self.elems, self.post = pre, elems, post

    def ref(self, log, x):
        for e in self.elems:
            for p in self.pre:
                x = p.ref(log, x)
            x = e.ref(log, x)
            for p in self.post:
                x = p.ref(log, x)
        return x


def tree(rng, log, depth, path='r'):
    from marxs.simulator import Sequence
    steps = lambda w: [Step(log, f'{path}.{w}{i}', int(rng.integers(0, 4))) for i in range(rng.choice([0, 0, 1, 2]))]
    pre, post = steps('pre'), steps('post')
    real, ref = [], []
    for i in range(rng.integers(0 if depth else 1, 5)):
        if depth < 3 and rng.uniform() < .35:
            r, n = tree(rng, log, depth + 1, f'{path}.{i}')
            real.append(r)
            ref.append(n)
        else:
            p = Probe(log, f'{path}.{i}', int(rng.integers(1, 4)), int(rng.integers(0, 9)), rng.uniform() < .3,
                      int(rng.choice([0, 1, 2, 3])) if rng.uniform() < .12 else None)
            real.append(p)
            ref.append(p)
        if real and rng.uniform() < .15:   # the same element object twice in a row
            real.append(real[-1])
            ref.append(ref[-1])
    kw = {}
    if pre or rng.uniform() < .5:
        kw['preprocess_steps'] = pre
    if post or rng.uniform() < .5:
        kw['postprocess_steps'] = post
    return Sequence(elements=real, **kw), Node(pre, ref, post)


@W(quick=300, thorough=4000)
def sequence_log(c):
    from astropy.table import Table
    log, want = [], []
    s, n = tree(c.rng, log, 0)
    x = c.rng.integers(0, 9, 3)
    for run in range(2):    # a container can be used again
        t = Table({'x': x.copy()})
        log.clear()
        want.clear()
        o = s(t)
        r = n.ref(want, x.copy())
        c.note(calls=len(want), run=run)
        c.count('calls_logged', len(log))
        k = next((i for i, (a, b) in enumerate(zip(log, want)) if a != b), min(len(log), len(want)))
        c.check(log == want, 'call-log', 'calls differ from the listed order', at=k, got=log[k:k + 3], want=want[k:k + 3],
                n=[len(log), len(want)])
        c.same(o['x'], r, 'sequence-result', 'result of nested sequences')


@W(quick=150, thorough=2000)
def sequence_by_hand(c):
    """a Sequence of real elements is the same as calling them one by one"""
    from marxs.simulator import KeepCol, Propagator, Sequence
    S = gen.specs()
    t = gen.beam(c.rng, 30)
    probe = t.copy()
    elems, names = [], []
    for i in range(c.rng.integers(2, 6)):
        s = S[c.rng.choice([n for n in gen.CHAINABLE if n != 'MultiLayerMirror'])]
        p4 = gen.place(c.rng, probe, s)
        e = s.make(c.rng, p4)
        q = e(probe.copy())
        if not np.isfinite(q['dir'].data).all():
            continue
        probe = q
        elems.append(e)
        names.append(s.name)
        if c.rng.uniform() < .2:
            elems.append(Propagator(distance=c.rng.normal() * 10))
            probe = elems[-1](probe)
            names.append('Propagator')
    if not elems:
        c.skip()
    c.note(elements=names)
    before, after = KeepCol('pos'), KeepCol('pos')
    enb = KeepCol('energy')
    np.random.seed(c.seed % 2**31)
    a, pb, pa, eb = t.copy(), [], [], []
    for e in elems:
        pb.append(np.array(a['pos']))
        eb.append(np.array(a['energy']))
        a = e(a)
        pa.append(np.array(a['pos']))
    np.random.seed(c.seed % 2**31)
    b = Sequence(elements=elems, preprocess_steps=[before, enb], postprocess_steps=[after])(t.copy())
    c.count('calls_logged', len(elems))
    c.check(a.colnames == b.colnames, 'by-hand', f'{names}: columns')
    for k in a.colnames:
        if k in b.colnames:
            c.same(b[k], a[k], 'by-hand', f'{names}: {k}')
    for kc, want, w in ((before, pb, 'pre'), (after, pa, 'post'), (enb, eb, 'pre energy')):
        c.count('snapshots', len(kc.data))
        if c.check(len(kc.data) == len(want), 'snapshots', f'{w}: one snapshot per step'):
            for i, w1 in enumerate(want):
                c.same(kc.data[i], w1, 'snapshots', f'{w}: snapshot {i} is the value at that step')
            c.same(np.asarray(kc), np.stack(want), 'snapshots', 'array form')


@W(quick=150, thorough=2000)
def format_positions(c):
    from marxs.simulator import KeepCol
    k = KeepCol('pos')
    n, m = int(c.rng.integers(1, 8)), int(c.rng.integers(1, 9))
    from astropy.table import Table
    ref = []
    p = c.rng.normal(size=(n, 3)) * 100
    for i in range(m):
        mode = c.rng.choice(['same', 'one', 'tiny', 'all'])
        if i and mode == 'one':      # a single photon moves
            p = p.copy()
            p[c.rng.integers(n)] += c.rng.normal(size=3) * 10 + 5
        elif i and mode == 'tiny':
            p = p + c.rng.uniform(-1, 1, p.shape) * 1e-9
        elif i and mode == 'all':
            p = p + c.rng.normal(size=p.shape) * 10
        w = c.rng.choice([1., 2., .5])
        t = Table({'pos': np.column_stack([p * w, np.full(n, w)])})
        k(t)
        t['pos'][:] = -1.   # later changes must not reach the snapshot
        ref.append(p)
    c.note(n=n, steps=m)
    c.count('snapshots', m)
    full = k.format_positions()
    c.close(full, np.stack(ref, 1), 'format-positions', 'euclidean positions (N, n, 3)', rtol=1e-12)
    keep = [0]
    for i in range(1, m):
        if np.abs(ref[i] - ref[keep[-1]]).max() > 1e-2:
            keep.append(i)
    c.close(k.format_positions(atol=1e-3), np.stack([ref[i] for i in keep], 1), 'format-dedup',
            'steps that repeat the positions are dropped, all others kept', rtol=0, atol=1e-7)
    # slow drift: every recorded step is represented by a row within the tolerance
    k = KeepCol('pos')
    atol = 1e-2
    q, drift = c.rng.uniform(-1, 1, (n, 3)), []
    for i in range(m):
        q = q + c.rng.choice([0., 0., 1.]) * c.rng.uniform(-.9, .9) * atol * gen.unit(c.rng.normal(size=3))
        k(Table({'pos': np.column_stack([q, np.ones(n)])}))
        drift.append(q)
    got = k.format_positions(atol=atol)
    dist = np.abs(np.stack(drift, 1)[:, :, None] - got[:, None]).max((0, 3))
    c.check(dist.min(1) <= atol + 1e-4, 'format-drift', 'every step is represented within the tolerance', worst=dist.min(1).max())
    c.check(got.shape[1] < 2 or np.abs(np.diff(got, axis=1)).max((0, 2)).min() > atol, 'format-drift', 'consecutive rows differ by more than the tolerance')
    c.raises(KeyError, lambda: KeepCol('nope')(Table({'pos': [1]})), 'keepcol-unknown')
    c.raises(ValueError, lambda: KeepCol('pos').format_positions(), 'keepcol-empty')


@W(quick=200, thorough=3000)
def ids(c):
    """disjoint coplanar members: the id names the one that was met"""
    from marxs.optics import FlatDetector
    from marxs.simulator import Parallel, Sequence
    rng = c.rng
    ny, nz = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    sz = rng.uniform(3, 10, 2)
    gap = rng.uniform(.5, 3)
    yy, zz = np.meshgrid(np.arange(ny) * (2 * sz[0] + gap), np.arange(nz) * (2 * sz[1] + gap))
    pos = np.column_stack([np.zeros(yy.size), yy.ravel() - yy.mean(), zz.ravel() - zz.mean()])
    pos = pos[rng.permutation(len(pos))]
    G = gen.rigid(rng)
    off = int(rng.choice([0, 0, 1, 7, 100]))
    idc = str(rng.choice(['element', 'CCD_ID', 'chip']))
    log = []

    class Det(FlatDetector):
        def __call__(self, photons, *a, **k):
            log.append(self.id_num)
            return super().__call__(photons, *a, **k)
    kw = {} if idc == 'element' else {'id_col': idc}
    if off or rng.uniform() < .5:
        kw['id_num_offset'] = off
    steps = []
    p = Parallel(elem_class=Det, elem_args={'pixsize': .1, 'ignore_pixel_warning': True},
                 elem_pos={'position': [q for q in pos], 'zoom': [[1., *sz]] * len(pos)}, pos4d=G,
                 preprocess_steps=[lambda t: steps.append('pre')], postprocess_steps=[lambda t: steps.append('post')], **kw)
    ext = np.array([ny * (2 * sz[0] + gap), nz * (2 * sz[1] + gap)]) * .75
    t = gen.aim(rng, G @ np.diag([1., *ext, 1.]), 80, spread=1., maxangle=1., away=.1)
    t0 = t.copy()
    c.note(n=len(pos), offset=off, id_col=idc)
    want = np.full(len(t), -1)
    decided = np.ones(len(t), bool)
    for i in range(len(pos)):
        p4 = G @ gen.aff(pos[i], None, [1., *sz])
        dec, hit = gen.ref_hits(p4, t)
        decided &= dec
        want[hit] = off + i
    again = rng.uniform() < .3
    if rng.uniform() < .3:
        # photons that met a member of another group before
        some = np.flatnonzero(rng.uniform(size=len(pos)) < .7)
        if len(some):
            first = Parallel(elem_class=FlatDetector, elem_args={'pixsize': .1, 'ignore_pixel_warning': True}, pos4d=G, id_num_offset=2000,
                             elem_pos={'position': [pos[q] for q in some], 'zoom': [[1., *sz]] * len(some)}, **({} if idc == 'element' else {'id_col': idc}))
            start = t['pos'].data.copy()
            t = first(t)
            t['pos'] = start
            back = np.full(len(t), -1)
            for k, q in enumerate(some):
                back[want == off + q] = 2000 + k
            # those are met again
            c.count('met twice', (back >= 0).sum())
    if again:   # a second, empty or missed, group sharing the column must not erase ids
        t = p(t)
        t = Sequence(elements=[p.__class__(elem_class=Det, elem_args={'pixsize': .1, 'ignore_pixel_warning': True},
                                           elem_pos=[gen.aff([1e6, 1e6, 1e6])], id_num_offset=999, **({} if idc == 'element' else {'id_col': idc}))])(t)
        o = t
        log = log[:len(pos)]
        steps = steps[:2 * len(pos)]
    else:
        o = p(t)
    c.check(log == list(range(off, off + len(pos))), 'each-member-once', 'each member of a parallel group is run once', got=log)
    c.check(steps == ['pre', 'post'] * len(pos), 'parallel-steps', 'steps around each member', got=steps)
    c.count('calls_logged', len(log))
    if (want >= 0)[decided].any():
        if c.check(idc in o.colnames, 'id-column', 'identifier column exists'):
            got = np.asarray(o[idc])
            c.check(got[decided] == want[decided], 'id', 'identifier of the member met, filler for none',
                    got=got[decided][got[decided] != want[decided]][:5], want=want[decided][got[decided] != want[decided]][:5])
            c.count('photons_with_id', (want[decided] >= 0).sum())
            c.count('photons_without_id', (want[decided] < 0).sum())
            c.seen('ids', sorted(set(want[decided])))
    elif idc in o.colnames:
        c.check(np.asarray(o[idc])[decided] == -1, 'id', 'no photon met a member')
    c.same(np.asarray(o['serial']), np.asarray(t0['serial']), 'id', 'order of photons')


@W(quick=120, thorough=1500)
def flatstack(c):
    """every layer of a flat stack is applied exactly once to the photons
    that meet it, with the local coordinates of the impact"""
    from marxs import optics
    rng = c.rng
    p4 = gen.pose(rng)
    log = []

    class Layer(optics.FlatOpticalElement):
        def __init__(self, **kw):
            self.tag, self.f = kw.pop('tag'), kw.pop('f')
            super().__init__(**kw)

        def specific_process_photons(self, photons, intersect, interpos, intercoos):
            log.append((self.tag, np.array(photons['probability'][intersect]), np.array(intersect), np.array(interpos[intersect]), np.array(self.pos4d)))
            return {'probability': np.full(intersect.sum(), self.f)}
    n = int(rng.integers(1, 6))
    fs = rng.uniform(.3, 1, n)
    kw = {}
    if rng.uniform() < .7:
        kw = dict(id_col='stack', id_num=int(rng.integers(0, 50)))
    s = optics.FlatStack(pos4d=p4, elements=[Layer] * n, keywords=[dict(tag=i, f=fs[i]) for i in range(n)], **kw)
    t = gen.aim(rng, p4, 40, spread=1.4)
    # some or all photons have been absorbed before
    t['probability'][rng.uniform(size=len(t)) < rng.choice([0, 0, .5, 1])] = 0
    t0 = t.copy()
    dec, hit = gen.ref_hits(p4, t)
    o = s(t)
    c.note(layers=n, idcol=kw)
    if hit[dec].any() or log:
        c.check([l[0] for l in log] == list(range(n)), 'stack-once', 'each layer once, in order', got=[l[0] for l in log])
    c.count('stack_layers', len(log))
    pr = np.array(t0['probability'])
    pr[hit] *= np.prod(fs)
    c.close(np.asarray(o['probability'])[dec], pr[dec], 'stack-product', 'product of all layers', rtol=1e-12)
    for i, l in enumerate(log):
        c.check(l[2][dec] == hit[dec], 'stack-intersect', 'layers process the photons that meet the stack')
        c.close(l[4], p4, 'stack-pose', 'layers sit where the stack is')
    if kw and hit[dec].any():
        c.check(np.asarray(o['stack'])[dec] == np.where(hit, kw['id_num'], -1)[dec], 'stack-id', 'id column')
        c.count('photons_with_id', hit[dec].sum())
        c.count('photons_without_id', (~hit)[dec].sum())


def classes():
    from marxs import optics
    from marxs.simulator import BaseContainer, Parallel, Sequence

    class MyDet(optics.FlatDetector):
        pass

    class MySeq(Sequence):
        pass
    return dict(leaf=[optics.FlatDetector, MyDet, optics.Baffle], seq=[Sequence, MySeq], par=Parallel,
                all=[optics.FlatDetector, MyDet, optics.Baffle, Sequence, MySeq, Parallel, BaseContainer,
                     optics.FlatOpticalElement, optics.FlatStack])


def build(rng, C, depth=0):
    from marxs.simulator import propagate
    from marxs import optics
    r = rng.uniform()
    if depth == 0 or (depth < 4 and r < .4):
        return C['seq'][rng.integers(2)](elements=[build(rng, C, depth + 1) for i in range(rng.integers(0, 5))])
    if depth < 4 and r < .55:
        k = C['leaf'][rng.integers(2)]
        return C['par'](elem_class=k, elem_pos=[gen.aff([0, 30 * i, 0], None, 10.) for i in range(rng.integers(1, 4))],
                        elem_args={'ignore_pixel_warning': True})
    if r < .65:
        return optics.FlatStack(elements=[optics.Baffle, C['leaf'][rng.integers(2)]],
                                keywords=[{}, {}])
    if r < .75:
        return lambda t: t     # plain functions are elements, too
    return C['leaf'][rng.integers(3)]()


def ref_search(x, cls, sub, stop):
    m = isinstance(x, cls) if sub else type(x) is cls
    out = [x] if m else []
    if hasattr(x, 'elements') and not (m and stop):
        for e in x.elements:
            out += ref_search(e, cls, sub, stop)
    return out


@W(quick=100, thorough=1500)
def search(c):
    C = classes()
    s = build(c.rng, C)
    for cls in C['all']:
        for sub in (False, True):
            for stop in (False, True):
                want = ref_search(s, cls, sub, stop)
                got = s.elements_of_class(cls, subclass_ok=sub, stop_at_first=stop)
                c.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'search',
                        f'{cls.__name__} subclass_ok={sub} stop_at_first={stop}: {len(got)} found, {len(want)} present')
                c.count('searches')
                c.seen('found', len(want))
            want = next((i for i, e in enumerate(s.elements) if ref_search(e, cls, sub, False)), None)
            c.check(s.first_of_class_top_level(cls, subclass_ok=sub) == want, 'search-first', f'{cls.__name__} subclass_ok={sub}')
    c.note(found=len(ref_search(s, object, True, False)))


@W(quick=1, thorough=1)
def rejects(c):
    from marxs.simulator import Sequence, SimulationSetupError
    for kw in (dict(elements=[5]), dict(elements=[], preprocess_steps=['a']), dict(elements=[], postprocess_steps=[1.])):
        c.raises(SimulationSetupError, lambda: Sequence(**kw), 'not-callable', str(kw))
