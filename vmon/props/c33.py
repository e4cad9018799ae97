"""C33: runs are repeatable and elements keep no hidden state."""
import copy
import os
import pickle
import subprocess
import sys

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

from vmon import gen
from vmon.core import Registry
from vmon.props.c31 import state

W = Registry('C33', rule='results and complete states of elements were compared across histories of creating, using, copying and changing others',
             require={'repeated': 150, 'states': 150, 'copies': 60, 'histories': 20, 'actions': 300, 'changed': 150, 'arguments': 150,
                      'kinds': 40, 'fresh_processes': 2, 'output_columns': 20, 'source_runs': 40, 'decoys for cylinders': 4},
             assumptions=['photon lists may be changed in place, so every run starts from a copy',
                          'additional private attributes (a cache) are harmless if results stay the same'])


# ------------------------------------------------------------ many things ---
def group(rng, spec, p4, k=None):
    """a Parallel of elements of one kind"""
    from marxs.simulator import Parallel
    from marxs import optics
    n = int(rng.integers(3, 6))
    c, ax, z = gen.frame(p4)
    pos = [gen.aff([0, (i - (n - 1) / 2) * z[1] * 2.2 / n, 0.]) for i in range(n)]
    zoom = [z[0], z[1] / n, z[2]]
    kinds = [(optics.FlatDetector, dict(pixsize=2 * z[1] / n / 20, ignore_pixel_warning=True)),
             (optics.FlatGrating, dict(d=list(rng.uniform(2e-4, 4e-4, n)), order_selector=gen.orderselector(rng), groove_angle=rng.uniform(-1, 1))),
             (optics.EnergyFilter, dict(filterfunc=gen.filterfunc(rng))),
             (optics.FlatStack, dict(elements=[optics.EnergyFilter, optics.FlatDetector],
                                     keywords=[{'filterfunc': gen.filterfunc(rng)}, {'pixsize': z[1] / n / 10, 'ignore_pixel_warning': True}]))]
    cls, args = kinds[int(rng.integers(4))]
    args['zoom'] = zoom
    return Parallel(elem_class=cls, elem_args=args, elem_pos=pos, pos4d=gen.aff(c, ax), id_col='member')


def stage(rng, t):
    """(label, builder with a seed) of something placed in the path of photons t"""
    S = gen.specs()
    k = rng.integers(10)
    if k < 6:
        name = str(rng.choice(gen.CHAINABLE))
        p4 = gen.place(rng, t, S[name])
        return name, lambda sd: S[name].make(np.random.default_rng(sd), p4.copy())
    if k < 8:
        p4 = gen.place(rng, t, S['FlatDetector'])
        return 'Parallel', lambda sd: group(np.random.default_rng(sd), None, p4.copy())
    from marxs import optics
    from marxs.simulator import Propagator
    if k == 8:
        return 'GlobalEnergyFilter', lambda sd: optics.GlobalEnergyFilter(filterfunc=gen.filterfunc(np.random.default_rng(sd)))
    dist = rng.uniform(-5, 5)
    return 'Propagator', lambda sd: Propagator(distance=dist)


def torus_array(rng):
    from marxs import optics
    from marxs.design.rowland import CircularMeshGrid, GratingArrayStructure, RectangularGrid, RowlandTorus
    T = RowlandTorus(R=rng.uniform(1500, 2500), r=rng.uniform(1500, 2500))
    k = rng.integers(3)
    size = rng.uniform(15, 30)
    args = dict(zoom=[1, size / 2 - .5, size / 2 - .5], d=2e-4, order_selector=gen.orderselector(rng))
    kw = dict(rowland=T, d_element=[size, size], elem_class=optics.CATGrating if rng.uniform() < .5 else optics.FlatGrating, elem_args=args)
    if k == 0:
        return RectangularGrid(y_range=[-50., 50.], z_range=[-50., 50.], **kw)
    if k == 1:
        return CircularMeshGrid(radius=[10., 70.], **kw)
    return GratingArrayStructure(radius=[20., 80.], phi=[0., 2 * np.pi], **kw)


def whole(rng):
    """(label, builder, photons) of a complete chain or special element"""
    from marxs import optics
    from marxs.simulator import Sequence
    k = int(rng.integers(8))
    n = 40
    if k < 4:
        t = gen.beam(rng, n)
        if rng.uniform() < .15:
            t['order'] = rng.integers(-3, 4, n)
        st = []
        for i in range(int(rng.integers(1, 4))):
            name, b = stage(rng, t)
            st.append((name, b, int(rng.integers(2**31))))
        if len(st) == 1:
            return st[0][0], lambda: st[0][1](st[0][2]), t
        return 'Sequence of ' + ','.join(s[0] for s in st), lambda: Sequence(elements=[b(sd) for _, b, sd in st]), t
    sd = int(rng.integers(2**31))
    if k == 4:
        name = str(rng.choice(['RectangleAperture', 'CircleAperture', 'MultiAperture']))
        p4 = gen.pose(rng, equal=True)

        def ap():
            if name == 'MultiAperture':
                return optics.MultiAperture(elements=[optics.RectangleAperture(pos4d=p4.copy()), optics.CircleAperture(pos4d=p4 @ gen.aff([0, 3., 0]), r_inner=.3)],
                                            id_col='ap')
            return getattr(optics, name)(pos4d=p4.copy(), **({'r_inner': .4, 'phi': [0, 4.]} if name[0] == 'C' else {}))
        t = gen.table(rng, np.zeros((n, 3)), np.tile(-p4[:3, 0], (n, 1)) + rng.normal(size=(n, 3)) * .01)
        t.remove_column('pos')
        return name, ap, t
    if k == 5:
        t = gen.table(rng, rng.normal(size=(n, 3)) * 60 + [1e4, 0, 0], np.tile([-1., 0, 0], (n, 1)))
        t['pos'][:, 0] = 1e4
        return 'array on torus', lambda: torus_array(np.random.default_rng(sd)), t
    if k == 6:
        name = str(rng.choice([x for x, s in gen.specs().items() if x not in gen.CHAINABLE]))
        s = gen.specs()[name]
        p4 = s.pose(rng)
        t = s.photons(rng, p4, n)
        return name, lambda: s.make(np.random.default_rng(sd), p4.copy()), t
    from vmon.props.c24 import instrument, photons
    return 'instrument', lambda: Sequence(elements=list(instrument(np.random.default_rng(sd))[:3])), photons(rng, n)


def run(e, t, seed):
    np.random.seed(seed)
    return e(t.copy())


def diff(a, b):
    """name of the first thing that differs between two photon lists"""
    if len(a) != len(b):
        return 'rows'
    if a.colnames != b.colnames:
        return f'columns {set(a.colnames) ^ set(b.colnames)} {a.colnames} {b.colnames}'
    for k in a.colnames:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.dtype != y.dtype:
            return f'{k}: type'
        if not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
            d = np.abs(x.astype(float) - y) if x.dtype.kind == 'f' else np.array([9.])
            # one rounding error is not hidden state
            if x.dtype.kind != 'f' or (np.isnan(x) != np.isnan(y)).any() or np.nanmax(d) > 1e-11 * (1 + np.nanmax(np.abs(x))):
                return k
        if str(a[k].unit) != str(b[k].unit):
            return f'{k}: unit'
    if {k for k in a.meta} != {k for k in b.meta}:
        return 'header'
    return ''


def parts(e, top=''):
    """public state of an element and its members, by name"""
    out = {}
    for k, v in vars(e).items():
        if k in ('elements', 'postprocess_steps', 'preprocess_steps'):
            continue
        if k == 'geometry':
            for g, w in vars(v).items():
                if g not in ('geometry', '_geometry'):
                    out[f'{top}.geometry.{g}'] = state(w)
            continue
        if k.startswith('_') or k in ('parent', 'coords'):
            continue
        out[f'{top}.{k}'] = state(dict(v)) if k == 'display' else state(v)
    for i, m in enumerate(getattr(e, 'elements', None) or []):
        if hasattr(m, '__dict__'):
            out.update(parts(m, f'{top}[{i}]'))
    return out


def class_state(e):
    out = {}
    for k in type(e).__mro__:
        if k.__module__.startswith('marxs'):
            for a, v in vars(k).items():
                if not a.startswith('__') and isinstance(v, (list, dict, np.ndarray)):
                    out[f'{k.__name__}.{a}'] = state(v)
    for m in getattr(e, 'elements', None) or []:
        out.update(class_state(m))
    return out


def same_parts(c, a, b, mech, msg):
    bad = {k: (str(v)[:60], str(b.get(k, 'gone'))[:60]) for k, v in a.items() if b.get(k, 'gone') != v}
    c.check(not bad, mech, msg, changed=str(bad)[:400])


@W(quick=200, thorough=3000, cpu=60)
def repeat(c):
    """same seed, same photons: same result; nothing changes in the element"""
    rng = c.rng
    label, build, t = whole(rng)
    seed = int(rng.integers(2**31))
    e = build()
    c.note(element=label, n=len(t))
    c.seen('kinds', label)
    p0, k0 = parts(e), class_state(e)
    keep = t.copy()
    a = run(e, t, seed)
    c.check(diff(t, keep) == '', 'input', f'{label}: harness keeps input')
    same_parts(c, p0, parts(e), 'element-changed', f'{label}: running photons changes the element')
    same_parts(c, k0, class_state(e), 'class-changed', f'{label}: running photons changes a class')
    c.count('states')
    # others in between
    for _ in range(int(rng.integers(0, 3))):
        l2, b2, t2 = whole(rng)
        run(b2(), t2, int(rng.integers(2**31)))
    if rng.uniform() < .5:
        run(e, t[:int(rng.integers(1, len(t)))], seed + 1)
    b = run(e, t, seed)
    c.check(diff(a, b) == '', 'repeat', f'{label}: second run with the same seed differs in {diff(a, b)}')
    c.count('repeated')
    f = build()
    d = run(f, t, seed)
    c.check(diff(a, d) == '', 'rebuilt', f'{label}: an element built again gives a different {diff(a, d)}')
    same_parts(c, k0, class_state(f), 'class-changed', f'{label}: history changes a class')
    c.mon.counts['kinds'] = len(c.mon.distinct['kinds'])


@W(quick=100, thorough=1500, cpu=60)
def copied(c):
    """a copy behaves the same and is independent"""
    from marxs.optics import FlatDetector
    rng = c.rng
    label, build, t = whole(rng)
    seed = int(rng.integers(2**31))
    e = build()
    c.note(element=label)
    used = rng.uniform() < .5
    if used:
        run(e, t, seed)
    f = copy.deepcopy(e)
    a, b = run(e, t, seed), run(f, t, seed)
    c.check(diff(a, b) == '', 'copy', f'{label}: a copy gives a different {diff(a, b)}')
    p0 = parts(e)
    what = spoil(rng, f)
    same_parts(c, p0, parts(e), 'copy-independent', f'{label}: changing {what} of a copy changes the original')
    b = run(e, t, seed)
    c.check(diff(a, b) == '', 'copy-independent', f'{label}: after changing {what} of a copy the original gives a different {diff(a, b)}')
    c.count('copies')


def all_members(e):
    out = [e]
    for m in getattr(e, 'elements', None) or []:
        out += all_members(m)
    return out


def spoil(rng, e):
    """change something about an element, by assignment or in place"""
    done = []
    ms = all_members(e)
    for m in [ms[i] for i in rng.permutation(len(ms))[:3]]:
        if hasattr(m, 'geometry') and hasattr(m.geometry, 'pos4d'):
            if rng.uniform() < .5:
                m.geometry.pos4d = gen.aff([1., 2, 3]) @ m.geometry.pos4d
                done.append('pose')
            else:
                m.geometry.pos4d[:3, 3] += 2.
                done.append('pose in place')
        if hasattr(m, 'display') and m.display is not None:
            m.display['color'] = (.1, .2, .3)
            m.display['opacity'] = .123
            done.append('display')
        if hasattr(m, 'elem_pos'):
            k = rng.integers(4)
            if k == 0:
                m.elem_uncertainty[0][0, 3] += 3.
                done.append('one elem_uncertainty in place')
            elif k == 1:
                m.uncertainty[1, 3] += 4.
                done.append('uncertainty in place')
            elif k == 2:
                m.elem_pos[0][1, 3] += 5.
                done.append('one elem_pos in place')
            else:
                m.elem_args['zoom'] = [1., 1., 1.]
                done.append('elem_args')
            m.generate_elements()
        for k in ('focallength', 'distance', 'id_col', 'id_num', 'groove_angle', 'pixsize'):
            if k in vars(m) and rng.uniform() < .5:
                try:
                    setattr(m, k, 'other' if k == 'id_col' else 17)
                    done.append(k)
                except AttributeError:
                    pass
        if 'loc_coos_name' in vars(m) and rng.uniform() < .3:
            m.loc_coos_name = ['spoiled_x', 'spoiled_y']
            done.append('loc_coos_name')
    return ', '.join(done)


@W(quick=150, thorough=2500, cpu=60)
def siblings(c):
    """changing one element changes no other, not even of the same class or arguments"""
    rng = c.rng
    label, build, t = whole(rng)
    seed = int(rng.integers(2**31))
    a, b = build(), build()
    c.note(element=label)
    ra = run(a, t, seed)
    pa, ka = parts(a), class_state(a)
    what = spoil(rng, b)
    try:
        run(b, t, seed)
    except Exception:
        # a changed element may be in an impossible state; only the other one is judged
        pass
    same_parts(c, pa, parts(a), 'sibling', f'{label}: changing {what} of another element changes this one')
    same_parts(c, ka, class_state(a), 'class-changed', f'{label}: changing {what} of an element changes a class')
    r = run(a, t, seed)
    c.check(diff(ra, r) == '', 'sibling', f'{label}: after changing {what} of another element, different {diff(ra, r)}')
    d = run(build(), t, seed)
    c.check(diff(ra, d) == '', 'sibling', f'{label}: after changing {what} of another element, new elements give different {diff(ra, d)}')
    c.count('changed')


@W(quick=110, thorough=1500, cpu=60)
def decoys(c):
    """elements of the same class with other arguments, created and used in between, change nothing"""
    rng = c.rng
    S = dict(gen.specs(), **gen.deterministic_specs())
    names = list(S)
    s = S[names[c.idx % len(names)]]
    c.note(element=s.name)
    p4 = s.pose(rng)
    t = s.photons(rng, p4, 40)
    sd, seed = rng.integers(2**31, size=2)
    build = lambda: s.make(np.random.default_rng(sd), p4.copy())
    a = build()
    pa, ka = parts(a), class_state(a)
    late = rng.uniform() < .5
    ra = None if late else run(a, t, seed)
    for i in range(int(rng.integers(1, 5))):
        q = s.pose(rng)
        o = s.make(rng, q)
        if s.surface == 'cyl' and 'Detector' in s.name and rng.uniform() < .5:
            # a narrow segment somewhere
            x = rng.uniform(-3, 3)
            o.geometry = type(o.geometry)({'pos4d': q, 'phi_lim': [x, x + .1]})
        if rng.uniform() < .7:
            run(o, s.photons(rng, q, 5), i)
    same_parts(c, pa, parts(a), 'decoy', f'{s.name}: creating others of the class changes this one')
    same_parts(c, ka, class_state(a), 'class-changed', f'{s.name}: creating others changes a class')
    r = run(a, t, seed)
    b = build()
    f = run(b, t, seed)
    c.check(diff(r, f) == '', 'decoy', f'{s.name}: an element and the same one created after others differ in {diff(r, f)}')
    if ra is not None:
        c.check(diff(ra, r) == '', 'decoy', f'{s.name}: after others were created and used, different {diff(ra, r)}')
    if s.surface != 'cyl':
        return
    # against elementary geometry
    lim = tuple(np.asarray(b.geometry.coos_limits[0], float))
    if late:
        s.make(rng, s.pose(rng))
    dec, hit = gen.ref_hits(p4, t, 'cyl', lim)
    got = np.asarray(a.geometry.intersect(t['dir'].data, t['pos'].data)[0])
    c.check(got[dec] == hit[dec], 'decoy', f'{s.name}: photons hit the surface that was asked for')
    c.count('decoys for cylinders')


# --------------------------------------------------------------- arguments ---
def frozen(kw):
    return {k: state(v) for k, v in kw.items()}


def argument_sets(rng):
    """(class, keyword arguments) with mutable values in them"""
    from marxs import optics
    from marxs.math.geometry import Cylinder
    from marxs.missions.mitsnl import catgrating as cat
    from marxs.optics.multiLayerMirror import MultiLayerMirror
    from marxs.simulator import Parallel
    p4 = gen.pose(rng)
    t, ax, z = gen.frame(p4)
    place = dict(pos4d=p4) if rng.uniform() < .5 else dict(position=t.copy() if rng.uniform() < .5 else list(t), orientation=ax, zoom=z if rng.uniform() < .5 else list(z))
    osel = optics.OrderSelector([-1, 0, 1], np.array([.2, .3, .5]))
    g = lambda: dict(d=2e-4, order_selector=osel)
    stack = dict(elements=[optics.EnergyFilter, optics.FlatDetector], keywords=[{'filterfunc': gen.filterfunc(rng), 'id_num': 3}, {'pixsize': .1, 'ignore_pixel_warning': True}])
    n = 3
    ep = [dict(position=[[0, -9., 0], [0, 0, 0], [0, 9., 0]]), [gen.aff([0, y, 0]) for y in (-9., 0, 9.)],
          dict(pos4d=[gen.aff([0, y, 0]) for y in (-9., 0, 9.)]),
          dict(position=np.array([[0, -9., 0], [0, 0, 0], [0, 9., 0]]), zoom=[[1, 4., 4]] * 3)][rng.integers(4)]
    par = dict(elem_class=optics.FlatGrating, elem_pos=ep, elem_args=dict(zoom=[1., 2., 3.], d=[1e-4, 2e-4, 3e-4], order_selector=osel, groove_angle=.1))
    opts = [(optics.FlatDetector, dict(pixsize=.1, ignore_pixel_warning=True)), (optics.FlatGrating, g()), (optics.CATGrating, g()),
            (cat.CATL1L2Stack, dict(order_selector=osel, l1_dims=dict(cat.l1_dims), l2_dims=dict(cat.l2_dims), qualityfactor=dict(cat.qualityfactor))),
            (optics.FlatStack, stack), (Parallel, par), (optics.EnergyFilter, dict(filterfunc=gen.filterfunc(rng))),
            (optics.PerfectLens, dict(focallength=100.)), (optics.RectangleAperture, {}), (optics.CircleAperture, dict(r_inner=.2, phi=[.1, 3.])),
            (optics.RadialMirrorScatter, dict(inplanescatter=1 * u.arcsec, perpplanescatter=2 * u.arcsec)), (optics.Baffle, {}),
            (optics.CircularDetector, dict(phi_lim=[-1., 1.], pixsize=.1)), (optics.FlatGrating, dict(g(), geometry=Cylinder, phi_lim=[-.5, .5]))]
    cls, kw = opts[int(rng.integers(len(opts)))]
    if cls is optics.CircleAperture:
        place = dict(position=list(t), orientation=ax, zoom=[1., z[1], z[1]])
    if cls is optics.CircularDetector or kw.get('geometry') is Cylinder:
        place = dict(position=list(t), orientation=ax, zoom=[20., 20., 30.])
    return cls, dict(kw, **place)


@W(quick=200, thorough=2500)
def arguments(c):
    """what a user passes in is not modified, and can be used for several elements"""
    rng = c.rng
    cls, kw = argument_sets(rng)
    c.note(cls=cls.__name__, keys=sorted(kw))
    f0 = frozen(kw)
    a = cls(**kw)
    c.check(frozen(kw) == f0, 'arguments', f'{cls.__name__}: creating an element changes the arguments', changed=[k for k in f0 if frozen(kw)[k] != f0[k]])
    b = cls(**kw)
    pa = parts(a)
    same_parts(c, {k: v for k, v in pa.items()}, parts(b), 'arguments', f'{cls.__name__}: second element from the same arguments')
    if hasattr(b, 'geometry') and hasattr(b, 'pos4d'):
        what = spoil(rng, b)
        same_parts(c, pa, parts(a), 'sibling', f'{cls.__name__} from the same arguments: changing {what} of one changes the other')
        bad = [k for k in f0 if frozen(kw)[k] != f0[k]]
        c.check(not bad, 'arguments', f'{cls.__name__}: changing {what} of an element changes the arguments {bad} it was made from')
        n = cls(**kw)
        same_parts(c, pa, parts(n), 'arguments', f'{cls.__name__}: third element from the same arguments')
        if hasattr(a, 'elem_pos'):
            a.generate_elements()
            same_parts(c, pa, parts(a), 'sibling', f'{cls.__name__}: regenerated after {what} of another one')
    c.count('arguments')


@W(quick=60, thorough=600)
def one_member(c):
    """editing the uncertainty or pose of one member leaves the other members where they are"""
    from marxs import optics
    from marxs.simulator import Parallel
    rng = c.rng
    n = int(rng.integers(2, 6))
    pos = [gen.aff(rng.normal(size=3) * 50) for i in range(n)]
    if rng.uniform() < .3:
        pos = [pos[0]] * n
    kw = dict(elem_class=optics.FlatDetector, elem_args=dict(zoom=3., pixsize=.1, ignore_pixel_warning=True))
    P = Parallel(elem_pos=list(pos), **kw)
    Q = Parallel(elem_pos=list(pos), **kw)
    before = [e.pos4d.copy() for e in P.elements]
    beforeq = [e.pos4d.copy() for e in Q.elements]
    i = int(rng.integers(n))
    sh = rng.normal(size=3)
    what = str(rng.choice(['elem_uncertainty', 'elem_pos', 'uncertainty']))
    if what == 'uncertainty':
        P.uncertainty[:3, 3] += sh
    else:
        getattr(P, what)[i][:3, 3] += sh
    P.generate_elements()
    Q.generate_elements()
    c.note(n=n, i=i, what=what)
    for k in range(n):
        w = before[k].copy()
        if k == i or what == 'uncertainty':
            w[:3, 3] += sh
        c.close(P.elements[k].pos4d, w, 'one-member', f'{what} of member {i} edited in place: member {k}', rtol=1e-12, atol=1e-9)
        c.close(Q.elements[k].pos4d, beforeq[k], 'sibling', f'{what} edited in another group: member {k}', rtol=1e-12, atol=1e-9)
    c.close(Parallel(elem_pos=[gen.aff([0, 0, 0.])], **kw).elements[0].pos4d, gen.aff([0, 0, 0], None, 3.), 'class-changed', f'{what} edited in place: new groups')
    c.count('changed')


@W(quick=40, thorough=400)
def output_columns(c):
    """additional output columns are made the same way every time"""
    from marxs import optics
    rng = c.rng
    spec = [[{'name': 'hits', 'dtype': int, 'value': -7}], [{'name': 'hits', 'dtype': int, 'value': -7}, 'other'],
            [{'name': 'q', 'dtype': float, 'value': 2.5, 'unit': 'mm', 'description': 'text'}], ['plain'], [{'name': 'flag', 'dtype': bool, 'value': True}]][rng.integers(5)]

    class Mine(optics.FlatDetector):
        output_columns = spec
    s0 = state(spec)
    p4 = gen.pose(rng)
    t = gen.aim(rng, p4, 30, spread=1.3)
    els = [Mine(pos4d=p4.copy(), pixsize=.1, ignore_pixel_warning=True) for i in range(2)]
    first = els[0](t.copy())
    new = [x['name'] if isinstance(x, dict) else x for x in spec]
    for e in [els[0], els[1], els[1]]:
        o = e(t.copy())
        c.check(diff(first, o) == '', 'output-columns', f'columns of a later run differ in {diff(first, o)}')
        c.count('output_columns')
    c.check(state(spec) == s0, 'output-columns', 'specification of columns changed')
    if len(set(new) & set(first.colnames)) == len(new):
        for x in spec:
            k = x['name'] if isinstance(x, dict) else x
            v = x['value'] if isinstance(x, dict) else np.nan
            c.check(np.array_equal(np.asarray(first[k]), np.full(len(first), v), equal_nan=first[k].dtype.kind == 'f'), 'output-columns', f'{k}: initial value')
        # a list that has the columns already keeps them
        o = els[1](first.copy())
        c.check(set(o.colnames) == set(first.colnames), 'output-columns', 'no additional columns in a second pass')


# ---------------------------------------------------------------- histories ---
@W(quick=30, thorough=500, cpu=120)
def history(c):
    """a pool of things, created, used, copied and changed in any order"""
    rng = c.rng
    pool = []
    acts = []
    for step in range(int(rng.integers(8, 25))):
        a = rng.choice(['new', 'run', 'run', 'copy', 'spoil', 'again', 'rebuild']) if pool else 'new'
        acts.append(str(a))
        if a == 'new':
            label, build, t = whole(rng)
            e = build()
            pool.append(dict(label=label, build=build, t=t, e=e, seed=int(rng.integers(2**31)), ref=None))
            continue
        o = pool[int(rng.integers(len(pool)))]
        if a == 'copy':
            pool.append(dict(o, e=copy.deepcopy(o['e'])))
        elif a == 'spoil':
            # leaves the pool; all the others have to be as before
            if len(pool) > 1:
                i = [k for k, q in enumerate(pool) if q is o][0]
                pool.pop(i)
                what = spoil(rng, o['e'])
                acts[-1] += f"({o['label']}: {what})"
                try:
                    run(o['e'], o['t'], 1)
                except Exception:
                    pass
        else:
            e = o['build']() if a == 'rebuild' else o['e']
            seed = o['seed']
            r = run(e, o['t'], seed)
            if o['ref'] is None:
                for q in pool:
                    if q['build'] is o['build']:
                        q['ref'] = r
            else:
                c.check(diff(o['ref'], r) == '', 'history', f"{o['label']}: {a} gives a different {diff(o['ref'], r)}", acts=acts)
        c.count('actions')
    c.note(acts=acts)
    for o in pool:
        r = run(o['e'], o['t'], o['seed'])
        f = run(o['build'](), o['t'], o['seed'])
        c.check(diff(r, f) == '', 'history', f"{o['label']}: new and old differ in {diff(r, f)}", acts=acts)
    c.count('histories')


FRESH = '''
import sys, pickle
sys.path.insert(0, {verif!r}); sys.path.insert(0, {repo!r})
import warnings; warnings.simplefilter('ignore')
import numpy as np
from vmon.props import c33
out = []
for s in {seeds}:
    rng = np.random.default_rng(s)
    label, build, t = c33.whole(rng)
    r = c33.run(build(), t, s)
    out.append((label, [(k, np.asarray(r[k])) for k in r.colnames]))
sys.stdout.buffer.write(b'RESULT' + pickle.dumps(out))
'''


@W(quick=3, thorough=20, cpu=300)
def fresh_process(c):
    """the same program in a new process gives the same photons, whatever ran before here"""
    rng = c.rng
    seeds = [int(s) for s in rng.integers(0, 2**31, 15)]
    repo = os.environ.get('VERIF_REPO', '/repo')
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = FRESH.format(verif=here, repo=repo, seeds=seeds)
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1000))), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    p = subprocess.run([sys.executable, '-c', code], capture_output=True, env=env, timeout=280)
    if b'RESULT' not in p.stdout:
        raise RuntimeError(p.stderr.decode()[-2000:])
    ref = pickle.loads(p.stdout[p.stdout.index(b'RESULT') + 6:])
    order = rng.permutation(len(seeds))
    for i in order:
        r = np.random.default_rng(seeds[i])
        label, build, t = whole(r)
        o = run(build(), t, seeds[i])
        c.check(ref[i][0] == label, 'harness', 'same scenario')
        c.check([k for k, v in ref[i][1]] == o.colnames, 'fresh-process', f'{label}: columns', fresh=[k for k, v in ref[i][1]], here=o.colnames)
        for k, v in ref[i][1]:
            if k in o.colnames:
                w = np.asarray(o[k])
                ok = np.array_equal(v, w) if v.dtype.kind not in 'f' else np.allclose(v, w, rtol=1e-10, atol=1e-10, equal_nan=True)
                c.check(ok, 'fresh-process', f'{label}: {k} differs from the same run in a new process')
    c.count('fresh_processes')


# ------------------------------------------------------------------ sources ---
@W(quick=60, thorough=800)
def sources(c):
    """sources and pointings: same seed, same photons; objects stay as they are"""
    from marxs.source import FixedPointing, JitterPointing
    from vmon.props.c15 import KINDS, make
    rng = c.rng
    kind = str(rng.choice(KINDS))
    sd = int(rng.integers(2**31))
    T = 100. * u.s

    def build():
        r = np.random.default_rng(sd)
        e = [2. * u.keV, gen.QTable({'energy': np.array([.5, 1., 2., 5.]) * u.keV, 'fluxdensity': np.array([0, 1., 3., 2.]) / u.s / u.cm**2 / u.keV})][r.integers(2)]
        pol = [None, .3 * u.rad, gen.QTable({'angle': np.array([0., 1., 3., 6.]) * u.rad, 'probabilitydensity': np.array([0., 1., 2., 1.]) / u.rad})][r.integers(3)]
        kw = {} if kind == 'LabPointSourceCone' else {'geomarea': None}
        return make(r, kind, flux=1 / u.s, energy=e, polarization=pol, **kw), (e, pol)
    s, args = build()
    a0 = [state(x) if not hasattr(x, 'colnames') else state([np.asarray(x[k]) for k in x.colnames]) for x in args]
    p0 = parts(s)
    seed = int(rng.integers(2**31))
    c.note(kind=kind)

    def go(src):
        np.random.seed(seed)
        return src.generate_photons(T)
    a = go(s)
    same_parts(c, p0, parts(s), 'element-changed', f'{kind}: generating photons changes the source')
    s.generate_photons(3 * u.s)
    o, _ = build()
    o.flux = 7 / u.s
    o.energy = 3 * u.keV
    o.generate_photons(1 * u.s)
    if kind != 'RadialDistributionSource':
        # (that one draws from the generator of the harness)
        for q, n in [(s, 'same'), (build()[0], 'new'), (copy.deepcopy(s), 'copied')]:
            b = go(q)
            c.check(diff(a, b) == '', 'repeat', f'{kind}: {n} source differs in {diff(a, b)}')
    a1 = [state(x) if not hasattr(x, 'colnames') else state([np.asarray(x[k]) for k in x.colnames]) for x in args]
    c.check(a0 == a1, 'arguments', f'{kind}: spectrum and polarization tables not changed')
    c.count('source_runs')
    if 'ra' not in a.colnames:
        return
    coo = SkyCoord(rng.uniform(0, 360), rng.uniform(-80, 80), unit='deg')
    P = FixedPointing(coords=coo) if rng.uniform() < .5 else JitterPointing(coords=coo, jitter=1 * u.arcsec)
    p0 = parts(P)
    x = run(P, a, seed)
    other = FixedPointing(coords=SkyCoord(1, 2, unit='deg'), roll=3 * u.rad)
    run(other, a, seed)
    y = run(P, a, seed)
    z = run(copy.deepcopy(P), a, seed)
    c.check(diff(x, y) == '' and diff(x, z) == '', 'repeat', f'{type(P).__name__}: differs in {diff(x, y)} {diff(x, z)}')
    same_parts(c, p0, parts(P), 'element-changed', 'pointing changed by photons')
