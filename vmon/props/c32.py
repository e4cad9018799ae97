"""C32: photon lists carry their provenance and survive storage."""
import datetime
import os
import pickle
import shutil
import tempfile
import warnings

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord
from astropy.table import Table

from vmon import gen
from vmon.core import Registry

W = Registry('C32', rule='headers and columns of photon lists were compared before and after elements, instruments, tags and storage',
             require={'chains': 100, 'steps': 400, 'keys': 5000, 'element_kinds': 20, 'sources': 100, 'pointings': 40, 'stored': 60,
                      'stored_columns': 1000, 'formats': 3, 'tags': 60, 'consistency': 300, 'described': 100},
             assumptions=['FITS stores upper case keywords and separates value and comment',
                          'elements that write a keyword of their own (tags, mission headers) replace it'])

WORDS = ['kept', 'x', '', 'a longer remark with blanks, commas; and "quotes"', "O'Neill", 'EVENTS', '1', 'T']


def val(rng, fits=False):
    k = rng.integers(7)
    v = [lambda: int(rng.integers(-1000, 1000)), lambda: float(rng.normal() * 10.**rng.integers(-20, 20)), lambda: str(rng.choice(WORDS)),
         lambda: bool(rng.uniform() < .5), lambda: float(rng.integers(-5, 5)), lambda: float(rng.normal()), lambda: int(rng.integers(2**40))][k]()
    if rng.uniform() < .5:
        return (v, str(rng.choice(['a comment', 'remark 2', 'unit [s]'])))
    if not fits and rng.uniform() < .2:
        return [[1, 2, 'x'], {'a': v}, None, rng.normal(size=3)][rng.integers(4)]
    return v


def header(rng, fits=False):
    names = ['EXPOSURE', 'CREATOR', 'ORIGIN', 'MARXSVER', 'SIMDATE', 'EXTNAME', 'DATE-OBS', 'RA_PNT', 'ROLL_PNT', 'TELESCOP', 'OBJECT', 'MYKEY',
             'KEY1', 'KEY2', 'FILTER', 'GRATING', 'ORDER', 'SIMUSER', 'COORDSYS', 'LONGSTRN', 'HISTO1', 'SEED']
    if not fits:
        names += ['lower case', 'mirror_shell', 'pos', 'a.b', 'energy', 'ccd_id', 'order']
    n = int(rng.integers(0, 15))
    return {k: val(rng, fits) for k in rng.choice(names, n, replace=False)}


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def kept(c, t, meta, cols, who):
    for k, v in meta.items():
        c.count('keys')
        if not c.check(k in t.meta, 'header-kept', f'{who}: keyword {k} is still there'):
            continue
        c.check(equal(t.meta[k], v), 'header-kept', f'{who}: keyword {k} unchanged', before=repr(v), after=repr(t.meta[k]))
    for k, (un, desc, cm) in cols.items():
        if c.check(k in t.colnames, 'columns-kept', f'{who}: column {k} is still there'):
            c.check(t[k].unit == un, 'units-kept', f'{who}: unit of {k}', before=str(un), after=str(t[k].unit))
            c.check(t[k].description == desc and dict(t[k].meta) == cm, 'units-kept', f'{who}: description of {k}')


def extra_columns(rng, t):
    n = len(t)
    t['user_obj'] = rng.integers(0, 5, n)
    t['user_obj'].description = 'which object'
    t['user_flag'] = rng.uniform(size=n) < .5
    t['user_vec'] = rng.normal(size=(n, 2))
    t['user_vec'].unit = 'mm'
    t['user_temp'] = rng.normal(size=n).astype('f4') * u.K
    t['user_temp'].meta['sensor'] = 'A'
    t['energy'].description = 'photon energy'
    t['time'].meta['TIMEZERO'] = 17.
    return t


def colinfo(t, skip=()):
    return {k: (t[k].unit, t[k].description, dict(t[k].meta)) for k in t.colnames if k not in skip}


@W(quick=400, thorough=6000)
def chain(c):
    """header and column information survives every element"""
    from marxs.simulator import KeepCol, Sequence
    rng = c.rng
    n = int(rng.choice([1, 2, 60]))
    t = extra_columns(rng, gen.beam(rng, n))
    t.meta.clear()
    t.meta.update(header(rng))
    k = int(rng.integers(1, 7))
    sp = gen.specs()
    names = [str(x) for x in rng.choice(gen.CHAINABLE, k)]
    els = []
    for nm in names:
        els.append(sp[nm].make(rng, gen.place(rng, t, sp[nm])))
    import copy
    meta = copy.deepcopy(dict(t.meta))
    # columns an element defines for the photon may be set by it; their unit and description may not be lost
    cols = colinfo(t)
    c.note(n=n, names=names, keys=list(meta))
    nested = rng.uniform() < .3
    if nested:
        t = Sequence(elements=els, postprocess_steps=[KeepCol('pos')])(t)
        kept(c, t, meta, cols, 'Sequence of ' + ', '.join(names))
        c.count('steps', k)
    else:
        for nm, e in zip(names, els):
            t = e(t)
            kept(c, t, meta, cols, nm)
            c.count('steps')
    c.check(len(t) == n, 'rows', 'number of photons')
    for nm in names:
        c.seen('element_kinds', nm)
    c.mon.counts['element_kinds'] = len(c.mon.distinct['element_kinds'])
    c.count('chains')


@W(quick=60, thorough=600)
def describe(c):
    """each element reports its own name"""
    rng = c.rng
    sp = gen.specs()
    nm = str(rng.choice(gen.CHAINABLE))
    t = gen.beam(rng, 3)
    e = sp[nm].make(rng, gen.place(rng, t, sp[nm]))
    from marxs.simulator import Sequence
    for cls, name in [('e', e), ('s', Sequence(elements=[e], name='my sequence'))]:
        d = name.describe()
        c.check(list(d)[0] == 'element' and d['element'] == name.name, 'describe', f'{nm}: element')
        c.count('described')
    c.check(Sequence(elements=[e], name='my sequence').name == 'my sequence', 'describe', 'name as given')


# ------------------------------------------------------------------ source ---
def value(v):
    return v[0] if isinstance(v, tuple) else v


def provenance(c, t, T, t0):
    import marxs
    m = t.meta
    c.close(value(m['EXPOSURE']), T, 'exposure', 'exposure time in seconds', rtol=1e-12)
    c.check(value(m['MARXSVER']) == marxs.__version__, 'software', 'version of marxs', got=value(m['MARXSVER']))
    c.check('MARXS' in value(m['CREATOR']), 'software', 'creator', got=m['CREATOR'])
    c.check(value(m['SIMUSER']) == os.environ.get('USER', 'unknown user'), 'run', 'user')
    c.check(value(m['SIMHOST']) == os.environ.get('HOST', 'unknown host'), 'run', 'host')
    start = datetime.datetime.fromisoformat(f"{value(m['SIMDATE'])}T{value(m['SIMTIME'])}")
    c.check(t0 - datetime.timedelta(seconds=1) <= start <= datetime.datetime.now(), 'run', 'date and time of the run', got=str(start))
    c.check(value(m['EXTNAME']) == 'EVENTS', 'run', 'extension name')


def exposure(rng):
    T = 10**rng.uniform(0, 4) * u.s
    return T.to([u.s, u.h, u.ks, u.day][rng.integers(4)])


@W(quick=120, thorough=1500)
def source(c):
    """what was run is in the header"""
    from marxs.source import FixedPointing, JitterPointing
    from vmon.props.c15 import KINDS, make
    rng = c.rng
    os.environ.update({'USER': str(rng.choice(['anna', 'bert'])), 'HOST': str(rng.choice(['ws1', 'cluster']))})
    if rng.uniform() < .3:
        os.environ.pop(str(rng.choice(['USER', 'HOST'])), None)
    kind = str(rng.choice(KINDS))
    T = exposure(rng)
    kw = {}
    if kind != 'LabPointSourceCone':
        kw['geomarea'] = None
    s = make(rng, kind, flux=rng.choice([0.5, 20., 200., 200., 4000.]) / T.to(u.s), energy=rng.uniform(.1, 5) * u.keV, **kw)
    t0 = datetime.datetime.now()
    t = s.generate_photons(T)
    c.note(kind=kind, T=str(T), n=len(t))
    provenance(c, t, T.to_value(u.s), t0)
    c.check(t['time'].unit == u.s and t['energy'].unit == u.keV and t['polangle'].unit == u.rad, 'units', 'units of time, energy, polangle')
    c.count('sources')
    if 'ra' not in t.colnames:
        return
    c.check(t['ra'].unit == u.deg and t['dec'].unit == u.deg, 'units', 'units of ra and dec')
    c.check(value(t.meta['COORDSYS']) == 'ICRS', 'coordsys', 'system of ra and dec')
    meta, cols = dict(t.meta), colinfo(t)
    ra, dec = rng.uniform(0, 360), rng.uniform(-80, 80)
    coo = SkyCoord(ra, dec, unit='deg')
    frame = str(rng.choice(['icrs', 'fk5', 'galactic', 'fk4']))
    roll = rng.uniform(-360, 360)
    r = [roll * u.deg, np.deg2rad(roll) * u.rad, roll * 60 * u.arcmin][rng.integers(3)]
    P = FixedPointing(coords=coo.transform_to(frame), roll=r) if rng.uniform() < .6 else \
        JitterPointing(coords=coo.transform_to(frame), roll=r, jitter=1 * u.arcsec)
    q = P(t)
    kept(c, q, meta, cols, type(P).__name__)
    for k, v in [('RA', ra), ('DEC', dec), ('ROLL', roll)]:
        for n in ('PNT', 'NOM'):
            c.close(value(q.meta[f'{k}_{n}']), v, 'pointing-keywords', f'{k}_{n} in degrees, ICRS, {frame}', rtol=1e-9, atol=1e-7)
    c.count('pointings')


# ------------------------------------------------------------------- files ---
def mission(rng, n):
    """photon list of a complete run"""
    from marxs import optics
    from marxs.simulator import KeepCol, Parallel, Sequence
    from marxs.source import FixedPointing, PointSource
    coo = SkyCoord(rng.uniform(0, 360), rng.uniform(-80, 80), unit='deg')
    s = PointSource(coords=coo, energy=1. * u.keV, flux=(n + .5) / u.s, geomarea=None, polarization=[None, 20 * u.deg][rng.integers(2)])
    t = s.generate_photons(1. * u.s)
    p = FixedPointing(coords=coo, roll=rng.uniform(0, 360) * u.deg)
    ap = optics.RectangleAperture(position=[1100., 0, 0], zoom=[1, 40, 40])
    mirr = optics.PerfectLens(focallength=1000., position=[1000., 0, 0], zoom=[1, 60, 60])
    sc = optics.RadialMirrorScatter(inplanescatter=1 * u.arcsec, perpplanescatter=.1 * u.arcsec, position=[1000., 0, 0], zoom=[1, 60, 60])
    gr = optics.CATGrating(order_selector=optics.OrderSelector([-1, 0, 1]), d=1e-3, position=[900., 0, 0], zoom=[1, 25, 60])
    f = optics.EnergyFilter(filterfunc=lambda e: .5 * np.ones_like(e), position=[850., 0, 0], zoom=[1, 60, 30])
    d = Parallel(elem_class=optics.FlatDetector, elem_pos={'position': [[0, -30.1, 0], [0, 0, 0], [0, 30.1, 0]]},
                 elem_args=dict(zoom=[1, 30, 30] if rng.uniform() < .5 else [1, 14.9, 14.9], pixsize=.024), id_col='CCD_ID')
    return Sequence(elements=[p, ap, Sequence(elements=[mirr, sc, gr, f, d], postprocess_steps=[KeepCol('pos')])])(t)


def same_table(c, a, b, fmt):
    c.check(len(a) == len(b), 'stored-rows', f'{fmt}: number of photons')
    c.check(set(a.colnames) == set(b.colnames), 'stored-columns', f'{fmt}: columns', before=a.colnames, after=b.colnames)
    for k in a.colnames:
        if k not in b.colnames:
            continue
        x, y = a[k], b[k]
        c.check(str(x.unit or '') == str(y.unit or ''), 'stored-units', f'{fmt}: unit of {k}', before=str(x.unit), after=str(y.unit))
        masked = getattr(y, 'mask', None)
        if masked is not None and np.any(masked):
            y = y.filled(np.nan) if y.dtype.kind == 'f' else y.filled()
        xa, ya = np.asarray(x), np.asarray(y)
        c.check(xa.shape == ya.shape, 'stored-values', f'{fmt}: shape of {k}', before=xa.shape, after=ya.shape)
        if xa.dtype.kind in 'SU':
            xa, ya = xa.astype(str), ya.astype(str)
        else:
            c.check(xa.dtype.kind == ya.dtype.kind and xa.dtype.itemsize == ya.dtype.itemsize, 'stored-type', f'{fmt}: type of {k}', before=str(xa.dtype), after=str(ya.dtype))
        if xa.shape == ya.shape:
            c.check(np.array_equal(xa, ya, equal_nan=xa.dtype.kind == 'f'), 'stored-values', f'{fmt}: values of {k}')
        c.count('stored_columns')


@W(quick=60, thorough=800, cpu=60)
def files(c):
    """a photon list of a full run is the same list after storage"""
    rng = c.rng
    n = int(rng.choice([1, 5, 100, 100]))
    t = mission(rng, n)
    if rng.uniform() < .5:
        from marxs.base import TagVersion
        t = TagVersion(SATELLIT=('TESTSAT', 'a satellite'), ORIGIN='here', NUM=4)(t)
    h = header(rng, fits=True)
    t.meta.update({k: v for k, v in h.items() if k != 'EXTNAME'})
    t['user_flag'] = rng.uniform(size=len(t)) < .5
    t['user_name'] = np.array(['ab', 'Ä', 'long name with blank'] * len(t))[:len(t)] if rng.uniform() < .3 else np.array(['ab', 'c', 'name x'] * len(t))[:len(t)]
    t['user_name'][0] = 'ab'
    t['user_i'] = np.arange(len(t), dtype='i2')
    t['user_f'] = rng.normal(size=len(t)).astype('f4')
    ascii_ok = all(str(x).isascii() for x in t['user_name'])
    c.note(n=n, cols=t.colnames, ascii=ascii_ok)
    d = tempfile.mkdtemp(prefix='vmon_c32_')
    try:
        # table formats
        for fmt, ext, rd in [('fits', 'fits', 'fits'), ('ascii.ecsv', 'ecsv', 'ascii.ecsv')]:
            if fmt == 'fits' and not ascii_ok:
                continue
            f = os.path.join(d, 'x.' + ext)
            m0 = dict(t.meta)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                t.write(f, format=fmt)
                b = Table.read(f, format=rd)
            c.check({k: repr(v) for k, v in m0.items()} == {k: repr(v) for k, v in t.meta.items()}, 'writing-changes-nothing', f'{fmt}: header in memory after writing')
            same_table(c, t, b, fmt)
            up = {k.upper(): v for k, v in b.meta.items()}
            for k, v in t.meta.items():
                c.count('keys')
                if not c.check(k.upper() in up, 'stored-header', f'{fmt}: keyword {k}'):
                    continue
                g = value(tuple(up[k.upper()]) if isinstance(up[k.upper()], (list, tuple)) else up[k.upper()])
                w = value(v)
                if isinstance(w, str) or isinstance(g, str):
                    ok = str(g).rstrip() == str(w).rstrip()
                else:
                    ok = bool(g == w) or abs(g - w) <= 1e-12 * abs(w)
                c.check(ok, 'stored-header', f'{fmt}: value of {k}', before=repr(v), after=repr(g))
            c.seen('formats', fmt)
            c.count('stored')
        b = pickle.loads(pickle.dumps(t))
        same_table(c, t, b, 'pickle')
        c.check({k: repr(v) for k, v in b.meta.items()} == {k: repr(v) for k, v in t.meta.items()}, 'stored-header', 'pickle: header')
        c.seen('formats', 'pickle')
        c.count('stored')
    finally:
        shutil.rmtree(d)
    c.mon.counts['formats'] = len(c.mon.distinct['formats'])


@W(quick=40, thorough=600)
def resumed(c):
    """an instrument cut in two with a file in between is the same instrument"""
    from marxs import optics
    from marxs.simulator import Sequence
    rng = c.rng
    n = int(rng.choice([2, 60]))
    t = gen.beam(rng, n)
    names = [str(x) for x in rng.choice([x for x in gen.CHAINABLE if x in gen.deterministic_specs()], 4)]
    sp = gen.specs()
    tt = t.copy()
    els = []
    for nm in names:
        p4 = gen.place(rng, tt, sp[nm])
        els.append(sp[nm].make(rng, p4))
        tt = els[-1](tt)
    k = int(rng.integers(1, 4))
    ref = Sequence(elements=els)(t.copy())
    half = Sequence(elements=els[:k])(t.copy())
    d = tempfile.mkdtemp(prefix='vmon_c32_')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fmt = str(rng.choice(['fits', 'ascii.ecsv']))
            f = os.path.join(d, 'x.' + fmt[-4:])
            half.write(f, format=fmt)
            half = Table.read(f, format=fmt)
    finally:
        shutil.rmtree(d)
    c.note(n=n, names=names, k=k, fmt=fmt)
    out = Sequence(elements=els[k:])(half)
    for col in ref.colnames:
        if np.asarray(ref[col]).dtype.kind in 'SU':
            continue
        x = np.asarray(ref[col], float)
        y = out[col]
        y = np.asarray(y.filled(np.nan) if hasattr(y, 'filled') and y.dtype.kind == 'f' else y, float)
        c.close(y, x, 'resumed', f'{col} after resuming from a {fmt} file', rtol=1e-9, atol=1e-9)
    c.count('stored')


# -------------------------------------------------------------------- tags ---
@W(quick=80, thorough=800)
def tags(c):
    from marxs.base import TagVersion
    import marxs
    rng = c.rng

    def kws(lo):
        return {k: val(rng) for k in rng.choice(['SATELLIT', 'INSTRUME', 'GRATING', 'ROLE', 'lower', 'NUM', 'ORDER'], int(rng.integers(lo, 5)), replace=False)}
    k1, k2 = kws(0), kws(0)
    if rng.uniform() < .4:
        k1['ORIGIN'] = val(rng)
    if rng.uniform() < .4:
        k1['CREATOR'] = val(rng)
    frozen = {k: repr(v) for k, v in k1.items()}
    a = TagVersion(**k1, **({'name': 'tagger'} if rng.uniform() < .3 else {}))
    b = TagVersion(**k2)
    c.check({k: repr(v) for k, v in k1.items()} == frozen, 'arguments', 'arguments not changed')
    t = gen.table(rng, rng.normal(size=(2, 3)), rng.normal(size=(2, 3)))
    before = dict(t.meta)
    cols = colinfo(t)
    d0 = datetime.datetime.now().date().isoformat()
    call = kws(0) if rng.uniform() < .5 else {}
    o = a(t, **call)
    d1 = datetime.datetime.now().date().isoformat()
    c.note(k1=str(k1), call=str(call))
    want = {**k1, **call}
    kept(c, o, {k: v for k, v in before.items() if k not in want}, cols, 'TagVersion')
    for k, v in want.items():
        c.check(k in o.meta and equal(o.meta[k], v), 'tags-written', f'{k} given at {"call" if k in call else "init"}', want=repr(v), got=repr(o.meta.get(k)))
    if 'ORIGIN' not in want:
        c.check('ORIGIN' in o.meta, 'tags-written', 'ORIGIN by default')
    if 'CREATOR' not in want:
        c.check('MARXS' in value(o.meta['CREATOR']), 'tags-written', 'CREATOR by default')
    c.check(d0 <= value(o.meta['DATE']) <= d1, 'tags-written', 'DATE is the day of the run', got=o.meta['DATE'])
    c.check(marxs.__version__.startswith(value(o.meta['MARXSVER'])) and len(value(o.meta['MARXSVER'])) > 2, 'tags-written', 'version of marxs', got=o.meta['MARXSVER'])
    # second call without keywords does not remember the keywords of the call
    t2 = gen.table(rng, rng.normal(size=(2, 3)), rng.normal(size=(2, 3)))
    o2 = a(t2)
    for k in call:
        if k not in k1:
            c.check(k not in o2.meta, 'tags-independent', f'{k} from an earlier call')
    t3 = b(gen.table(rng, rng.normal(size=(2, 3)), rng.normal(size=(2, 3))))
    for k in k1:
        if k not in k2 and k not in ('ORIGIN', 'CREATOR'):
            c.check(k not in t3.meta, 'tags-independent', f'{k} from another tag')
    for k, v in k2.items():
        c.check(equal(t3.meta[k], v), 'tags-independent', f'{k} of the second tag')
    c.count('tags')


@W(quick=150, thorough=1500)
def consistency(c):
    """the consistency checks accept exactly consistent lists"""
    from marxs.base import check_meta_consistent
    from marxs.base.base import check_energy_consistent
    rng = c.rng
    keys = ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM']
    own = None if rng.uniform() < .5 else [str(k) for k in rng.choice(keys + ['OBJECT', 'SEED'], int(rng.integers(1, 5)), replace=False)]
    used = own or keys
    m1 = {k: val(rng, True) for k in keys + ['OBJECT', 'SEED', 'X'] if rng.uniform() < .8}
    m2 = dict(m1)
    for _ in range(int(rng.integers(0, 3))):
        k = str(rng.choice(keys + ['OBJECT', 'SEED', 'X']))
        r = rng.integers(3)
        if r == 0:
            m2.pop(k, None)
        elif r == 1:
            m2[k] = ('different %d' % rng.integers(100), 'c')
        else:
            m1.pop(k, None)
    am = bool(rng.uniform() < .5)
    missing_one = [k for k in used if (k in m1) != (k in m2)]
    missing_both = [k for k in used if k not in m1 and k not in m2]
    differ = [k for k in used if k in m1 and k in m2 and m1[k] != m2[k]]
    bad = bool(missing_one or differ or (missing_both and not am))
    c.note(m1=str(m1), m2=str(m2), own=own, allow_missing=am)
    if rng.uniform() < .5:
        m1, m2 = m2, m1
    kw = {} if own is None else {'keywords': list(own)}
    if am and rng.uniform() < .5:
        pass
    else:
        kw['allow_missing'] = am
    f1, f2 = repr(m1), repr(m2)
    try:
        check_meta_consistent(m1, m2, **kw)
        got = False
    except (AssertionError, KeyError) as e:
        got = type(e)
    c.check(bool(got) == bad, 'consistency', f'inconsistent headers rejected, consistent accepted; expected {"rejection" if bad else "pass"}, got {got}',
            missing_one=missing_one, missing_both=missing_both, differ=differ)
    if got and differ and not missing_one and not (missing_both and not am):
        c.check(got is AssertionError, 'consistency', 'AssertionError for different values', got=str(got))
    c.check(repr(m1) == f1 and repr(m2) == f2, 'consistency', 'headers not changed')
    # energies
    n = int(rng.choice([1, 2, 30]))
    t = gen.table(rng, rng.normal(size=(n, 3)), rng.normal(size=(n, 3)))
    e = rng.uniform(.1, 5)
    t['energy'] = np.ones(n) * e * u.keV if rng.uniform() < .5 else np.ones(n) * e
    same = True
    if n > 1 and rng.uniform() < .5:
        t['energy'][rng.integers(n)] = e * rng.choice([1.001, .5, 2])
        same = False
    if rng.uniform() < .2:
        t.remove_column('energy')
        same = True
    try:
        check_energy_consistent(t)
        ok = True
    except AssertionError:
        ok = False
    c.check(ok == same, 'consistency', f'same energy: {same}')
    c.count('consistency', 2)


@W(quick=8, thorough=40)
def mission_tags(c):
    """tags of the shipped missions can be added and stored"""
    rng = c.rng
    from marxs.missions.arcus.utils import tagversion
    t = gen.table(rng, rng.normal(size=(4, 3)), rng.normal(size=(4, 3)))
    before = dict(t.meta)
    o = tagversion(t)
    kept(c, o, before, colinfo(t), 'Arcus tagversion')
    for k in ('SATELLIT', 'TELESCOP', 'INSTRUME', 'FILTER', 'GRATING', 'MARXSVER', 'DATE', 'ORIGIN', 'CREATOR'):
        c.check(k in o.meta, 'tags-written', f'Arcus: {k}')
    c.check(value(o.meta['TELESCOP']) == 'ARCUS', 'tags-written', 'Arcus: TELESCOP')
    d = tempfile.mkdtemp(prefix='vmon_c32_')
    try:
        f = os.path.join(d, 'x.fits')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            o.write(f)
            b = Table.read(f)
        for k, v in o.meta.items():
            if c.check(k.upper() in b.meta, 'stored-header', f'Arcus: keyword {k} in file', value=repr(v)):
                c.check(value(v) == b.meta[k.upper()] or str(value(v)) == str(b.meta[k.upper()]), 'stored-header', f'Arcus: {k}')
    finally:
        shutil.rmtree(d)
    c.count('tags')
