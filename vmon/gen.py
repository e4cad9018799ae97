"""Generators: poses, photon lists, elements (public API of marxs only)."""
import os

import astropy.units as u
import numpy as np
from astropy.table import Table, QTable
from scipy.spatial.transform import Rotation

SIN30 = 0.5
MLDIR = None


# ---------------------------------------------------------------- poses ----
def rot(rng, kind=None):
    """Random proper rotation matrix; sometimes the identity or an axis swap."""
    kind = kind or rng.choice(['any', 'any', 'any', 'id', 'swap', 'small'])
    if kind == 'id':
        return np.eye(3)
    if kind == 'swap':
        p = rng.permutation(3)
        m = np.eye(3)[p] * rng.choice([-1., 1.], 3)[:, None]
        if np.linalg.det(m) < 0:
            m[0] *= -1
        return m
    if kind == 'small':
        return Rotation.from_rotvec(rng.normal(size=3) * 0.02).as_matrix()
    return Rotation.random(random_state=int(rng.integers(2**31))).as_matrix()


def aff(t, r=None, z=1.):
    m = np.eye(4)
    m[:3, :3] = (np.eye(3) if r is None else r) * (np.ones(3) * z)[None, :]
    m[:3, 3] = t
    return m


def rigid(rng, shift=300., kind=None):
    return aff(rng.normal(size=3) * shift * rng.choice([0., 1., 1.]), rot(rng, kind))


def pose(rng, ysize=(4., 40.), zsize=None, xsize=(.5, 3.), kind=None, shift=200.,
         equal=False, rmat=None):
    zoom = np.array([rng.uniform(*xsize), rng.uniform(*ysize), rng.uniform(*(zsize or ysize))])
    if equal:
        zoom[2] = zoom[1]
    r = rot(rng, kind) if rmat is None else rmat
    return aff(rng.normal(size=3) * shift, r, zoom)


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def frame(p4):
    """center, unit axes, half sizes of a pose matrix (independent of marxs)."""
    z = np.linalg.norm(p4[:3, :3], axis=0)
    return p4[:3, 3], p4[:3, :3] / z, z


def perp_pol(rng, d):
    """random unit vectors perpendicular to d (n,3)"""
    v = rng.normal(size=d.shape)
    v -= (v * d).sum(1, keepdims=True) * d / (d * d).sum(1, keepdims=True)
    return unit(v)


def table(rng, pos, dir, energy=(0.3, 3.), prob=None, extra=True, normalize=True):
    n = len(pos)
    d = unit(dir) if normalize else dir
    t = Table()
    t['time'] = np.sort(rng.uniform(0, 1000., n)) * u.s
    t['energy'] = rng.uniform(*energy, n) * u.keV
    t['polangle'] = rng.uniform(0, 2 * np.pi, n) * u.rad
    t['probability'] = rng.uniform(0.05, 1, n) if prob is None else np.ones(n) * prob
    t['ra'] = rng.uniform(0, 360, n) * u.deg
    t['dec'] = rng.uniform(-90, 90, n) * u.deg
    t['pos'] = np.hstack([pos, np.ones((n, 1))]).reshape(n, 4)
    t['dir'] = np.hstack([d, np.zeros((n, 1))]).reshape(n, 4)
    t['polarization'] = np.hstack([perp_pol(rng, d), np.zeros((n, 1))]).reshape(n, 4)
    if extra:
        t['serial'] = np.arange(n) + 1000
        t['mytag'] = np.array(['p%d' % i for i in range(n)] or [], dtype='U8')
    t.meta['EXPOSURE'] = (1000., 'total exposure time [s]')
    t.meta['MYKEY'] = ('kept', 'user keyword')
    return t


def aim_points(rng, p4, n, surface='plane', spread=1.4):
    """Global target points: local coordinates in +-spread of the active area."""
    if surface == 'plane':
        loc = np.zeros((n, 3))
        loc[:, 1:] = rng.uniform(-spread, spread, (n, 2))
    else:
        ph = rng.uniform(-np.pi, np.pi, n)
        loc = np.column_stack([np.cos(ph), np.sin(ph), rng.uniform(-spread, spread, n)])
    return loc @ p4[:3, :3].T + p4[:3, 3], loc


def aim(rng, p4, n, surface='plane', spread=1.4, maxangle=1.2, away=0.1, side=None,
        reach=(1., 500.), energy=(0.3, 3.), prob=None, unitdir=True):
    """Photon list aimed at (and around) an element in pose p4.

    A fraction `away` starts behind the element (so the ray points away)."""
    c, ax, z = frame(p4)
    tgt, loc = aim_points(rng, p4, n, surface, spread)
    th = np.arccos(1 - rng.uniform(0, 1, n) * (1 - np.cos(maxangle)))
    ph = rng.uniform(0, 2 * np.pi, n)
    s = np.ones(n) * side if side is not None else rng.choice([-1., 1.], n)
    dl = np.column_stack([s * np.cos(th), np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph)])
    if surface != 'plane':
        dl = unit(rng.normal(size=(n, 3)))
    d = unit(dl @ ax.T)
    dist = rng.uniform(*reach, n)
    dist[rng.uniform(size=n) < away] *= -1
    pos = tgt - dist[:, None] * d
    return table(rng, pos, d, energy, prob)


def move(t, m):
    """photon list moved by the rigid motion m (4x4)"""
    t = t.copy()
    for k in ('pos', 'dir', 'polarization'):
        if k in t.colnames:
            t[k] = t[k].data @ m.T
    return t


# ------------------------------------------------------------- elements ----
def filterfunc(rng):
    a, b, c = rng.uniform(.3, 1.), rng.uniform(0., 3.), rng.uniform(0, .3)
    return lambda e: np.clip(a * np.cos(b * np.asarray(e))**2 + c, 0, 1)


def orderselector(rng, maxorder=4):
    from marxs.optics import OrderSelector
    o = np.sort(rng.choice(np.arange(-maxorder, maxorder + 1), size=rng.integers(1, 6), replace=False))
    p = rng.dirichlet(np.ones(len(o))) * rng.uniform(.3, .99)
    return OrderSelector(o, p=p)


def refl(rng):
    a, b = rng.uniform(.2, .9), rng.uniform(0, 2)
    return lambda en, ang, grid=False: np.asarray(a * np.exp(-b * np.asarray(ang)) * (1 - 0.1 * np.sin(np.asarray(en))))


def repo_data(*parts):
    import marxs
    return os.path.join(os.path.dirname(marxs.__file__), *parts)


def _e(cls, **kw):
    def make(rng, p4, **over):
        k = {a: (b(rng, p4) if callable(b) and getattr(b, 'lazy', False) else b) for a, b in kw.items()}
        k.update(over)
        return cls(pos4d=p4, **k)
    return make


class Spec:
    """How to make one kind of element, and what may be assumed about it.

    redirects: may change dir/polarization; random: draws random numbers;
    surface: shape of the active surface; maxangle: incidence range for which
    it is meaningful."""

    def __init__(self, name, make, redirects=False, random=False, surface='plane',
                 maxangle=1.2, energy=(0.3, 3.), side=None, local=True, misses='kept',
                 needs=(), stretch=True, equal=False):
        self.name = name
        self.make = make
        self.redirects = redirects
        self.random = random
        self.surface = surface
        self.maxangle = maxangle
        self.energy = energy
        self.side = side
        self.local = local
        self.misses = misses
        self.needs = needs
        self.equal = equal

    def pose(self, rng, **kw):
        if self.surface == 'cyl':
            a = rng.uniform(10, 60)
            return aff(rng.normal(size=3) * kw.get('shift', 200.), rot(rng, kw.get('kind')),
                       [a, a, rng.uniform(5, 50)])
        return pose(rng, equal=self.equal, **kw)

    def photons(self, rng, p4, n, **kw):
        kw.setdefault('maxangle', self.maxangle)
        kw.setdefault('energy', self.energy)
        kw.setdefault('side', self.side)
        t = aim(rng, p4, n, surface=self.surface, **kw)
        for c in self.needs:
            if c == 'order':
                t['order'] = rng.integers(-4, 5, n)
        return t


def specs():
    """All element kinds of the optics package and the CAT grating mission
    package that can be built without external calibration data."""
    from marxs import optics
    from marxs.missions.mitsnl import catgrating as cat
    from marxs.optics.multiLayerMirror import FlatBrewsterMirror, MultiLayerEfficiency, MultiLayerMirror
    S = {}

    def add(name, make, **kw):
        S[name] = Spec(name, make, **kw)

    add('PerfectLens', lambda rng, p: optics.PerfectLens(pos4d=p, focallength=rng.uniform(500, 5000)),
        redirects=True, maxangle=.3)
    add('PerfectLensRefl', lambda rng, p: optics.PerfectLens(
        pos4d=p, focallength=rng.uniform(500, 5000), d_center_optical_axis=rng.uniform(0, 100),
        reflectivity_interpolator=refl(rng)), redirects=True, maxangle=.3)
    add('ThinLens', lambda rng, p: optics.ThinLens(pos4d=p, focallength=rng.uniform(500, 5000)),
        redirects=True, maxangle=.3)
    add('EnergyFilter', lambda rng, p: optics.EnergyFilter(pos4d=p, filterfunc=filterfunc(rng)))
    add('Baffle', lambda rng, p: optics.Baffle(pos4d=p), misses='absorbed', local=False)

    def flatdet(rng, p):
        ny = rng.integers(20, 500)
        z = frame(p)[2]
        return optics.FlatDetector(pos4d=p, pixsize=2 * z[1] / ny, ignore_pixel_warning=True,
                                   id_col='CCD_ID', id_num=int(rng.integers(1, 9)))
    add('FlatDetector', flatdet)
    add('CircularDetector', lambda rng, p: optics.CircularDetector(pos4d=p, pixsize=rng.uniform(.01, .5)),
        surface='cyl')
    add('CircularDetectorSegment', lambda rng, p: optics.CircularDetector(
        pos4d=p, pixsize=.1, phi_lim=sorted(rng.uniform(-np.pi, np.pi, 2))), surface='cyl')

    def ccd(rng, p):
        tab = QTable({'energy': np.array([.1, 1., 4.]) * u.keV,
                      'sigma': rng.uniform(.01, .1, 3) * u.keV})
        from marxs.optics.detector import CCDRedistNormal
        return CCDRedistNormal(pos4d=p, tab_width=tab)
    add('CCDRedistNormal', ccd, random=True)

    def grating(trans, dcall=False, cls=None):
        def make(rng, p):
            c = cls or optics.FlatGrating
            d0 = rng.uniform(2e-4, 4e-4) * (10 if not trans else 1)
            s = rng.uniform(-1e-6, 1e-6)
            d = (lambda ic: d0 + s * ic[:, 0]) if dcall else d0
            return c(pos4d=p, d=d, order_selector=orderselector(rng), transmission=trans,
                     groove_angle=rng.uniform(-3, 3))
        return make
    add('FlatGrating', grating(True), redirects=True, random=True, maxangle=.6)
    add('FlatGratingChirp', grating(True, True), redirects=True, random=True, maxangle=.6)
    add('ReflectionGrating', grating(False), redirects=True, random=True, maxangle=1.)
    add('CATGrating', grating(True, cls=optics.CATGrating), redirects=True, random=True, maxangle=.6)

    def cylgrating(rng, p):
        from marxs.math.geometry import Cylinder
        return optics.FlatGrating(geometry=Cylinder, pos4d=p, d=rng.uniform(2e-3, 4e-3),
                                  order_selector=orderselector(rng), groove_angle=rng.uniform(-3, 3))
    add('CylinderGrating', cylgrating, redirects=True, random=True, surface='cyl')

    def nonpar(rng, p):
        return cat.NonParallelCATGrating(pos4d=p, d=2e-4, order_selector=orderselector(rng),
                                         d_blaze_mm=rng.normal() * 1e-4, blaze_center=rng.normal() * .01,
                                         groove_angle=rng.uniform(-3, 3))
    add('NonParallelCATGrating', nonpar, redirects=True, random=True, maxangle=.3)
    add('CATL1L2Stack', lambda rng, p: cat.CATL1L2Stack(pos4d=p, order_selector=orderselector(rng),
                                                        groove_angle=rng.uniform(-3, 3)),
        redirects=True, random=True, maxangle=.3)
    add('L1', lambda rng, p: cat.L1(pos4d=p, order_selector=orderselector(rng),
                                    groove_angle=rng.uniform(-3, 3)),
        redirects=True, random=True, maxangle=.3)
    add('L2Abs', lambda rng, p: cat.L2Abs(pos4d=p), maxangle=.3)
    add('L2Diffraction', lambda rng, p: cat.L2Diffraction(pos4d=p), redirects=True, random=True)
    add('QualityFactor', lambda rng, p: cat.QualityFactor(pos4d=p), needs=('order',))
    add('RadialMirrorScatter', lambda rng, p: optics.RadialMirrorScatter(
        pos4d=p, inplanescatter=rng.uniform(1, 600) * u.arcsec,
        perpplanescatter=rng.uniform(1, 600) * u.arcsec), redirects=True, random=True, maxangle=.5)
    add('RandomGaussianScatter', lambda rng, p: optics.RandomGaussianScatter(
        pos4d=p, scatter=rng.uniform(1, 600) * u.arcsec), redirects=True, random=True)
    add('FlatBrewsterMirror', lambda rng, p: FlatBrewsterMirror(pos4d=p), redirects=True)

    def mlfiles():
        d = repo_data('optics', 'data')
        return dict(reflFile=os.path.join(d, 'testFile_mirror.txt'),
                    testedPolarization=os.path.join(d, 'ALSpolarization2.txt'))
    add('MultiLayerEfficiency', lambda rng, p: MultiLayerEfficiency(pos4d=p, **mlfiles()), energy=(.2, .4))
    add('MultiLayerMirror', lambda rng, p: MultiLayerMirror(pos4d=p, **mlfiles()), redirects=True, energy=(.2, .4))

    def stack(rng, p):
        return optics.FlatStack(pos4d=p, elements=[optics.EnergyFilter, optics.FlatDetector],
                                keywords=[{'filterfunc': filterfunc(rng)},
                                          {'pixsize': .1, 'ignore_pixel_warning': True}],
                                id_col='stackid', id_num=int(rng.integers(1, 9)))
    add('FlatStack', stack)

    def stack2(rng, p):
        return optics.FlatStack(pos4d=p, elements=[optics.FlatGrating, optics.EnergyFilter,
                                                   optics.RandomGaussianScatter],
                                keywords=[{'d': 3e-4, 'order_selector': orderselector(rng)},
                                          {'filterfunc': filterfunc(rng)},
                                          {'scatter': 20 * u.arcsec}])
    add('FlatStackGrating', stack2, redirects=True, random=True, maxangle=.6)
    return S


# --------------------------------------------------------------- chains ----
def fixed_order(rng, p4, m=None, trans=True, cat=False):
    from marxs import optics
    m = int(rng.integers(-4, 5)) if m is None else m
    cls = optics.CATGrating if cat else optics.FlatGrating
    kw = {} if cat else {'transmission': trans}
    return cls(pos4d=p4, d=3e-4 if trans else 3e-3, order_selector=optics.OrderSelector([m]),
               groove_angle=rng.uniform(-3, 3), **kw)


def deterministic_specs():
    """Specs whose result is a function of the single photon only."""
    S = {k: v for k, v in specs().items() if not v.random}
    S['GratingOneOrder'] = Spec('GratingOneOrder', fixed_order, redirects=True, maxangle=.6)
    S['ReflectionOneOrder'] = Spec('ReflectionOneOrder', lambda r, p: fixed_order(r, p, trans=False),
                                   redirects=True, maxangle=.9)
    S['CATOneOrder'] = Spec('CATOneOrder', lambda r, p: fixed_order(r, p, cat=True), redirects=True, maxangle=.6)

    def nonpar(rng, p, **kw):
        from marxs.missions.mitsnl.catgrating import NonParallelCATGrating
        from marxs.optics import OrderSelector
        return NonParallelCATGrating(pos4d=p, d=3e-3, order_selector=OrderSelector([int(rng.integers(-3, 4))]), d_blaze_mm=rng.normal() * 1e-3,
                                     blaze_center=rng.normal() * .1, groove_angle=rng.uniform(-3, 3), **kw)

    def bent(rng, p):
        from marxs.math.geometry import Cylinder
        return nonpar(rng, p, geometry=Cylinder, phi_lim=sorted(rng.uniform(-np.pi, np.pi, 2)))
    S['NonParallelOneOrder'] = Spec('NonParallelOneOrder', nonpar, redirects=True, maxangle=.6)
    S['BentNonParallel'] = Spec('BentNonParallel', bent, redirects=True, surface='cyl')
    return S


def place(rng, t, spec, cover=1.3):
    """Pose for an element of kind `spec` in the path of the photons of t."""
    pos, d = t['pos'].data[:, :3], t['dir'].data[:, :3]
    ok = np.isfinite(pos).all(1) & np.isfinite(d).all(1)
    m = unit(np.median(d[ok], axis=0))
    c0 = np.median(pos[ok], axis=0)
    L = rng.uniform(20, 300)
    cen = c0 + L * m
    size = max(np.median(np.linalg.norm(pos[ok] + L * d[ok] - cen, axis=1)) * cover, 1.)
    ang = min(spec.maxangle * .6, .7) * rng.uniform(0, 1)
    perp = unit(np.cross(m, rng.normal(size=3)))
    nrm = (-1 if rng.uniform() < .5 else 1) * (np.cos(ang) * m + np.sin(ang) * perp)
    e2 = unit(np.cross(nrm, rng.normal(size=3)))
    R = np.column_stack([nrm, e2, np.cross(nrm, e2)])
    if spec.surface == 'cyl':
        a = size * 2
        R = np.column_stack([nrm, e2, np.cross(nrm, e2)])
        return aff(cen + a * nrm * rng.choice([-1, 1]), R, [a, a, size * rng.uniform(.6, 1.5)])
    zz = size * rng.uniform(.6, 1.5)
    return aff(cen, R, [1., size * rng.uniform(.6, 1.5) if not spec.equal else zz, zz])


def beam(rng, n, energy=(.3, 3.), prob=None, width=10., div=.02):
    """A beam of nearly parallel photons from anywhere to anywhere."""
    R = rot(rng)
    pos = np.column_stack([np.zeros(n), rng.uniform(-width, width, (n, 2))]) @ R.T + rng.normal(size=3) * 100
    d = unit(np.column_stack([-np.ones(n), rng.normal(size=(n, 2)) * div])) @ R.T
    return table(rng, pos, d, energy, prob)


CHAINABLE = ['PerfectLens', 'PerfectLensRefl', 'ThinLens', 'EnergyFilter', 'Baffle', 'FlatDetector',
             'CircularDetector', 'CCDRedistNormal', 'FlatGrating', 'FlatGratingChirp', 'ReflectionGrating',
             'CATGrating', 'NonParallelCATGrating', 'CATL1L2Stack', 'L1', 'L2Abs', 'L2Diffraction',
             'RadialMirrorScatter', 'RandomGaussianScatter', 'FlatBrewsterMirror', 'MultiLayerMirror',
             'FlatStack', 'FlatStackGrating']


def ref_hits(p4, t, surface='plane', phi_lim=(-np.pi, np.pi)):
    """(decided, hit) by the reference intersection of property C01."""
    from vmon.props.c01 import ref_plane, ref_cyl
    s, d = t['pos'].data[:, :3], t['dir'].data[:, :3]
    ok = np.isfinite(s).all(1) & np.isfinite(d).all(1)
    s, d = np.where(ok[:, None], s, 0.), np.where(ok[:, None], d, 1.)
    if surface == 'plane':
        tt, loc, dec, hit = ref_plane(p4, s, d)
    else:
        tt, loc, dec, hit = ref_cyl(p4, s, d, phi_lim)
    return dec & ok, hit & ok
