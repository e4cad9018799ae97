"""C08: diffraction obeys the grating equation for every order and incidence."""
import astropy.units as u
import numpy as np
from scipy import constants as const

from vmon import gen
from vmon.core import Registry

HC = const.h * const.c / const.e * 1e3 * 1e-3   # keV mm: (J s m/s / J/eV -> eV m) = 1e-3 keV * 1e3 mm

W = Registry('C08', rule='directions behind real gratings were compared to the vector grating equation',
             require={'photons_diffracted': 10000, 'orders_checked': 20, 'periods_checked': 1000, 'order_zero': 500},
             assumptions=['photons whose order is evanescent (no real direction exists) are not judged',
                          'sign of orders: FlatGrating moves positive orders along the axis perpendicular to the grooves '
                          '(local y for groove angle 0); CAT gratings blaze on the side of negative orders'])


class Selector:
    """records how it is called; orders and probabilities of its own choosing"""

    def __init__(self, rng, orders):
        self.rng, self.orders, self.calls = rng, orders, []

    def __call__(self, energy, pol, blaze):
        m = self.rng.choice(self.orders, len(energy))
        p = self.rng.uniform(0, 1, len(energy))
        self.calls.append((np.array(energy), np.array(pol), np.array(blaze), m, p))
        return m, p


def local_frame(surface, p4, pos):
    """surface axes (1, 2, normal) and local coordinates at global points"""
    c, ax, z = gen.frame(p4)
    q = (pos - c) @ ax
    n = len(pos)
    if surface == 'plane':
        return [np.tile(ax[:, i], (n, 1)) for i in (1, 2, 0)], q[:, 1:]
    phi = np.arctan2(q[:, 1] / z[1], q[:, 0] / z[0])
    nrm = gen.unit(np.column_stack([q[:, 0] / z[0]**2, q[:, 1] / z[1]**2, 0 * phi])) @ ax.T
    e2 = np.tile(ax[:, 2], (n, 1))
    return [np.cross(e2, nrm), e2, nrm], np.column_stack([phi, q[:, 2]])


KINDS = ['flat', 'cat', 'flat-reflection', 'nonparallel', 'cylinder', 'cylinder-ell', 'l1', 'cylinder-reflection']


@W(quick=640, thorough=8000)
def diffraction(c):
    from marxs import optics
    from marxs.math.geometry import Cylinder
    from marxs.missions.mitsnl import catgrating as cat
    rng = c.rng
    kind = KINDS[c.idx % len(KINDS)]
    surface = 'cyl' if kind.startswith('cyl') else 'plane'
    trans = 'reflection' not in kind
    if surface == 'cyl':
        a = rng.uniform(10, 60)
        p4 = gen.aff(rng.normal(size=3) * 200, gen.rot(rng), [a, a * (rng.uniform(.5, 2) if 'ell' in kind else 1), rng.uniform(5, 50)])
    else:
        p4 = gen.pose(rng)
    ga = float(rng.choice([0., np.pi / 2, -.3, 1.1, 2.6, -np.pi])) if rng.uniform() < .5 else rng.uniform(-4, 4)
    if kind == 'nonparallel' and rng.uniform() < .6:
        ga = 0.
    d0 = 10**rng.uniform(-3.9, -1.5)
    slope = rng.uniform(-1, 1, 2) / np.linalg.norm(p4[:3, :3], axis=0).max() * .3
    dcalls = []
    dfunc = lambda ic: d0 * (1 + ic[:, 0] * slope[0] + np.sin(ic[:, 1] * slope[1]))

    def drec(ic):
        dcalls.append(np.array(ic))
        return dfunc(ic)
    chirp = rng.uniform() < .5 and kind != 'l1'
    orders = np.unique(rng.integers(-12, 13, rng.integers(1, 6)))
    if rng.uniform() < .15:
        orders = np.array([0])
    sel = Selector(rng, orders)
    kw = dict(pos4d=p4, order_selector=sel, groove_angle=ga)
    oc, bc = 'order', 'blaze'
    mod = np.zeros(2)
    if kind in ('flat', 'flat-reflection'):
        g = optics.FlatGrating(d=drec if chirp else d0, transmission=trans, **kw)
    elif surface == 'cyl':
        g = optics.FlatGrating(d=drec if chirp else d0, transmission=trans, geometry=Cylinder, **kw)
    elif kind == 'cat':
        g = optics.CATGrating(d=drec if chirp else d0, **kw)
    elif kind == 'nonparallel':
        # bars tilt with the distance across the grooves; that is local y for groove angle 0
        mod = np.array([rng.normal() * .01, rng.normal() * 1e-3 * (ga == 0)])
        if rng.uniform() < .3:
            g = cat.NonParallelCATGrating(d=drec if chirp else d0, **kw)
            mod[:] = 0
        else:
            g = cat.NonParallelCATGrating(d=drec if chirp else d0, blaze_center=mod[0], d_blaze_mm=mod[1], **kw)
    else:
        oc, bc = 'order_L1', 'blaze_L1'
        g = cat.L1(l1_dims={'bardepth': rng.uniform(.5, 5) * u.um, 'period': d0 * u.mm, 'barwidth': d0 * rng.uniform(.01, .4) * u.mm}, **kw)
    n = int(rng.choice([1, 40, 40]))
    maxangle = float(rng.choice([.05, .5, 1.4]))
    t = gen.aim(rng, p4, n, surface=surface, spread=1.2, maxangle=maxangle)
    if maxangle == .05 and surface == 'plane' and rng.uniform() < .3:     # exactly perpendicular rays
        t['dir'][:, :3] = p4[:3, 0] / np.linalg.norm(p4[:3, 0]) * rng.choice([-1, 1])
        t['pos'][:, :3] = gen.aim_points(rng, p4, n)[0] - 20 * t['dir'].data[:, :3]
        t['polarization'][:, :3] = gen.perp_pol(rng, t['dir'].data[:, :3])
    if rng.uniform() < .2 and kind != 'l1':     # propagation vectors of any length
        t['dir'] *= rng.uniform(.1, 10, (n, 1))
    t0 = t.copy()
    c.note(kind=kind, groove_angle=ga, d=d0, chirp=chirp, orders=orders, pose=p4)
    c.seen('kind', f'{kind}{"-chirp" if chirp else ""}')
    o = g(t)
    if not sel.calls:
        c.skip()
    dec, hit = gen.ref_hits(p4, t0, surface)
    # who was processed: the selector saw exactly those photons (order column filled)
    proc = np.isfinite(np.asarray(o[oc], dtype=float))
    c.check((proc == hit) | ~dec, 'processed', f'{kind}: photons that meet the grating are diffracted')
    c.check(len(sel.calls) == 1 and len(sel.calls[0][0]) == proc.sum(), 'selector-calls', f'{kind}: one call with all photons that hit')
    en, pol, bl, m, pr = sel.calls[0]
    c.same(en, np.asarray(t0['energy'])[proc], 'selector-input', f'{kind}: energies passed to the order selector')
    c.same(pol, t0['polarization'].data[proc], 'selector-input', f'{kind}: polarization passed to the order selector')
    din = gen.unit(t0['dir'].data[proc, :3])
    dout = o['dir'].data[proc, :3]
    (e1, e2, nrm), loc = local_frame(surface, p4, o['pos'].data[proc, :3])
    groove = -np.sin(ga) * e1 + np.cos(ga) * e2
    across = np.cos(ga) * e1 + np.sin(ga) * e2
    dot = lambda a, b: np.einsum('ij,ij->i', a, b)
    # recorded order is the one that was used (support bars: passes undeflected)
    rec = np.asarray(o[oc], dtype=float)[proc]
    if kind == 'l1':
        c.check((rec == m) | (rec == 0), 'order-recorded', f'{kind}: order of the selector, or none')
        m = rec
    else:
        c.check(rec == m, 'order-recorded', f'{kind}: recorded order is the one selected')
        c.close(np.asarray(o['probability'])[proc], np.asarray(t0['probability'])[proc] * pr, 'probability-used',
                f'{kind}: probability of the selector is applied', rtol=1e-12)
    want_b = np.arctan2(np.abs(dot(din, across)), np.abs(dot(din, nrm)))
    if kind == 'nonparallel':
        want_b = want_b + mod[0] + mod[1] * loc[:, 0]
    c.close(bl, want_b, 'blaze', f'{kind}: blaze angle', atol=1e-7)
    c.same(np.asarray(o[bc])[proc], bl, 'blaze', f'{kind}: blaze angle recorded is the one used')
    if chirp:
        c.check(len(dcalls) == 1, 'period-calls', 'period evaluated once')
        c.close(dcalls[-1], loc, 'period-where', f'{kind}: period evaluated at the point of impact', rtol=1e-7, atol=1e-6 * np.abs(p4).max())
        c.count('periods_checked', proc.sum())
        d = dfunc(loc)
    else:
        d = d0
    pa, pl = dot(din, across), dot(din, groove)
    lam = HC / en
    if kind in ('cat', 'nonparallel', 'l1'):
        s = np.sign(pa)
        clear = np.abs(pa) > 1e-9
    else:
        s, clear = np.ones(len(m)), np.ones(len(m), bool)
    # positive orders of a CAT grating increase the component across the grooves
    q = pa + s * m * lam / d
    disc = 1 - q**2 - pl**2
    ok = (disc > 1e-4) & clear & np.isfinite(dout).all(1)
    c.check(np.isfinite(dout).all(1) | (disc < 1e-9) | ~clear, 'real-order', f'{kind}: orders that exist have a direction')
    # an order that does not exist cannot be observed
    ev = (disc < -1e-4) & clear
    c.count('evanescent', ev.sum())
    c.check(~(np.isfinite(dout[ev]).all(1) & (np.asarray(o['probability'])[proc][ev] > 0)), 'evanescent',
            f'{kind}: photons of orders that do not exist have no direction')
    if not ok.any():
        return
    c.count('photons_diffracted', ok.sum())
    c.count('orders_checked', len(np.unique(m[ok])))
    c.count('order_zero', (m[ok] == 0).sum())
    c.close(np.linalg.norm(dout, axis=1)[ok], 1., 'unit-length', f'{kind}: unit length', rtol=1e-9)
    c.close(dot(dout, groove)[ok], pl[ok], 'along-grooves', f'{kind}: component along the grooves', atol=1e-8)
    c.close(dot(dout, across)[ok], q[ok], 'across-grooves', f'{kind}: component across the grooves', atol=1e-7, rtol=1e-6)
    side = np.sign(dot(din, nrm)) * (1 if trans else -1)
    c.close(dot(dout, nrm)[ok], (side * np.sqrt(np.clip(disc, 0, 1)))[ok], 'side', f'{kind}: component along the normal', atol=1e-5)
    z = ok & (m == 0)
    if z.any():
        spec = din if trans else din - 2 * dot(din, nrm)[:, None] * nrm
        c.close(dout[z], spec[z], 'order-zero', f'{kind}: order 0', atol=1e-8)
        if trans:
            pin = t0['polarization'].data[proc][z]
            c.close(o['polarization'].data[proc][z], pin, 'order-zero-polarization', f'{kind}: order 0 keeps polarization', atol=1e-6)
    if (~clear).any():       # either side is allowed, but not something else
        w = ~clear & np.isfinite(dout).all(1)
        c.close(np.abs(dot(dout, across) - pa)[w], np.abs(m * lam / d)[w], 'across-grooves', f'{kind}: perpendicular incidence', atol=1e-7, rtol=1e-6)


@W(quick=60, thorough=600)
def undo(c):
    """a second grating of the same kind with the opposite order restores the direction;
    orders of consecutive identical gratings add"""
    from marxs import optics
    rng = c.rng
    p4 = gen.pose(rng, xsize=(1, 1))
    ga = rng.uniform(-3, 3)
    d = rng.uniform(3e-4, 3e-3)
    m1, m2 = int(rng.integers(-5, 6)), int(rng.integers(-5, 6))
    big = p4 @ np.diag([1, 1e3, 1e3, 1])

    def g(m, shift):
        q = big.copy()
        q[:3, 3] += shift * gen.frame(p4)[1][:, 0]
        return optics.FlatGrating(pos4d=q, d=d, groove_angle=ga, order_selector=optics.OrderSelector([m]))
    t = gen.aim(rng, p4, 30, spread=.5, maxangle=.5, away=0, side=1., energy=(1., 3.))
    a = g(m2, 4.)(g(m1, 2.)(t.copy()))
    b = g(m1 + m2, 3.)(t.copy())
    z = g(-m1, 4.)(g(m1, 2.)(t.copy()))
    ok = np.isfinite(a['dir'].data).all(1) & np.isfinite(b['dir'].data).all(1)
    c.note(m1=m1, m2=m2, d=d, ga=ga)
    c.count('photons_diffracted', 2 * ok.sum())
    c.close(a['dir'].data[ok], b['dir'].data[ok], 'orders-add', 'two orders in a row add', atol=1e-8)
    ok = np.isfinite(z['dir'].data).all(1)
    c.close(z['dir'].data[ok], t['dir'].data[ok], 'orders-undo', 'opposite orders cancel', atol=1e-8)


@W(quick=1, thorough=1)
def rejects(c):
    from marxs import optics
    c.raises(ValueError, lambda: optics.FlatGrating(order_selector=optics.OrderSelector([0])), 'reject', 'no period')
