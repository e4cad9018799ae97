"""C35: bent and chirped gratings focus as designed."""
import copy

import numpy as np

from vmon import gen as G
from vmon.core import Registry

W = Registry('C35', rule='point of impact, direction, order and blaze angle of photons on bent gratings were compared to a ray trace of a cylinder through the old center of the '
             'grating; photons through all parts of chirped gratings were compared to the photon through the center',
             require={'bent': 6000, 'miss': 300, 'on torus': 500, 'chirped': 40, 'chirp photons': 3000},
             assumptions=['the grating equation of flat gratings as checked in C03 and C05, detectors as in C08', 'photons come as a cone to the focal point at the origin as the '
                          'documentation of the optimizer says'])
HC = 1.2398419843320028e-6   # keV * mm


def sel(*o):
    from marxs.optics import OrderSelector
    return OrderSelector(list(o))


class Layer:
    """One layer of a grating, with a reference for a curved surface"""

    def __init__(self, rng, kind):
        self.kind = kind
        self.groove = float(rng.choice([0, rng.uniform(-1.5, 1.5)]))
        self.d = float(10**rng.uniform(-3.7, -2.5))
        self.order = int(rng.integers(-4, 5))
        self.bc, self.db = 0., 0.
        self.trans = rng.uniform(.2, 1)
        if kind == 'par':
            self.bc, self.db = rng.uniform(-.03, .03), 10**rng.uniform(-5, -3)

    def make(self):
        from marxs import optics as O
        from marxs.missions.mitsnl.catgrating import NonParallelCATGrating
        if self.kind == 'filter':
            return O.EnergyFilter, dict(filterfunc=lambda e: 0 * e + self.trans)
        kw = dict(d=self.d, order_selector=sel(self.order), groove_angle=self.groove)
        if self.kind == 'par':
            kw.update(d_blaze_mm=self.db, blaze_center=self.bc)
        return {'flat': O.FlatGrating, 'cat': O.CATGrating, 'par': NonParallelCATGrating}[self.kind], kw

    def ref(self, d, e, n, a, b, y):
        """new direction, transmission and blaze angle; a, b: tangents; y distance to center"""
        if self.kind == 'filter':
            return d, self.trans, None
        s, co = np.sin(self.groove), np.cos(self.groove)
        l, x = -s * a + co * b, co * a + s * b
        pd = (d * x).sum(1)
        q = G.unit(d - (d * l).sum(1)[:, None] * l)
        blaze = np.arccos(np.clip(np.abs((q * n).sum(1)), 0, 1)) + self.bc + y * self.db
        sg = 1. if self.kind == 'flat' else np.where(pd < 0, -1., 1.)
        pd = pd + sg * self.order * HC / e / self.d
        pl = (d * l).sum(1)
        pn = np.sqrt(1 - pd**2 - pl**2) * np.sign((d * n).sum(1))
        return pd[:, None] * x + pl[:, None] * l + pn[:, None] * n, 1., blaze


def build(rng, p4, stack=None):
    """grating and its layers"""
    from marxs.optics import FlatStack
    kinds = ['flat', 'cat', 'par']
    if stack is None:
        stack = rng.uniform() < .7
    layers = [Layer(rng, rng.choice(kinds))]
    if stack:
        layers += [Layer(rng, rng.choice(['flat', 'filter', 'cat', 'filter'])) for _ in range(int(rng.integers(0, 3)))]
        if rng.uniform() < .3:
            layers = [Layer(rng, 'filter')] + layers
        m = [l.make() for l in layers]
        return FlatStack(pos4d=p4, elements=[a for a, b in m], keywords=[b for a, b in m]), layers
    cls, kw = layers[0].make()
    return cls(pos4d=p4, **kw), layers


def bent_ref(p4, R):
    """function: coordinates -> point, normal and tangents"""
    c0, ax, z = G.frame(p4)

    def surf(phi, h):
        phi, h = np.asarray(phi)[:, None], np.asarray(h)[:, None]
        n = np.cos(phi) * ax[:, 0] + np.sin(phi) * ax[:, 1]
        a = -np.sin(phi) * ax[:, 0] + np.cos(phi) * ax[:, 1]
        b = np.broadcast_to(ax[:, 2], a.shape)
        return c0 - R * ax[:, 0] + R * n + h * b, n, a, b
    return surf


@W(quick=160, thorough=6000)
def bend(c):
    """all photons on a bent grating are diffracted as on a cylinder through the old center"""
    from marxs.design.bendgratings import bend_gratings
    rng = c.rng
    k = int(rng.integers(1, 4))
    p4s = [G.pose(rng, ysize=(3, 60)) for _ in range(k)]
    made = [build(rng, p4) for p4 in p4s]
    other, _ = build(rng, p4s[0], stack=True)
    ysz = max(G.frame(p)[2][1] for p in p4s)
    R = float(ysz * 10**rng.uniform(.4, 3.5))
    c.note(R=R, layers=[[l.kind for l in m[1]] for m in made], groove=made[0][1][0].groove)
    shape = other.display.get('shape')
    # photons through the center are not changed by bending
    cen = []
    for (g, layers), p4 in zip(made, p4s):
        c0, ax, z = G.frame(p4)
        w = rng.uniform(-.3, .3, (20, 3))
        w[:, 0] = rng.choice([-1, 1], 20)
        w = G.unit(w) @ ax.T
        t = G.table(rng, c0 - w * rng.uniform(.1, .9, 20)[:, None] * R, w, energy=(.3, 8.), prob=1.)
        cen.append((t.copy(), g(t.copy())))
    bend_gratings([m[0] for m in made], R)
    c.check(other.display.get('shape') == shape, 'display', 'other gratings still look the same', got=other.display.get('shape'), want=shape)
    for (g, layers), p4, (t, was) in zip(made, p4s, cen):
        now = g(t.copy())
        for col in ('pos', 'dir', 'probability'):
            c.close(now[col], was[col], 'center', f'{col} of photons through the center are as before', rtol=0, atol=1e-9 * (1 + R))
        impact(c, g, layers, p4, R)
    c.count('bent gratings', k)


def impact(c, g, layers, p4, R, n=60):
    rng = c.rng
    c0, ax, z = G.frame(p4)
    lim = np.arctan(z[1] / R)
    surf = bent_ref(p4, R)
    fac = np.ones(n)
    out = rng.uniform(size=n) < .25
    fac[out] = rng.uniform(1.02, 1.5, out.sum())
    side = rng.uniform(size=n) < .5
    u = rng.uniform(-.999, .999, (n, 2))
    edge = rng.choice([-1, 1], n) * fac
    u[:, 0] = np.where(out & side, edge, u[:, 0])
    u[:, 1] = np.where(out & ~side, edge, u[:, 1])
    phi, h = u[:, 0] * lim, u[:, 1] * z[2]
    P, nn, a, b = surf(phi, h)
    ang = np.where(out, 1e-3, rng.choice([.01, .4], n))
    d = G.unit(nn + ang[:, None] * (rng.uniform(-1, 1, n)[:, None] * a + rng.uniform(-1, 1, n)[:, None] * b)) * rng.choice([-1, 1], n)[:, None]
    # CAT gratings have no defined sign for photons without angle to the bars
    dist = rng.uniform(.01, .9, n) * R
    t = G.table(rng, P - d * dist[:, None], d, energy=(.3, 8.))
    r = g(t.copy())
    hit = ~out
    c.close(r['pos'][hit, :3], P[hit], 'impact', 'photons hit the bent surface', rtol=0, atol=1e-7 * (1 + R))
    c.close(r['pos'][out], t['pos'][out], 'size', 'photons next to the bent grating are not changed', rtol=0, atol=0)
    c.close(r['dir'][out], t['dir'][out], 'size', 'photons next to the bent grating are not changed', rtol=0, atol=0)
    c.close(r['probability'][out], t['probability'][out], 'size', 'photons next to the bent grating are not changed', rtol=0, atol=0)
    D, pr = d, 1.
    e = t['energy'].data
    near = np.zeros(n, bool)
    last = None
    with np.errstate(all='ignore'):
        for l in layers:
            if l.kind in ('cat', 'par'):
                x = np.cos(l.groove) * a + np.sin(l.groove) * b
                near |= np.abs((D * x).sum(1)) < 1e-9
            D, f, bl = l.ref(D, e, nn, a, b, R * phi)
            pr = pr * f
            if bl is not None:
                last = bl, l.order
    near |= ~np.isfinite(D).all(1)
    ok = hit & ~near
    c.close(r['dir'][ok, :3], D[ok], 'diffraction', 'direction follows from the local normal and groove direction', rtol=0, atol=1e-7)
    c.close(r['probability'][ok], (t['probability'] * pr)[ok], 'layers', 'all layers act on the photons', rtol=1e-12)
    c.check(r['order'][ok] == last[1], 'order', 'order is recorded', got=r['order'][ok][:3])
    c.close(r['blaze'][ok], last[0][ok], 'blaze', 'blaze angle is relative to the local normal', rtol=0, atol=2e-7)
    c.count('bent', ok.sum())
    c.count('miss', out.sum())


def torus(rng):
    from marxs.design.rowland import RowlandTorus, design_tilted_torus
    blaze = np.deg2rad(rng.uniform(1.2, 2.5))
    f = rng.uniform(8e3, 15e3)
    R, r, p4 = design_tilted_torus(f, rng.uniform(1, 2.2) * blaze, rng.uniform(2.4, 4.4) * blaze)
    return RowlandTorus(R, r, pos4d=p4), blaze, f


@W(quick=40, thorough=1500)
def along(c):
    """gratings bent with the radius of the Rowland circle follow the torus"""
    from marxs.design.bendgratings import bend_gratings
    from marxs.design.rowland import RowlandTorus
    rng = c.rng
    r = rng.uniform(200, 9e3)
    R = r * rng.uniform(.2, 1.5)
    T = RowlandTorus(R, r, pos4d=G.rigid(rng))
    th, ph = rng.uniform(-.8, .8), rng.uniform(-np.pi, np.pi)
    if rng.uniform() < .5 and R > r:
        th += np.pi
    at = lambda x: np.asarray(T.parametric(np.array([x]), np.array([ph]))).reshape(-1, 4)[0, :3]
    ref = at(th)
    nrm = G.unit(np.asarray(T.normal_parametric(np.array([th]), np.array([ph]))).reshape(-1, 4)[0, :3])
    tan = G.unit(at(th + 1e-3) - at(th - 1e-3))
    mid = at(th + np.pi)
    out = G.unit(ref - (ref + mid) / 2)
    c.close(np.abs(out @ nrm), 1, 'torus', 'normal of the torus points away from the circle', rtol=1e-6)
    rot = np.stack([out, tan, np.cross(out, tan)], -1)
    size = rng.uniform(.001, .05) * r
    p4 = G.aff(ref, rot, np.array([1., size, size * rng.uniform(.01, .2)]))
    g, layers = build(rng, p4)
    bend_gratings([g], r)
    u = rng.uniform(-.99, .99, 40)
    P, nn, a, b = bent_ref(p4, r)(u * np.arctan(size / r), np.zeros(40))
    d = -G.unit(nn + .1 * rng.normal(size=(40, 3)))
    t = G.table(rng, P - d * rng.uniform(.01, .1) * r, d)
    q = g(t)
    F = T.quartic(np.asarray(q['pos'])[:, :3])
    # gradient of the quartic scales with R^2 r
    c.check(np.abs(F) < 1e-7 * (R + r)**4, 'on-torus', 'photons hit the grating on the torus', got=np.abs(F).max() / (R + r)**4)
    N = G.unit(np.asarray(T.normal(np.asarray(q['pos'])))[:, :3])
    c.close(np.abs((N * nn).sum(1)), 1., 'normal', 'surface normal is the normal of the torus', rtol=1e-7)
    impact(c, g, layers, p4, r, n=30)
    c.count('on torus', 40)


def cone(rng, where, energy):
    """photons that would go to the origin without grating"""
    d = -G.unit(where)
    t = G.table(rng, where * rng.uniform(1.02, 1.2), d, prob=1.)
    t['energy'] = energy
    return t


@W(quick=24, thorough=500, cpu=120)
def chirp(c):
    """photons of the design energy and order go from all parts of a grating to the place where photons from the center go"""
    from marxs.design import bendgratings as B
    from marxs.design.rowland import GratingArrayStructure
    from marxs.math.geometry import Cylinder
    from marxs.optics import CATGrating, CircularDetector, FlatGrating, FlatStack, OrderSelector
    from marxs.missions.mitsnl.catgrating import NonParallelCATGrating
    rng = c.rng
    T, blaze, f = torus(rng)
    cls = [CATGrating, FlatGrating, NonParallelCATGrating][int(rng.integers(3))]
    bent = rng.uniform() < .4
    stack = bent or rng.uniform() < .5
    size = rng.uniform(8, 30, 2)
    if rng.uniform() < .3:
        size[1] = size[0]
    order = int(rng.choice([-8, -5, -3, -1, 1, 2, 4]))
    d = float(10**rng.uniform(-3.8, -3.4))
    # dispersion angle up to 0.1 rad
    energy = float(abs(order) * HC / d / rng.uniform(.03, .12))
    groove = float(rng.choice([0, 0, rng.uniform(-.05, .05)]))
    both = rng.uniform() < .3
    os = lambda: OrderSelector([order, order + 1], p=[.5, .3]) if both else sel(order)
    kw = dict(d=d, order_selector=os(), groove_angle=groove)
    from transforms3d.axangles import axangle2mat
    args = dict(zoom=[1, *size], orientation=axangle2mat([0, 0, 1], rng.choice([-1, 1]) * blaze))
    if stack:
        args.update(elements=[cls], keywords=[kw])
    else:
        args.update(kw)
    r0 = rng.uniform(200, 500)
    gas = GratingArrayStructure(rowland=T, radius=[r0, r0 + 2.1 * size[0]], elem_class=FlatStack if stack else cls, d_element=list(2.1 * size), elem_args=args,
                                normal_spec=np.array([0, 0, 0, 1.]))
    pick = rng.permutation(len(gas.elements))[:3]
    use, spare = [gas.elements[i] for i in pick[:2]], gas.elements[pick[2]]
    col = ['detcirc_phi', 'disp'][int(rng.integers(2))]
    det = CircularDetector(geometry=Cylinder.from_rowland(T, width=3000, rotation=np.pi, kwargs={'phi_lim': [-np.pi / 2, np.pi / 2]}))
    det.loc_coos_name = [col, 'perp']
    c.note(cls=cls.__name__, bent=bent, stack=stack, size=size, order=order, d=d, energy=energy, groove=groove, f=f, blaze=blaze, both=both, col=col)
    p4 = [np.array(g.pos4d) for g in gas.elements]
    R = float(rng.choice([f, T.r, 2 * T.r, f * 3]))
    if bent:
        B.bend_gratings(use, R)
    gr = [g.elements[0] if stack else g for g in use]

    def where(i, u):
        P = p4[pick[i]]
        c0, ax, z = G.frame(P)
        if bent and i < 2:
            return bent_ref(P, R)(u[:, 0] * np.arctan(z[1] / R), u[:, 1] * z[2])[0]
        return c0 + (u * z[1:]) @ ax[:, 1:].T

    def trace(i, u):
        g = gas.elements[pick[i]]
        t = g(cone(rng, where(i, u), energy))
        o = np.asarray(t['order'])
        q = det(t)
        return np.where(o == order, np.asarray(q[col]), np.nan), o
    # points along the dispersion direction, all over the grating, and the center
    n = 40
    line = np.stack([rng.uniform(-.99, .99, n), np.zeros(n)], -1)
    full = rng.uniform(-.99, .99, (n, 2))
    pts = np.concatenate([np.zeros((12, 2)), line, full])
    before = [trace(i, pts)[0] for i in range(3)]
    finder = (B.BendNumericalChirpFinder if bent else B.NumericalChirpFinder)(det, order=order, energy=energy, d=d, **({} if col == 'detcirc_phi' and rng.uniform() < .5 else dict(colname=col)))
    grid = [{}, dict(varray=np.linspace(-.999, .999, int(rng.choice([3, 5])))), dict(uarray=np.linspace(-.999, .999, int(rng.choice([2, 4, 5]))))][int(rng.choice([0, 1, 1, 2]))]
    if 'uarray' in grid and rng.uniform() < .5:
        grid['varray'] = np.array([-.999, 0, .999])
    c.note(grid={k: len(v) for k, v in grid.items()})
    lin = len(grid.get('uarray', [0, 0, 0])) == 2
    mid = 0 in grid.get('uarray', [0])
    if rng.uniform() < .3:
        # an earlier design, which is replaced
        B.chirp_gratings(gr, type(finder)(det, order=order, energy=energy, d=1.04 * d, colname=col), 1.04 * d)
        c.count('replaced')
    B.chirp_gratings(gr, finder, d, **grid)
    for i in range(2):
        got, o = trace(i, pts)
        if both:
            c.check(np.isin(o, [order, order + 1]).all() and len(np.unique(o)) == 2, 'selector', 'orders are selected as before', got=np.unique(o, return_counts=True))
        goal = np.nanmean(before[i][:12])
        spread = np.nanmax(np.abs(before[i] - goal))
        # quadratic part is left for a linear function
        tol = 2e-8 + (1.1 if lin else .02) * spread
        if not lin and mid:
            c.close(got[:12], goal, 'center', 'photons through the center go where they did before', rtol=0, atol=2e-8) if not both else c.check(
                np.nanmax(np.abs(got[:12] - goal)) < 2e-8, 'center', 'photons through the center go where they did before', got=np.nanmax(np.abs(got[:12] - goal)))
        v = 'varray' in grid
        for s, name in ((slice(12, 12 + n), 'line'), (slice(12, None), 'all')):
            if name == 'all' and not v:
                tol = 2e-8 + 1.1 * spread
            off = np.nanmax(np.abs(got[s] - goal))
            c.check(off < tol, 'focus-' + name, 'photons from all parts of the grating go to the same place', got=off, before=spread, allowed=tol)
            c.count('chirp photons', n)
        c.count('chirped')
        c.seen('gain', int(np.log10(max(off, 1e-10) / spread)))
    got = trace(2, pts)[0]
    fin = np.isfinite(got) & np.isfinite(before[2])
    c.close(got[fin], before[2][fin], 'others', 'gratings that are not chirped are not changed', rtol=0, atol=1e-9)
    c.close([g.pos4d for g in gas.elements if g not in use], [p for p, g in zip(p4, gas.elements) if g not in use], 'pose', 'gratings stay in place', rtol=0)
    if rng.uniform() < .4:
        # again, after the orders were changed
        for g in gr:
            g.order_selector = sel(order + 2)
        B.chirp_gratings(gr[:1], finder, d)
        o = use[0](cone(rng, where(0, pts), energy))['order']
        c.check(np.asarray(o) == order + 2, 'selector-again', 'orders are selected as before chirping', got=np.unique(o), want=order + 2)


@W(quick=1, thorough=10, cpu=300)
def lynx(c):
    """gratings of the chirped Lynx design"""
    import marxs.missions.lynx.lynx as m
    from marxs.missions.mitsnl.catgrating import NonParallelCATGrating
    rng = c.rng
    conf = copy.deepcopy(m.conf_chirp)
    # fewer gratings
    i = rng.uniform(200, 1200)
    for col in ('r_inner', 'r_outer'):
        r = conf['metashellgeometry'][col]
        conf['metashellgeometry'][col] = i + (r - r.min()) * .05
    conf['chirp_order'] = float(rng.choice([-5.4, -6., -4.]))
    inst = m.PerfectLynx(conf=conf)
    flat = dict(conf)
    del flat['chirp_energy']
    old = m.PerfectLynx(conf=flat)
    A, B = [x.elements_of_class(NonParallelCATGrating, subclass_ok=False) for x in (old, inst)]
    c.note(radius=i, order=conf['chirp_order'], n=len(B))
    c.check(len(A) == len(B) and len(A) > 0, 'gratings', 'same number of gratings', got=[len(A), len(B)])
    for k in rng.permutation(len(A))[:20]:
        a, b = A[k], B[k]
        c.close(a.pos4d, b.pos4d, 'pose', 'gratings stay in place', rtol=0)
        c0, ax, z = G.frame(np.array(a.pos4d))
        u = np.stack([rng.uniform(-.99, .99, 30), np.zeros(30)], -1)
        u[:5] = 0
        t = cone(rng, c0 + (u * z[1:]) @ ax[:, 1:].T, conf['chirp_energy'])
        x = []
        for g in (a, b):
            keep, g.order_selector = g.order_selector, sel(conf['chirp_order'])
            x.append(np.asarray(m.detcirc(g(t.copy()))['detcirc_phi']))
            g.order_selector = keep
        goal = x[0][0]
        c.close(x[1][:5], goal, 'center', 'photons through the center go where they did before', rtol=0, atol=2e-8)
        c.check(np.abs(x[1] - goal).max() < 2e-8 + .02 * np.abs(x[0] - goal).max(), 'focus', 'photons from all parts of the grating go to the same place',
                got=np.abs(x[1] - goal).max(), before=np.abs(x[0] - goal).max())
        c.count('chirped')
        c.count('chirp photons', 30)
