"""C01: ray-surface intersections are geometrically exact."""
import numpy as np

from vmon import gen
from vmon.core import Registry

W = Registry('C01', rule='at least one ray was decided against the reference solution',
             require={'rays_decided': 1000, 'hits': 300, 'misses': 300, 'behind': 50},
             assumptions=['rays within 1e-7 (relative) of an edge, of tangency or of the start point are not decided'])

BAND = 1e-7


def rays(rng, p4, n, surface):
    tgt, loc = gen.aim_points(rng, p4, n, surface, 1.6)
    scale = np.linalg.norm(p4[:3, :3])
    mode = rng.integers(0, 3, n)
    start = np.empty((n, 3))
    # far away, near by (also inside a cylinder), anywhere
    start[:] = tgt + gen.unit(rng.normal(size=(n, 3))) * rng.uniform(.01, 10, (n, 1)) * scale
    inside = (rng.uniform(-1, 1, (n, 3)) @ p4[:3, :3].T) + p4[:3, 3]
    start[mode == 1] = inside[mode == 1]
    d = tgt - start
    d[rng.uniform(size=n) < .15] *= -1
    d = gen.unit(d) * rng.choice([1., 1., .01, 30.], n)[:, None]
    return start, d


def hom(x, w):
    return np.hstack([x, np.full((len(x), 1), float(w))])


def ref_plane(p4, start, d):
    """t, local y, z, decided mask, hit mask"""
    c, ax, z = gen.frame(p4)
    s = (start - c) @ ax
    v = d @ ax
    with np.errstate(all='ignore'):
        t = -s[:, 0] / v[:, 0]
        y = s[:, 1] + t * v[:, 1]
        zz = s[:, 2] + t * v[:, 2]
    scale = z.max() + np.linalg.norm(s, axis=1)
    dn = np.linalg.norm(d, axis=1)
    decided = ((np.abs(v[:, 0]) > 1e-5 * dn) & (np.abs(t * dn) > BAND * scale) &
               (np.abs(np.abs(y) - z[1]) > BAND * scale * 10) & (np.abs(np.abs(zz) - z[2]) > BAND * scale * 10))
    hit = (t > 0) & (np.abs(y) < z[1]) & (np.abs(zz) < z[2])
    return t, np.column_stack([y, zz]), decided, hit


def ref_cyl(p4, start, d, phi_lim):
    """Nearest admissible intersection with the unit cylinder in the local frame."""
    inv = np.linalg.inv(p4)
    s = start @ inv[:3, :3].T + inv[:3, 3]
    v = d @ inv[:3, :3].T
    n = len(s)
    zoomz = np.linalg.norm(p4[:3, 2])
    T = np.full(n, np.nan)
    loc = np.full((n, 2), np.nan)
    decided = np.ones(n, bool)
    lo, hi = phi_lim
    full = hi - lo > 2 * np.pi - 1e-9
    for i in range(n):
        a = v[i, 0]**2 + v[i, 1]**2
        b = s[i, 0] * v[i, 0] + s[i, 1] * v[i, 1]
        cc = s[i, 0]**2 + s[i, 1]**2 - 1
        if a < 1e-10 * (v[i]**2).sum():
            decided[i] = False
            continue
        # in units where the direction has unit transverse length
        disc = (b * b - a * cc) / a**2
        t0 = -b / a
        if abs(disc) < 1e-7 * (1 + t0**2):
            decided[i] = False
            continue
        if disc < 0:
            continue
        for t in (t0 - np.sqrt(disc), t0 + np.sqrt(disc)):
            p = s[i] + t * v[i]
            phi = np.arctan2(p[1], p[0])
            dphi = (phi - lo) % (2 * np.pi)
            near = (abs(t) * np.sqrt(a) < 1e-7 * (1 + abs(t0) * np.sqrt(a)) or abs(abs(p[2]) - 1) < 1e-6 or
                    (not full and (dphi < 1e-6 or abs(dphi - (hi - lo)) < 1e-6 or dphi > 2 * np.pi - 1e-6)))
            ok = t > 0 and abs(p[2]) <= 1 and (full or dphi <= hi - lo)
            if near:
                decided[i] = False
                break
            if ok:
                T[i] = t
                loc[i] = phi, p[2] * zoomz
                break
    return T, loc, decided, np.isfinite(T)


def judge(c, kind, out, start, d, t, loc, decided, hit, scale, phicol=False):
    inter, pos, il = out
    inter = np.asarray(inter)
    c.check(inter.shape == (len(d),) and inter.dtype == bool, 'hit-flag-shape', kind)
    bad = decided & (inter != hit)
    c.check(~bad, 'hit-flag', f'{kind}: a hit is reported exactly when the forward ray meets the surface',
            start=start[bad][:2], dir=d[bad][:2], reported=inter[bad][:2], t=t[bad][:2], local=loc[bad][:2])
    g = decided & hit & inter
    want = start[g] + t[g, None] * d[g]
    tol = 1e-8 * (scale + np.abs(start[g]).max(initial=1) + np.abs(want).max(initial=1)) * 30
    c.close(pos[g][:, :3], want, 'hit-point', f'{kind}: intersection point', rtol=0, atol=tol)
    c.close(pos[g][:, 3], 1., 'hit-point-w', f'{kind}: homogeneous component')
    dl = il[g] - loc[g]
    if phicol:
        dl[:, 0] = (dl[:, 0] + np.pi) % (2 * np.pi) - np.pi
        dl[:, 0] *= scale
    c.close(dl, 0, 'hit-local', f'{kind}: local coordinates name the same point', rtol=0, atol=tol)
    m = ~inter
    c.check(np.isnan(pos[m][:, :3]), 'miss-has-coordinates', f'{kind}: rays that miss have no position')
    c.check(np.isnan(il[m]), 'miss-has-coordinates', f'{kind}: rays that miss have no local coordinates')
    c.count('rays_decided', decided.sum())
    c.count('hits', g.sum())
    c.count('misses', (decided & ~hit).sum())
    c.count('behind', (decided & (t < 0)).sum() if not phicol else 0)


@W(quick=400, thorough=6000)
def plane(c):
    from marxs.math.geometry import FinitePlane, RectangleHole, CircularHole
    cls = [FinitePlane, RectangleHole][c.idx % 2]
    p4 = gen.pose(c.rng, ysize=(.5, 200.), shift=c.rng.choice([0, 100., 1e4]))
    how = c.idx % 3
    if how == 0:
        g = cls({'pos4d': p4})
    else:
        cc, ax, z = gen.frame(p4)
        g = cls({'position': cc, 'orientation': ax, 'zoom': z})
    start, d = rays(c.rng, p4, 60, 'plane')
    c.note(cls=cls.__name__, pos4d=p4, how=how)
    c.seen('geometry', cls.__name__)
    out = g.intersect(hom(d, 0), hom(start, 1))
    judge(c, cls.__name__, out, start, d, *ref_plane(p4, start, d), scale=np.linalg.norm(p4[:3]))
    # rays taken one by one give the same answer
    for i in c.rng.integers(0, 60, 4):
        i1, p1, l1 = g.intersect(hom(d, 0)[i:i + 1], hom(start, 1)[i:i + 1])
        c.check(bool(i1[0]) == bool(out[0][i]), 'single-ray', 'single ray differs from the list')
        c.close(p1[0, :3], out[1][i, :3], 'single-ray', 'single ray position', atol=1e-7)
    i = int(c.rng.integers(0, 60))
    i1, p1, l1 = g.intersect(hom(d, 0)[i], hom(start, 1)[i])
    c.check(bool(np.all(i1)) == bool(out[0][i]), 'single-ray', 'one-dimensional input')
    if np.all(i1):
        c.close(p1[:3], out[1][i, :3], 'single-ray', 'one-dimensional input position', atol=1e-7)
    # tangent and normal directions at the points hit
    e1, e2, n = g.get_local_euklid_bases(out[2][out[0]])
    cc, ax, z = gen.frame(p4)
    k = int(np.sum(out[0]))
    for got, j in ((e1, 1), (e2, 2), (n, 0)):
        c.close(got, np.tile(np.append(ax[:, j], 0), (k, 1)), 'local-bases', 'axes of the plane', atol=1e-9)


@W(quick=60, thorough=600)
def plane_exact(c):
    """axis aligned plane with rays that start on it, run in it or parallel to it"""
    from marxs.math.geometry import FinitePlane
    half = c.rng.integers(1, 9, 2).astype(float)
    cen = c.rng.integers(-50, 50, 3).astype(float)
    g = FinitePlane({'position': cen, 'zoom': [1., half[0], half[1]]})
    n = 40
    start = np.tile(cen, (n, 1))
    start[:, 1:] += np.round(c.rng.uniform(-1.5, 1.5, (n, 2)) * half * 8) / 8 + 1 / 32
    d = gen.unit(c.rng.normal(size=(n, 3)))
    d[:, 0] = np.sign(d[:, 0]) * np.maximum(np.abs(d[:, 0]), .1)
    inside = np.all(np.abs(start[:, 1:] - cen[1:]) < half, axis=1)
    inter, pos, loc = g.intersect(hom(d, 0), hom(start, 1))
    c.note(center=cen, half=half)
    c.check(inter == inside, 'start-on-surface', 'a ray that starts on the surface hits it there')
    c.close(pos[inside][:, :3], start[inside], 'start-on-surface', 'hit point is the start', atol=1e-12)
    d2 = d.copy()
    d2[:, 0] = 0
    start2 = start.copy()
    start2[: n // 2, 0] += c.rng.choice([-1., 1., 7.], n // 2)
    with np.errstate(all='ignore'):
        inter, pos, loc = g.intersect(hom(d2, 0), hom(start2, 1))
    c.check(~inter, 'parallel-ray', 'a ray parallel to the plane does not hit it')
    c.check(np.isnan(pos[:, :3]) & True, 'miss-has-coordinates', 'parallel rays have no position')
    c.count('rays_decided', 2 * n)
    c.count('misses', n)


@W(quick=400, thorough=6000)
def cylinder(c):
    from marxs.math.geometry import Cylinder
    a = c.rng.uniform(1, 300)
    ell = c.idx % 4 == 3
    z = [a, a * (c.rng.uniform(.4, 2.) if ell else 1.), c.rng.uniform(.5, 300)]
    p4 = gen.aff(c.rng.normal(size=3) * c.rng.choice([0, 100., 3000.]), gen.rot(c.rng), z)
    lim = [-np.pi, np.pi]
    kw = {}
    k = c.idx % 3
    if k == 1:
        lo, hi = np.sort(c.rng.uniform(-np.pi, np.pi, 2))
        lim = [lo, hi]
    elif k == 2:   # segment across the branch cut
        lo = c.rng.uniform(.5, np.pi)
        lim = [lo, lo + c.rng.uniform(np.pi - lo, 5.)]
    if k:
        kw['phi_lim'] = list(lim)
    g = Cylinder(dict(kw, pos4d=p4))
    c.note(zoom=z, phi_lim=lim, pos4d=p4)
    c.seen('geometry', f'Cylinder{"Ellipse" if ell else ""}{k}')
    start, d = rays(c.rng, p4, 60, 'cyl')
    out = g.intersect(hom(d, 0), hom(start, 1))
    t, loc, dec, hit = ref_cyl(p4, start, d, lim)
    judge(c, 'Cylinder', out, start, d, t, loc, dec, hit, scale=max(z), phicol=True)
    # same question asked in local coordinates
    inv = np.linalg.inv(p4)
    o2 = g.intersect(hom(d, 0) @ inv.T, hom(start, 1) @ inv.T, transform=False)
    c.check((o2[0] == out[0]) | ~dec, 'cylinder-local-frame', 'local and global input agree on hits')
    both = o2[0] & out[0]
    c.close(o2[2][both][:, 1], out[2][both][:, 1], 'cylinder-local-frame', 'local z', rtol=1e-7, atol=1e-6 * z[2])
    i = int(c.rng.integers(60))
    o1 = g.intersect(hom(d, 0)[i:i + 1], hom(start, 1)[i:i + 1])
    c.check(bool(o1[0][0]) == bool(out[0][i]) or not dec[i], 'single-ray', 'single ray differs from the list')
    if out[0].any():
        il = out[2][out[0]]
        e1, e2, n = g.get_local_euklid_bases(il)
        B = np.stack([e1, e2, n], axis=1)[:, :, :3]
        c.close(np.einsum('nij,nkj->nik', B, B), np.tile(np.eye(3), (len(B), 1, 1)), 'local-bases',
                'orthonormal basis on the cylinder', atol=1e-8)
        p = (out[1][out[0]][:, :3] - p4[:3, 3])
        ax = p4[:3, :3] / np.linalg.norm(p4[:3, :3], axis=0)
        # gradient of (x/a)^2 + (y/b)^2
        q = p @ ax
        grad = np.column_stack([q[:, 0] / z[0]**2, q[:, 1] / z[1]**2, np.zeros(len(q))])
        c.close(n[:, :3], gen.unit(grad) @ ax.T, 'local-bases', 'normal on the profile', atol=1e-6)
        c.close(e2[:, :3], np.tile(ax[:, 2], (len(p), 1)), 'local-bases', 'second axis is the cylinder axis', atol=1e-8)
        c.close(np.cross(e2[:, :3], n[:, :3]), e1[:, :3], 'local-bases', 'first axis points along increasing phi', atol=1e-6)


@W(quick=60, thorough=600)
def touching(c):
    """rays that start a hair in front of or behind a surface: only those in front of it hit"""
    from marxs.math.geometry import Cylinder, FinitePlane
    n = 60
    off = 10.**c.rng.uniform(-7, -1, n) * c.rng.choice([-1., 1.], n)
    if c.idx % 2:
        p4 = gen.aff(c.rng.normal(size=3) * 50, gen.rot(c.rng), [1., *c.rng.uniform(5, 50, 2)])
        cc, ax, z = gen.frame(p4)
        g = FinitePlane({'pos4d': p4})
        tgt = cc + (c.rng.uniform(-.8, .8, (n, 2)) * z[1:]) @ ax[:, 1:].T
        d = gen.unit(c.rng.normal(size=(n, 3)) * .5 + ax[:, 0] * c.rng.choice([-2., 2.], (n, 1)))
        nrm = np.tile(ax[:, 0], (n, 1))
    else:
        a = c.rng.uniform(5, 50)
        p4 = gen.aff(c.rng.normal(size=3) * 50, gen.rot(c.rng), [a, a, 200.])
        g = Cylinder({'pos4d': p4, 'phi_lim': [-1., 1.]})
        cc, ax, z = gen.frame(p4)
        phi = c.rng.uniform(-.8, .8, n)
        nrm = np.column_stack([np.cos(phi), np.sin(phi), 0 * phi]) @ ax.T
        tgt = cc + nrm * a + ax[:, 2] * c.rng.uniform(-100, 100, (n, 1))
        d = gen.unit(nrm * c.rng.choice([-1., 1.], (n, 1)) + gen.unit(c.rng.normal(size=(n, 3))) * .05)
    dn = np.sum(d * nrm, axis=1)
    dec = np.abs(dn) > .1
    start = tgt - d * off[:, None]
    c.note(surface=type(g).__name__, pos4d=p4)
    inter, pos, loc = g.intersect(hom(d, 0), hom(start, 1))
    bad = dec & (inter != (off > 0))
    c.check(~bad, 'start-near-surface', f'{type(g).__name__}: only the part of the ray in front of its start counts',
            offset=off[bad][:3], reported=inter[bad][:3])
    ok = dec & inter & (off > 0)
    c.close(pos[ok][:, :3], tgt[ok], 'start-near-surface', 'position of the hit', atol=1e-9)
    c.count('rays_decided', dec.sum())
    c.count('near_surface', dec.sum())


@W(quick=40, thorough=400)
def cylinder_rowland(c):
    """a cylinder made from a Rowland torus passes through the Rowland circle"""
    from marxs.math.geometry import Cylinder
    from marxs.design.rowland import RowlandTorus
    r = c.rng.uniform(100, 5000)
    R = c.rng.uniform(.1, 2) * r
    p4 = gen.aff(c.rng.normal(size=3) * 100, gen.rot(c.rng))
    tor = RowlandTorus(R, r, pos4d=p4)
    rotation = c.rng.choice([0., np.pi, 1.])
    w = c.rng.uniform(1, 50)
    g = Cylinder.from_rowland(tor, width=w, rotation=rotation)
    c.note(R=R, r=r, rotation=rotation, width=w)
    ph = c.rng.uniform(-np.pi, np.pi, 20)
    circ = np.column_stack([R + r * np.cos(ph + rotation), r * np.sin(ph + rotation), 0 * ph])
    ax = np.array([0, 0, 1.])
    dloc = np.column_stack([np.cos(ph + rotation), np.sin(ph + rotation), 0 * ph])
    start = circ - dloc * r * .5
    start = start @ p4[:3, :3].T + p4[:3, 3]
    d = dloc @ p4[:3, :3].T
    inter, pos, loc = g.intersect(hom(d, 0), hom(start, 1))
    c.check(inter, 'hit-flag', 'ray from inside hits the ring')
    c.close(pos[:, :3], circ @ p4[:3, :3].T + p4[:3, 3], 'hit-point', 'on the Rowland circle', rtol=1e-8, atol=1e-6 * r)
    dphi = (loc[:, 0] - ph + np.pi) % (2 * np.pi) - np.pi
    c.close(dphi, 0, 'hit-local', 'azimuth counted from the rotated origin', atol=1e-6)
    c.close(loc[:, 1], 0, 'hit-local', 'height', atol=1e-6 * r)
    # settings handed over are used and left alone
    lim = sorted(c.rng.uniform(-3., 3., 2).tolist())
    kw = {'phi_lim': list(lim)}
    for rot in (rotation, rotation + 1.):
        gk = Cylinder.from_rowland(tor, width=w, rotation=rot, kwargs=kw)
        c.check(kw == {'phi_lim': lim}, 'rowland-settings', 'the dictionary of settings is not changed', got=kw)
        c.close(np.ravel(gk.coos_limits[0]), lim, 'rowland-settings', 'limits in azimuth')
        c.close(gk.pos4d, Cylinder.from_rowland(tor, width=w, rotation=rot).pos4d, 'rowland-settings',
                'position does not depend on the settings or on an earlier cylinder', atol=1e-9 * r)
    c.count('rays_decided', 20)
    c.count('hits', 20)


@W(quick=250, thorough=3000)
def elements(c):
    """what elements record for the photons they meet"""
    S = gen.specs()
    names = [n for n in S]
    s = S[names[c.idx % len(names)]]
    p4 = s.pose(c.rng)
    e = s.make(c.rng, p4)
    t = s.photons(c.rng, p4, 50)
    c.note(element=s.name, pos4d=p4)
    c.seen('element', s.name)
    start, d = t['pos'].data[:, :3].copy(), t['dir'].data[:, :3].copy()
    if s.surface == 'plane':
        tt, loc, dec, hit = ref_plane(p4, start, d)
    else:
        tt, loc, dec, hit = ref_cyl(p4, start, d, tuple(e.geometry.coos_limits[0]))
    old = t['pos'].data.copy()
    out = e(t)
    pos = out['pos'].data
    g, m = dec & hit, dec & ~hit
    c.close(pos[g][:, :3], (start + tt[:, None] * d)[g], 'element-hit-point', f'{s.name}: position of photons that hit',
            rtol=1e-9, atol=1e-6)
    c.same(pos[m], old[m], 'element-miss-moved', f'{s.name}: photons that miss stay where they are')
    c.count('rays_decided', dec.sum())
    c.count('hits', g.sum())
    c.count('misses', m.sum())
    names = getattr(e, 'loc_coos_name', None)
    if s.local and names is not None and g.any():
        for j in (0, 1):
            got = np.asarray(out[names[j]], float)
            dl = got - loc[:, j]
            if s.surface != 'plane' and j == 0:
                dl = (dl + np.pi) % (2 * np.pi) - np.pi
            c.close(dl[g], 0, 'element-local', f'{s.name}: local coordinate {names[j]}', rtol=0, atol=1e-6)
            c.check(np.isnan(got[m]), 'element-local', f'{s.name}: no local coordinates for misses')
