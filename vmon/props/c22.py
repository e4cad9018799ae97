"""C22: Rowland torus surface, normals, search and parameters agree."""
import numpy as np

from vmon import gen
from vmon.core import Registry

W = Registry('C22', rule='points, normals, parameters and intersections of real tori were compared to the implicit equation of a torus',
             require={'points': 5000, 'off_surface': 2000, 'spindle': 20, 'ring': 20, 'inner': 50, 'searches': 200, 'designs': 60, 'double': 20,
                      'special_angles': 200, 'zoomed': 15, 'radius_angle': 20},
             assumptions=['searches start close to the surface and cross it at an angle of at least 10 degrees'])


def torus(c, zoom=True):
    from marxs.design import RowlandTorus
    rng = c.rng
    k = rng.integers(5)
    R = 10**rng.uniform(0, 4)
    r = R * [rng.uniform(.1, .95), 1., rng.uniform(1.001, 1.5), rng.uniform(2.2, 6.), rng.uniform(1.5, 3)][k]
    c.count('spindle' if r > R else 'ring')
    z = np.ones(3)
    if zoom and rng.uniform() < .25:
        z = np.full(3, 10**rng.uniform(-1, 1)) if rng.uniform() < .4 else 10**rng.uniform(-.5, .5, 3)
        c.count('zoomed')
    Rm, t = gen.rot(rng), rng.normal(size=3) * R * rng.choice([0, 1])
    M = gen.aff(t, Rm, z)
    if rng.uniform() < .5:
        T = RowlandTorus(R, r, pos4d=M)
    else:
        T = RowlandTorus(R=R, r=r, position=t, orientation=Rm, zoom=z)
    c.note(R=R, r=r, t=t, rot=Rm, zoom=z)
    return T, R, r, M


def local(R, r, th, ph):
    d = R + r * np.cos(th)
    return np.stack([d * np.cos(ph), r * np.sin(th), d * np.sin(ph)], -1)


def glob(M, x):
    return x @ M[:3, :3].T + M[:3, 3]


def off(R, r, x):
    """distance from the torus with axis y"""
    rho = np.hypot(x[..., 0], x[..., 2])
    return np.minimum(np.abs(np.hypot(rho - R, x[..., 1]) - r), np.abs(np.hypot(rho + R, x[..., 1]) - r))


def inv(M, x):
    return (x - M[:3, 3]) @ np.linalg.inv(M[:3, :3]).T


@W(quick=600, thorough=12000)
def surface(c):
    T, R, r, M = torus(c)
    rng = c.rng
    n = 60
    th, ph = rng.uniform(-7, 7, n), rng.uniform(-7, 7, n)
    sp = rng.uniform(size=n) < .3
    th = np.where(sp, rng.integers(-4, 5, n) * np.pi / 2, th)
    ph = np.where(sp, rng.integers(-8, 9, n) * np.pi / 4, ph)
    c.count('special_angles', int(sp.sum()))
    c.count('inner', int((R + r * np.cos(th) < 0).sum()))
    x = glob(M, local(R, r, th, ph))
    size = R + r
    zmax, zmin = np.linalg.svd(M[:3, :3], compute_uv=False)[[0, -1]]
    eps = 1e-9 * (size * zmax + np.abs(M[:3, 3]).max())
    h = T.parametric(th, ph)
    c.check(h.shape == (n, 4), 'shape', 'one point per angle')
    c.close(h[:, 3], np.ones(n), 'point', 'points of Euclidean space', atol=1e-12)
    c.close(h[:, :3], x, 'parametric', 'points of the torus', atol=eps)
    c.close(T.parametric(float(th[0]), float(ph[0])), np.append(x[0], 1), 'parametric', 'single point', atol=eps)
    # the grid form
    g = T.parametric_surface(th[:4], ph[:5], {})
    G = glob(M, local(R, r, *np.meshgrid(th[:4], ph[:5])))
    gs = g.reshape(-1, 4)[:, :3]
    d = np.linalg.norm(gs[:, None] - G.reshape(-1, 3)[None], axis=-1)
    c.check(g.shape[-1] == 4 and len(gs) == 20 and (d.min(0) < 1e-8 * (size * zmax + np.abs(M[:3, 3]).max())).all(), 'grid', 'grid contains all points')
    # equation
    q = T.quartic(x)
    scale = 4 * size**3 / zmin
    cond = 1e-9 * size**4 * (1 + np.abs(M[:3, 3]).max() / size)**2
    c.close(q, np.zeros(n), 'equation', 'points of the torus fulfil the equation', atol=cond)
    c.close(T.quartic(local(R, r, th, ph), transform=False), np.zeros(n), 'equation', 'local coordinates', atol=cond)
    y = local(R, r, th, ph) + rng.normal(size=(n, 3)) * size * .3
    f = off(R, r, y)
    far = f > 1e-2 * size
    Q = T.quartic(glob(M, y))
    c.check(np.abs(Q[far]) > cond, 'equation', 'other points do not')
    ref = ((y**2).sum(1) + R**2 - r**2)**2 - 4 * R**2 * (y[:, 0]**2 + y[:, 2]**2)
    c.check(np.sign(Q[far]) == np.sign(ref[far]), 'equation', 'sign tells inside and outside')
    c.count('off_surface', int(far.sum()))
    c.raises(ValueError, lambda: T.quartic(h), 'reject', 'homogeneous coordinates')
    # parameters
    for tr, pts in ((True, h), (False, np.hstack([local(R, r, th, ph), np.ones((n, 1))]))):
        a, b = T.xyzw2parametric(pts.copy(), transform=tr)
        c.check(np.isfinite(a).all() and np.isfinite(b).all(), 'parameters', 'finite angles')
        back = local(R, r, a, b)
        c.close(back, local(R, r, th, ph), 'parameters', 'angles of a point reproduce it', atol=1e-5 * size)
    # where the surface does not meet itself the angles are unique
    if r < R:
        c.close(np.exp(1j * a), np.exp(1j * th), 'parameters', 'theta', atol=1e-4)
        c.close(np.exp(1j * b), np.exp(1j * ph), 'parameters', 'phi', atol=1e-4)
    T.xyzw2parametric(h, intersectvalid=False)
    wrong = h.copy()
    wrong[:, :3] = glob(M, y)
    if far.any():
        c.raises(ValueError, lambda: T.xyzw2parametric(wrong), 'reject', 'points off the surface')
    # normals: perpendicular to both tangents, outwards, unit
    L, l2 = M[:3, :3], None
    tt = np.stack([-np.sin(th) * np.cos(ph), np.cos(th), -np.sin(th) * np.sin(ph)], -1) @ L.T
    tp = np.stack([-np.sin(ph), np.zeros(n), np.cos(ph)], -1) @ L.T
    outw = np.stack([np.cos(th) * np.cos(ph), np.sin(th), np.cos(th) * np.sin(ph)], -1) @ L.T
    N = T.normal_parametric(th, ph)
    c.check(N.shape == (n, 4) and np.all(N[:, 3] == 0), 'shape', 'normals are directions')
    N = N[:, :3]
    ln = np.linalg.norm(N, axis=1)
    c.check(np.isfinite(N).all() and np.all(ln > 0), 'normal', 'normals exist')
    for v, k in ((tt, 'theta'), (tp, 'phi')):
        c.close(np.sum(N * v, axis=1) / ln / np.linalg.norm(v, axis=1), np.zeros(n), 'normal', f'perpendicular to the surface along {k}', atol=1e-9)
    c.check(np.sum(N * outw, axis=1) > 0, 'normal', 'outwards')
    if np.allclose(zmax, 1) and np.allclose(zmin, 1):
        c.close(ln, np.ones(n), 'normal', 'unit length', atol=1e-9)
    reg = np.abs(R + r * np.cos(th)) > 1e-3 * size
    N2 = T.normal(h[reg])[:, :3]
    c.close(np.abs(np.sum(N2 * N[reg], axis=1)) / np.linalg.norm(N2, axis=1) / ln[reg], np.ones(reg.sum()), 'normal', 'normal of a point', atol=1e-8)
    if r < R:
        c.close(N2 / np.linalg.norm(N2, axis=1)[:, None], N[reg] / ln[reg, None], 'normal', 'normal of a point', atol=1e-4)
    c.count('points', n)


@W(quick=600, thorough=12000)
def search(c):
    T, R, r, M = torus(c)
    rng = c.rng
    size = R + r
    th, ph = rng.uniform(-np.pi, np.pi, 2)
    p = local(R, r, th, ph)
    if abs(R + r * np.cos(th)) < .05 * size:
        c.skip()
    nrm = np.array([np.cos(th) * np.cos(ph), np.sin(th), np.cos(th) * np.sin(ph)])
    v = gen.unit(rng.normal(size=3))
    if abs(v @ nrm) < .2:
        v = gen.unit(v + nrm)
    o = p - v * r * rng.uniform(-.08, .08)
    transform = bool(rng.uniform() < .7)
    vv = v * 1.
    if transform:
        oo, vv = glob(M, o), M[:3, :3] @ v
    else:
        oo = o
    O, V = np.append(oo, 1.), np.append(vv, 0.)
    c.note(th=th, ph=ph, o=oo, v=vv)
    try:
        out = T.solve_quartic(O.copy(), V.copy(), transform=transform)
    except Exception as e:
        c.check('not found' in str(e), 'search', 'search failed with ' + repr(e))
        c.count('not_found')
        return
    out = np.asarray(out).reshape(-1)
    c.check(len(out) == 4 and abs(out[3] - 1) < 1e-12, 'search', 'one point')
    x = out[:3]
    lin = np.linalg.norm(np.cross(x - oo, vv)) / np.linalg.norm(vv)
    sc = size * np.linalg.norm(M[:3, :3], 2) + np.abs(M[:3, 3]).max()
    c.check(lin < 1e-9 * sc, 'on-line', 'point on the line', off=lin)
    y = inv(M, x) if transform else x
    f = off(R, r, y)
    c.check(f < 1e-5 * size, 'on-surface', 'point on the surface', off=f / size)
    c.count('searches')


@W(quick=150, thorough=3000)
def radius_angle(c):
    T, R, r, M = torus(c, zoom=False)
    rng = c.rng
    n = int(rng.choice([1, 5]))
    # front of the torus where the line along x crosses at a fair angle
    rad, ang = rng.uniform(0, .4 * r, n), rng.uniform(0, 2 * np.pi, n)
    single = n == 1 and rng.uniform() < .7
    start = R + r
    try:
        out = T.xyz_from_radiusangle(float(rad[0]) if single else rad, float(ang[0]) if single else ang, start)
    except Exception as e:
        c.check('not found' in str(e), 'search', 'search failed with ' + repr(e))
        c.count('not_found')
        return
    out = np.asarray(out).reshape(-1, 3)
    c.note(rad=rad, ang=ang)
    c.check(len(out) == n, 'radius-angle', 'one point for each angle')
    y = inv(M, out)
    sc = R + r + np.abs(M[:3, 3]).max()
    c.close(y[:, 1], rad * np.cos(ang), 'radius-angle', 'local y', atol=1e-8 * sc)
    c.close(y[:, 2], rad * np.sin(ang), 'radius-angle', 'local z', atol=1e-8 * sc)
    c.check(off(R, r, y) < 1e-5 * (R + r), 'radius-angle', 'on the surface')
    c.check(y[:, 0] > 0, 'radius-angle', 'close to the start of the search')
    c.count('radius_angle', n)


@W(quick=250, thorough=4000)
def tilted(c):
    from marxs.design.rowland import RowlandTorus, design_tilted_torus
    rng = c.rng
    f = 10**rng.uniform(0, 4.5)
    alpha = rng.uniform(-.3, .3) * rng.choice([1, 1, 0])
    beta = alpha + rng.uniform(-.3, .3) if rng.uniform() < .7 else [0., 2 * alpha, alpha][rng.integers(3)]
    c.note(f=f, alpha=alpha, beta=beta)
    R, r, M = design_tilted_torus(f, alpha, beta)
    M0 = M.copy()
    T = RowlandTorus(R, r, pos4d=M)
    c.check(np.array_equal(M, M0), 'input', 'pose not modified')
    c.check(R > 0 and r > 0, 'tilted', 'positive radii')
    c.close(M[:3, :3] @ M[:3, :3].T, np.eye(3), 'tilted', 'proper pose', atol=1e-10)
    for name, x in (('focal point', [0., 0, 0]), ('on-axis grating', [f, 0., 0])):
        y = inv(M, np.array(x))
        c.check(off(R, r, y) < 1e-9 * f, 'tilted', f'{name} on the torus', off=off(R, r, y) / f)
    # Rowland circle: in the xy plane with radius r, centre seen under alpha from the grating
    cc = glob(M, np.array([R, 0, 0.]))
    c.close(cc, [f / 2, f / 2 * np.tan(alpha), 0], 'tilted', 'centre of the Rowland circle', atol=1e-9 * f)
    c.close(np.linalg.norm(cc), r, 'tilted', 'focal point on the Rowland circle', rtol=1e-9)
    # symmetry axis of the torus goes through the focal point, and its distance to the circle's centre is R
    ax = M[:3, 1]
    c.close(np.linalg.norm(np.cross(ax, M[:3, 3])), 0., 'tilted', 'axis of rotation goes through the focal point', atol=1e-9 * f)
    # the hinge (other end of that chord) is seen under angle beta from the grating
    hinge = 2 * (cc @ ax) * ax
    if abs(cc @ ax) > 1e-6 * f:
        c.close(np.linalg.norm(hinge - cc), r, 'tilted', 'hinge on the Rowland circle', rtol=1e-8)
        g = np.array([f, 0, 0.])
        u = hinge - g
        got = np.arctan2(u[1], -u[0])
        c.check(min(abs(np.sin(got - beta)), 1) < 1e-7, 'tilted', 'hinge under the angle beta', got=got, want=beta)
    c.count('designs')


@W(quick=150, thorough=3000)
def double(c):
    from marxs.design.rowland import add_offset_double_rowland_channels, double_rowland_from_channel_distance
    rng = c.rng
    f = 10**rng.uniform(1, 4.5)
    R = f * rng.uniform(.3, .8)
    dBF = f * 10**rng.uniform(-3, -.8)
    c.note(f=f, R=R, d=dBF)
    g = double_rowland_from_channel_distance(dBF, R, f)
    c.check(g['d_BF'] == dBF and g['f'] == f and abs(g['d'] - dBF / 2) < 1e-12 * f, 'double', 'input recorded')
    pts = {'rowland_central': [[f, 0, 0], [0, 0, 0], [0, dBF, 0]], 'rowland_central_m': [[f, 0, 0], [0, 0, 0], [0, -dBF, 0]],
           'rowland_detector': [[f, -dBF / 2, 0], [0, -dBF / 2, 0], [0, dBF / 2, 0]]}

    def on(T, x, what):
        y = inv(T.pos4d, np.array(x, float))
        c.check(off(T.R, T.r, y) < 1e-9 * f, 'double', what, off=off(T.R, T.r, y) / f)
        c.close(T.R, R, 'double', 'radius of the torus', rtol=1e-12)
    for k, P in pts.items():
        for x in P:
            on(g[k], x, f'{k}: design point on the torus')
    c.close(g['pos_opt_ax']['1'], [0, -dBF / 2, 0, 1], 'double', 'optical axis', atol=1e-9 * f)
    c.close(g['pos_opt_ax']['1m'], [0, dBF / 2, 0, 1], 'double', 'optical axis', atol=1e-9 * f)
    for k in ('geometry', ):
        c.close(g['rowland_detector'].geometry['center'], g['rowland_detector'].pos4d[:, 3], 'double', 'geometry follows the pose', atol=1e-9 * f)
    before = {k: g[k].pos4d.copy() for k in pts}
    offs = {k: list(rng.normal(size=3) * f * 1e-3) for k in rng.permutation(['1', '1m', '2', '2m', '3', '3m'])[:rng.integers(1, 7)]}
    keep = {k: list(v) for k, v in offs.items()}
    if rng.uniform() < .2:
        offs = None
        add_offset_double_rowland_channels(g)
        keep = {'1': [0, -2.5, -7.5], '1m': [0, -2.5, -2.5], '2': [0, 2.5, 2.5], '2m': [0, 2.5, 7.5]}
    else:
        add_offset_double_rowland_channels(g, offsets=offs)
        c.check(offs == keep, 'input', 'offsets not modified')
    for k, o in keep.items():
        s = 1 if 'm' in k else -1
        axis = np.array([0, s * dBF / 2, 0]) + o
        c.close(g['pos_opt_ax'][k], np.append(axis, 1), 'double', 'optical axis of the channel', atol=1e-9 * f)
        T = g['rowland_' + k]
        on(T, axis + [f, 0, 0], f'channel {k}: on-axis grating on the torus')
        on(T, axis, f'channel {k}: focal point on the torus')
        on(T, axis - [0, s * dBF, 0], f'channel {k}: mirrored focal point on the torus')
    for k in pts:
        c.check(np.array_equal(g[k].pos4d, before[k]), 'double', 'central tori stay where they are')
    # the two channels of a pair share one detector: same circle in the symmetry plane
    c.count('double')
