"""C21: homogeneous and line coordinates represent the same points and lines."""
import numpy as np
from scipy.spatial.transform import Rotation

from vmon import gen
from vmon.core import Registry

W = Registry('C21', rule='results of the real coordinate helpers were compared to elementary geometry in Euclidean coordinates',
             require={'points': 5000, 'lines': 5000, 'parallel': 100, 'contained': 100, 'moved': 3000, 'angles': 5000, 'rotations': 2000,
                      'poses': 100, 'rejected': 30, 'weights': 100})


def shape(rng):
    return [(), (1,), (0,), (7,), (3, 5), (2, 1, 4)][rng.integers(6)]


def vecs(rng, sh, kind=None):
    v = rng.normal(size=sh + (3,)) * 10**rng.uniform(-3, 4)
    k = rng.integers(4)
    if k == 0:
        v = v * (rng.uniform(size=v.shape) < .5)
    if k == 1:
        v = np.round(v)
    return v


def nonzero(rng, sh):
    v = rng.normal(size=sh + (3,))
    if rng.uniform() < .4:
        v = np.eye(3)[rng.integers(0, 3, sh)] * rng.choice([-1., 1.], sh)[..., None]
    return v * 10**rng.uniform(-3, 3)


@W(quick=1200, thorough=20000)
def coordinates(c):
    from marxs.math import utils
    rng = c.rng
    sh = shape(rng)
    e = vecs(rng, sh)
    if rng.uniform() < .2:
        e = np.round(e).astype(int)
    c.note(shape=sh)
    for w in (0, 1):
        e0 = e.copy()
        hh = utils.e2h(e, w)
        c.check(hh.shape == sh + (4,) and np.array_equal(hh[..., :3], e) and np.all(hh[..., 3] == w), 'e2h', f'homogeneous coordinates w={w}')
        hh0 = hh.copy()
        back = utils.h2e(hh)
        c.check(back.shape == e.shape and np.array_equal(back, e), 'inverse', 'back to the same Euclidean coordinates')
        c.check(np.array_equal(e, e0) and np.array_equal(hh, hh0), 'input', 'input not modified')
    # any representation of the same point
    wk = rng.integers(4)
    w = [10**rng.uniform(-3, 3, sh), rng.choice([-1., 1.], sh) * 10**rng.uniform(-3, 3, sh), 1 + rng.normal(size=sh) * 1e-6, np.full(sh, -1.)][wk]
    w = np.asarray(w)
    if np.all(w != 0):
        rep = np.concatenate([e * w[..., None], w[..., None]], axis=-1)
        r0 = rep.copy()
        c.close(utils.h2e(rep), e, 'weight', 'points do not depend on the weight', rtol=1e-12, atol=1e-12)
        c.check(np.array_equal(rep, r0), 'input', 'input not modified')
        c.count('weights')
    if len(sh) and np.prod(sh) > 1:
        mix = utils.e2h(e, 1)
        mix[(0,) * len(sh)][3] = 0
        c.raises(ValueError, lambda: utils.h2e(mix), 'reject', 'mixture of points and directions')
        c.count('rejected')
    c.raises(ValueError, lambda: utils.e2h(e, [.5, 2, -1][rng.integers(3)]), 'reject', 'weight other than 0 and 1')
    # norm and distance
    n = int(rng.integers(1, 20))
    v = nonzero(rng, (n,))
    k = utils.norm_vector(v)
    c.close(k, v / np.sqrt((v**2).sum(1))[:, None], 'norm', 'unit vectors', rtol=1e-12)
    a, b = vecs(rng, (n,)), vecs(rng, (n,))
    d = np.sqrt(((a - b)**2).sum(1))
    ha, hb = utils.e2h(a, 1), utils.e2h(b, 1)
    s = rng.uniform(.5, 2)
    c.close(utils.distance_point_point(ha, hb), d, 'distance', 'distance of many points', rtol=1e-10, atol=1e-9)
    c.close(utils.distance_point_point(ha[0] * s, hb[0]), d[0], 'distance', 'distance of two points', rtol=1e-10, atol=1e-9)
    c.close(utils.distance_point_point(ha[:1] * s, hb), np.sqrt(((a[0] - b)**2).sum(1)), 'distance', 'distances from one point', rtol=1e-10, atol=1e-9)
    c.close(utils.distance_point_point(ha[0], hb * s), np.sqrt(((a[0] - b)**2).sum(1)), 'distance', 'distances from one point', rtol=1e-10, atol=1e-9)
    c.count('points', int(np.prod(sh, dtype=int)) + n)


@W(quick=1200, thorough=20000)
def lines(c):
    from marxs.math import pluecker as P
    from marxs.math.utils import e2h
    rng = c.rng
    sh = shape(rng)
    S = 10**rng.uniform(-2, 4)
    p, d = rng.normal(size=sh + (3,)) * S, nonzero(rng, sh)
    nrm = nonzero(rng, ())
    q = rng.normal(size=3) * S
    mode = rng.integers(4)
    if mode == 0 and len(sh):      # parallel lines
        i = rng.integers(3)
        nrm = np.eye(3)[i] * 2.
        d = d - (d @ nrm)[..., None] * nrm / 4
        d = np.where(np.linalg.norm(d, axis=-1)[..., None] > 0, d, np.eye(3)[(i + 1) % 3])
        c.count('parallel')
    wq = rng.choice([1., 1., 2., .3, -1.5])
    plane = P.point_dir2plane(e2h(q, 1) * wq, e2h(nrm, 0))
    c.note(shape=sh, mode=int(mode), q=q, nrm=nrm)
    u = nrm / np.linalg.norm(nrm)
    c.check(plane.shape == (4,), 'shape', 'one plane')
    # plane: points on it fulfil the equation, others give their distance
    x = rng.normal(size=(30, 3)) * S
    on = x - ((x - q) @ u)[:, None] * u
    c.close(e2h(on, 1) @ plane, np.zeros(30), 'plane', 'points of the plane fulfil its equation', atol=1e-9 * S * 10)
    c.close(np.abs(e2h(x, 1) @ plane), np.abs((x - q) @ u), 'plane', 'other points do not', atol=1e-9 * S * 10)
    # lines
    l1 = P.dir_point2line(d, p)
    l2 = P.e_pointpoint2line(p, p + d)
    c.check(l1.shape == sh + (6,) and l2.shape == sh + (6,), 'shape', 'one line per input')
    lam = rng.normal(size=sh + (1,)) * 10
    l3 = P.dir_point2line(d, p + lam * d)
    size = (np.linalg.norm(d, axis=-1) * (np.linalg.norm(p, axis=-1) + np.linalg.norm(d, axis=-1) * 50)).max(initial=1e-30)
    big = 1e-14 * (1 + np.abs(p).max(initial=0) + np.abs(d).max(initial=0))**2
    c.close(l1, l2, 'line', 'direction and point or two points', atol=1e-11 * size + big)
    c.close(l1, l3, 'line', 'every point of the line gives the same line', atol=1e-11 * size + big)
    c.close(np.sum(l1[..., :3] * l1[..., 3:], axis=-1), np.zeros(sh), 'line', 'coordinates are those of a line', atol=1e-10 * size * np.abs(d).max(initial=1) + 1e-12)
    # intersection
    f = P.intersect_line_plane(l1, plane)
    c.check(f.shape == sh + (4,), 'shape', 'one intersection per line')
    dn = d @ u
    dl = np.linalg.norm(d, axis=-1)
    steep = np.abs(dn) > 1e-3 * dl
    with np.errstate(all='ignore'):
        t = ((q - p) @ u) / dn
        want = p + t[..., None] * d
        got = f[..., :3] / f[..., 3:]
    far = (np.abs(t) * dl + S)[..., None] if len(sh) else np.abs(t) * dl + S
    c.check(np.all((np.abs(got - want) <= 1e-8 * far)[steep]) if len(sh) else (not steep or np.all(np.abs(got - want) <= 1e-8 * far)),
            'intersection', 'intersection of line and plane')
    if mode == 0 and len(sh):
        c.check(np.abs(f[..., 3]) <= 1e-12 * dl.max(initial=0), 'infinity', 'parallel lines meet at infinity')
        inp = P.dir_point2line(d, p - ((p - q) @ u)[..., None] * u)
        g = P.intersect_line_plane(inp, plane)
        c.close(g, np.zeros(sh + (4,)), 'contained', 'line in the plane', atol=1e-10 * size + 1e-11)
        c.count('contained')
    # angle between normal and line
    ang = P.angle_line_plane(l1, plane)
    cr = np.linalg.norm(np.cross(d, u), axis=-1)
    c.close(ang, np.arctan2(cr, dn), 'angle', 'angle of line and normal', atol=1e-7)
    ang = P.angle_line_plane(P.dir_point2line(nrm * 3.3, q), plane)
    c.close(ang, 0., 'angle', 'line along the normal', atol=1e-7)
    c.count('lines', int(np.prod(sh, dtype=int)))
    # the same construction with moved points
    M = gen.aff(rng.normal(size=3) * S, gen.rot(rng), 10**rng.uniform(-1, 1, 3) if rng.uniform() < .5 else 1.)
    if rng.uniform() < .3:
        M[:3, :3] = M[:3, :3] @ (np.eye(3) + np.triu(rng.normal(size=(3, 3)), 1))
    mp, md = p @ M[:3, :3].T + M[:3, 3], d @ M[:3, :3].T
    mn = np.linalg.inv(M[:3, :3]).T @ nrm
    mq = M[:3, :3] @ q + M[:3, 3]
    g = P.intersect_line_plane(P.dir_point2line(md, mp), P.point_dir2plane(e2h(mq, 1), e2h(mn, 0)))
    with np.errstate(all='ignore'):
        g = g[..., :3] / g[..., 3:]
    mw = want @ M[:3, :3].T + M[:3, 3]
    s2 = np.abs(dn) > 1e-2 * dl
    tol = 1e-6 * far * (1 + np.abs(M[:3, :3]).max()) * np.linalg.cond(M[:3, :3])
    bad = np.abs(g - mw) > tol
    c.check(not np.any(bad[s2]) if len(sh) else not (s2 and bad.any()), 'moved', 'moving line and plane moves their intersection')
    c.count('moved', int(np.sum(s2)))


@W(quick=400, thorough=10000)
def angles(c):
    from marxs.math.utils import anglediff, angle_between
    rng = c.rng
    lo = rng.uniform(-8, 8) if rng.uniform() < .7 else rng.choice([0., -np.pi, np.pi, 2 * np.pi, -2 * np.pi, np.pi / 2])
    width = [rng.uniform(0, 2 * np.pi), 2 * np.pi, rng.uniform(0, .01), np.pi][rng.integers(4)]
    turns = rng.integers(-2, 3)
    hi = lo + width
    full = width == 2 * np.pi
    if not full:
        hi = hi + 2 * np.pi * turns
    c.note(lo=lo, hi=hi, width=width)
    # the difference is the counter-clockwise angle
    got = anglediff([lo, hi])
    c.close(got, width, 'anglediff', 'angle covered', atol=1e-12) if not (full or width < 1e-9 or width > 2 * np.pi - 1e-9) else None
    if full:
        c.check(min(abs(got - width), 9.) < 1e-9, 'anglediff', 'full circle', got=got)
    n = 40
    frac = np.concatenate([rng.uniform(0, 1, n), rng.uniform(0, 1e-3, 4), 1 - rng.uniform(0, 1e-3, 4)])
    inside = lo + frac * width
    outside = lo + width + frac * (2 * np.pi - width)
    k = 2 * np.pi * rng.integers(-2, 3, len(frac))
    edge = 1e-10
    m = (frac * width > edge) & ((1 - frac) * width > edge)
    c.check(angle_between((inside + k)[m], lo, hi), 'between', 'angle inside the interval')
    if not full:
        o = 2 * np.pi - width
        m = (frac * o > edge) & ((1 - frac) * o > edge)
        c.check(~angle_between((outside + k)[m], lo, hi), 'between', 'angle outside the interval')
    x = float(inside[0] + k[0])
    if frac[0] * width > edge and (1 - frac[0]) * width > edge:
        c.check(bool(angle_between(x, lo, hi)), 'between', 'single angle')
    # borders belong to the interval (exactly representable angles)
    lo2, hi2 = sorted(rng.integers(0, 24, 2) / 4)
    c.check(bool(angle_between(lo2, lo2, hi2)) and bool(angle_between(hi2, lo2, hi2)), 'between', 'borders included', lo=lo2, hi=hi2)
    c.count('angles', len(frac))


@W(quick=400, thorough=8000)
def rotations(c):
    from marxs.math.rotations import axangle2mat, ex2vec_fix
    rng = c.rng
    n = int(rng.choice([1, 3, 20]))
    ax = nonzero(rng, (n,))
    ang = rng.uniform(-7, 7, n) * rng.choice([1., 1e-4, 0.])
    keep = ax.copy()
    R = axangle2mat(ax, ang)
    un = ax / np.linalg.norm(ax, axis=1)[:, None]
    want = Rotation.from_rotvec(un * ang[:, None]).as_matrix()
    c.note(ax=ax[:3], ang=ang[:3])
    c.close(R, want, 'axangle', 'right-handed rotation around the axis', atol=1e-12)
    c.close(axangle2mat(un, ang, is_normalized=True), want, 'axangle', 'normalised axes', atol=1e-12)
    c.check(np.array_equal(keep, ax), 'input', 'axes not modified')
    c.raises(ValueError, lambda: axangle2mat(ax, np.zeros(n + 1)), 'reject', 'numbers of axes and angles differ')
    e1, fix = nonzero(rng, ()), nonzero(rng, ())
    k1, k2 = e1.copy(), fix.copy()
    cr = np.cross(e1, fix) / np.linalg.norm(e1) / np.linalg.norm(fix)
    if np.linalg.norm(cr) > 1e-3:
        M = ex2vec_fix(e1, fix)
        c.close(M[:, 0], e1 / np.linalg.norm(e1), 'ex2vec', 'x axis maps to the new normal', atol=1e-12)
        c.close(M @ M.T, np.eye(3), 'ex2vec', 'rotation', atol=1e-10)
        c.close(np.linalg.det(M), 1., 'ex2vec', 'right handed', atol=1e-10)
        c.close(np.linalg.det([e1 / np.linalg.norm(e1), fix / np.linalg.norm(fix), M[:, 1]]), 0., 'ex2vec', 'y stays in the plane of normal and fixed vector', atol=1e-9)
        c.check(M[:, 1] @ fix > 0, 'ex2vec', 'y towards the fixed vector')
    c.raises(ValueError, lambda: ex2vec_fix(e1, e1 * rng.choice([-2., 3.])), 'reject', 'parallel vectors')
    c.check(np.array_equal(k1, e1) and np.array_equal(k2, fix), 'input', 'vectors not modified')
    c.count('rejected')
    c.count('rotations', n)


@W(quick=400, thorough=8000)
def poses(c):
    """translation, rotation and zoom of elements act on points as stated"""
    from marxs.math import utils
    from marxs.optics import FlatOpticalElement
    rng = c.rng
    t, R, z = rng.normal(size=3) * 100, gen.rot(rng), 10**rng.uniform(-2, 2, 3)
    x = rng.normal(size=(10, 3))
    hx = utils.e2h(x, 1)
    ap = lambda m: utils.h2e(hx @ m.T)
    c.close(ap(utils.translation2aff(list(t) if rng.uniform() < .5 else t)), x + t, 'translation', 'points are shifted', atol=1e-9)
    c.close(ap(utils.mat2aff(R)), x @ R.T, 'rotation', 'points are rotated', atol=1e-12)
    c.close(ap(utils.zoom2aff(z)), x * z, 'zoom', 'points are scaled', rtol=1e-12)
    c.close(ap(utils.zoom2aff(float(z[0]))), x * z[0], 'zoom', 'points are scaled by a number', rtol=1e-12)
    dv = utils.e2h(x, 0)
    c.check(np.array_equal(dv @ utils.translation2aff(t).T, dv), 'translation', 'directions are not shifted')
    c.close(ap(utils.xyz2zxy), x[:, [1, 2, 0]], 'swap', 'axes are swapped', atol=0)
    kw, tt, RR, zz = {}, np.zeros(3), np.eye(3), np.ones(3)
    if rng.uniform() < .7:
        kw['position'] = t if rng.uniform() < .5 else list(t)
        tt = t
    if rng.uniform() < .7:
        kw['orientation'] = R
        RR = R
    k = rng.integers(3)
    if k == 1:
        kw['zoom'] = z if rng.uniform() < .5 else list(z)
        zz = z
    elif k == 2:
        kw['zoom'] = float(z[0])
        zz = np.full(3, z[0])
    c.note(**kw)
    e = FlatOpticalElement(**kw)
    c.close(e.pos4d @ hx.T, utils.e2h((x * zz) @ RR.T + tt, 1).T, 'pose', 'zoom, then rotation, then translation', rtol=1e-10, atol=1e-9)
    m = e.pos4d.copy()
    e2 = FlatOpticalElement(pos4d=m)
    c.check(np.array_equal(e2.pos4d, e.pos4d), 'pose', 'pose given as matrix')
    g = e.geometry
    for i, v in enumerate(('v_x', 'v_y', 'v_z')):
        c.close(g[v], np.append(RR[:, i] * zz[i], 0), 'axes', f'{v} of the element', atol=1e-9 * zz.max())
    for i, v in enumerate(('e_x', 'e_y', 'e_z')):
        c.close(g[v], np.append(RR[:, i], 0), 'axes', f'{v} of the element', atol=1e-9)
    c.close(g['center'], np.append(tt, 1), 'axes', 'center of the element', atol=1e-9)
    c.raises(ValueError, lambda: FlatOpticalElement(pos4d=np.eye(4), position=t), 'reject', 'pose given twice')
    c.raises(ValueError, lambda: FlatOpticalElement(zoom=[1., rng.choice([0., -1.]), 1.]), 'reject', 'zoom not positive')
    c.raises(ValueError, lambda: FlatOpticalElement(zoom=[1., 1.]), 'reject', 'zoom with two elements')
    bad = np.eye(4)
    bad[rng.integers(3)] = 0
    c.raises(ValueError, lambda: FlatOpticalElement(pos4d=bad), 'reject', 'singular pose')
    for f, a in ((utils.translation2aff, [1, 2]), (utils.zoom2aff, [1., 2.])):
        c.raises(ValueError, lambda: f(a), 'reject', 'wrong number of elements')
    c.count('poses')
    c.count('rejected', 4)
