"""C23: arrays of gratings and detectors lie on the Rowland torus where asked."""
import numpy as np

from vmon import gen
from vmon.core import Registry
from vmon.props.c22 import glob, inv, off

W = Registry('C23', rule='poses of all generated elements were compared to the torus, the requested region and the stated specification of orientation',
             require={'elements': 6000, 'arrays': 200, 'gas': 60, 'rect': 60, 'mesh': 60, 'ids': 500, 'spec_point': 20, 'spec_dir': 20,
                      'spec_call': 20, 'spec_default': 20, 'wrapped': 10, 'single_phi': 10, 'multi_ring': 10, 'oblique': 20},
             assumptions=['the array is small compared to the torus (so that the intersection is found)',
                          'directions of normals given by a point are compared up to the sign'])


def setup(c):
    from marxs.design import RowlandTorus
    rng = c.rng
    R = 10**rng.uniform(1.5, 4)
    r = R * rng.choice([rng.uniform(.3, .95), 1., rng.uniform(1.05, 3.)])
    rot, t = gen.rot(rng), rng.normal(size=3) * R * rng.choice([0, 1])
    M = gen.aff(t, rot, np.ones(3))
    T = RowlandTorus(R=R, r=r, pos4d=M) if rng.uniform() < .5 else RowlandTorus(R, r, position=t, orientation=rot)
    d = r * 10**rng.uniform(-2.3, -1, 2)
    if rng.uniform() < .3:
        d[1] = d[0]
    c.note(R=R, r=r, t=t, rot=rot, d=d)
    return T, R, r, M, d


def specs(c, T, M, size):
    """random specification of orientation: keywords, and functions that give
    the wanted vectors (sign known or not)"""
    rng = c.rng
    kw = {}
    e = M[:3, :3]

    def tnorm(x):
        y = inv(M, x)
        rho = np.hypot(y[:, 0], y[:, 2])
        dd = T.R * np.stack([y[:, 0] / rho, 0 * rho, y[:, 2] / rho], -1)
        return -gen.unit(y - dd) @ e.T
    normal, nsign, parallel, psign = tnorm, True, lambda x, n: np.tile(e[:, 1], (len(x), 1)), True
    k = rng.integers(4)
    c.count(['spec_default', 'spec_dir', 'spec_point', 'spec_call'][k])
    if k == 1:
        v = e @ gen.unit(np.array([rng.choice([-1, 1]), *(rng.normal(size=2) * .2)]))
        kw['normal_spec'] = np.append(v * rng.choice([1, 3.]), 0)
        normal = lambda x: np.tile(v, (len(x), 1))
    elif k == 2:
        p = glob(M, np.array([-T.R * rng.uniform(0, 1), *(rng.normal(size=2) * size)]))
        w = rng.choice([1., 2.])
        kw['normal_spec'] = np.append(p * w, w)
        normal, nsign = lambda x: gen.unit(x - p), False
    elif k == 3:
        a = rng.normal(size=3) * .2

        def normal(x):
            return gen.unit(tnorm(x) + a)
        kw['normal_spec'] = lambda xyzw: np.hstack([normal(xyzw[:, :3] / xyzw[:, 3:]), np.zeros((len(xyzw), 1))])
    j = rng.integers(4)
    if j == 1:
        v2 = e @ gen.unit(np.array([0, *rng.normal(size=2)]))
        kw['parallel_spec'] = np.append(v2, 0)
        parallel = lambda x, n: np.tile(v2, (len(x), 1))
    elif j == 2:
        p2 = glob(M, np.array([T.R + T.r, *(gen.unit(rng.normal(size=2)) * 5 * size)]))
        kw['parallel_spec'] = np.append(p2, 1)
        parallel, psign = lambda x, n: gen.unit(x - p2), False
    elif j == 3:
        b = e @ np.array([0, *rng.normal(size=2)])

        def parallel(x, n):
            return gen.unit(np.cross(n, b) + .1 * b)

        def pcall(xyzw, nn):
            return np.hstack([parallel(xyzw[:, :3] / xyzw[:, 3:], gen.unit(nn[:, :3])), np.zeros((len(xyzw), 1))])
        kw['parallel_spec'] = pcall
    return kw, normal, nsign, parallel, psign


def axis(c, M, size):
    """direction along which the surface is searched"""
    rng = c.rng
    if rng.uniform() < .7:
        return {}, M[:3, 0], None
    v = M[:3, :3] @ gen.unit(np.array([1, *(rng.normal(size=2) * .08)]))
    g = None
    c.count('oblique')
    return {'optimize_axis': np.append(v, 0)}, v, g


def observe(c, arr, T, M, ax, oblique, spec):
    """check what holds for every array; returns y, z before the search"""
    kw, normal, nsign, parallel, psign = spec
    x = np.array([e.geometry['center'][:3] for e in arr.elements]).reshape(-1, 3)
    n = len(x)
    if n == 0:
        return np.zeros((0, 2))
    size = T.R + T.r
    loc = inv(M, x)
    o = off(T.R, T.r, loc)
    c.check(o < 1e-5 * size, 'on-torus', 'every centre is on the torus', worst=o.max() / size)
    P = np.array([e.pos4d for e in arr.elements])
    for e in arr.elements:
        c.close(e.geometry['center'], e.pos4d @ [0, 0, 0, 1], 'pose', 'geometry of the element at its pose', atol=1e-9 * (size + np.abs(M).max()))
    A = P[:, :3, :3] / np.linalg.norm(P[:, :3, :3], axis=1)[:, None, :]
    c.close(np.einsum('nij,nik->njk', A, A), np.tile(np.eye(3), (n, 1, 1)), 'rotation', 'elements are rotated, not sheared', atol=1e-9)
    c.check(np.linalg.det(A) > 0, 'rotation', 'elements are not mirrored')
    N = gen.unit(normal(x))
    dot = np.sum(A[:, :, 0] * N, axis=1)
    c.close(dot if nsign else np.abs(dot), np.ones(n), 'normal', 'normal as specified', atol=1e-7, sign=nsign)
    pv = gen.unit(parallel(x, A[:, :, 0]))
    ok = np.linalg.norm(np.cross(pv, A[:, :, 0]), axis=1) > .05
    c.close(np.sum(pv * A[:, :, 2], axis=1)[ok], np.zeros(ok.sum()), 'parallel', 'y and normal span the given direction', atol=1e-6)
    if psign:
        c.check(np.sum(pv * A[:, :, 1], axis=1)[ok] > 0, 'parallel', 'y axis on the side of the given direction')
    c.count('elements', n)
    c.count('arrays')
    # back along the line of search to the plane x=0
    la = M[:3, :3].T @ ax
    yz = loc - (loc[:, :1] / la[0]) * la
    c.check(loc[:, 0] > 0, 'side', 'intersection close to the outer rim')
    return yz[:, 1:]


def members(c, d):
    """element class and arguments"""
    from marxs.optics import FlatDetector, FlatGrating, OrderSelector
    rng = c.rng
    z = [1, .3 * d.min(), .3 * d.min()]  # neighbours do not shadow each other
    if rng.uniform() < .5:
        return dict(elem_class=FlatDetector, elem_args={'pixsize': 1., 'zoom': z}, d_element=list(d))
    return dict(elem_class=FlatGrating, elem_args={'d': 2e-4, 'order_selector': OrderSelector([-1, 0, 1]), 'zoom': z}, d_element=list(d))


def identity(c, arr, n, dmin):
    """a photon sent to the centre of an element is assigned to this element"""
    if n == 0:
        return
    rng = c.rng
    pick = rng.permutation(n)[:30]
    pos = np.array([arr.elements[i].geometry['center'] for i in pick])
    nrm = np.array([arr.elements[i].geometry['e_x'] for i in pick])
    nrm = nrm / np.linalg.norm(nrm, axis=1)[:, None]
    # only rays that meet no other element
    start, v = pos[:, :3] + 1e-3 * dmin * nrm[:, :3], -nrm[:, :3]
    P = np.array([e.pos4d for e in arr.elements])
    Q = np.linalg.inv(P)
    a = np.einsum('jik,nk->nji', Q[:, :3, :3], start) + Q[None, :, :3, 3]
    b = np.einsum('jik,nk->nji', Q[:, :3, :3], v)
    with np.errstate(all='ignore'):
        s = -a[..., 0] / b[..., 0]
        yz = a[..., 1:] + s[..., None] * b[..., 1:]
    hit = (np.abs(yz) < 1.01).all(-1) & (s > 0)
    c.check(hit[np.arange(len(pick)), pick], 'identity', 'element is where its geometry is')
    ok = hit.sum(1) == 1
    if not ok.any():
        return
    pick = pick[ok]
    p = gen.table(rng, start[ok], v[ok])
    out = arr(p)
    col = arr.id_col
    c.check(col in out.colnames and np.array_equal(np.asarray(out[col]), pick), 'identity', 'each element exactly once, with its own number',
            got=out[col] if col in out.colnames else None, want=pick)
    c.count('ids', len(pick))


def build(c, cls, empty=False, **kw):
    """every array in the design range has a place on the torus"""
    try:
        return cls(**kw)
    except Exception as e:
        if 'concatenate' in str(e) and empty:
            c.count('empty')
            c.skip()
        raise


def spaced(c, yz, d, what):
    """distance of elements in the plane of the layout"""
    n = len(yz)
    if n < 2:
        return
    D = np.abs(yz[:, None] - yz[None]) / d
    D = D.max(-1)[~np.eye(n, dtype=bool)]
    c.check(D > 1 - 1e-5, 'overlap', f'{what}: elements do not overlap', closest=D.min())


def cover(c, yz, d, pts, what):
    if len(pts) == 0:
        return
    if len(yz) == 0:
        c.check(False, 'filled', f'{what}: no elements')
        return
    D = (np.abs(pts[:, None] - yz[None]) / d).max(-1).min(1)
    c.check(D < .5 + 1e-5, 'filled', f'{what}: region is filled', gap=D.max())


@W(quick=100, thorough=5000)
def rectangular(c):
    from marxs.design.rowland import RectangularGrid
    rng = c.rng
    T, R, r, M, d = setup(c)
    y0, z0 = rng.uniform(-.15, .15, 2) * r
    ry = [y0, y0 + rng.choice([0, rng.uniform(0, 10) * d[0], rng.integers(1, 6) * d[0]])]
    rz = [z0, z0 + rng.choice([0, rng.uniform(0, 6) * d[1], rng.integers(1, 5) * d[1]])]
    ry[1], rz[1] = min(ry[1], .4 * r), min(rz[1], .4 * r)
    kw = {'z_range': rz}
    if rng.uniform() < .15:
        kw, rz = {}, [0., 0.]
    size = .4 * r
    spec = specs(c, T, M, size)
    ak, ax, g = axis(c, M, size)
    m = members(c, d)
    c.note(y=ry, z=rz)
    arr = build(c, RectangularGrid, rowland=T, y_range=ry, **kw, **m, **spec[0], **ak)
    yz = observe(c, arr, T, M, ax, ak, spec)
    # the starting points may be moved sideways by an oblique search
    if not ak:
        spaced(c, yz, d, 'rectangle')
        pts = np.stack([rng.uniform(*ry, 200), rng.uniform(*rz, 200)], -1)
        pts[:4] = [[a, b] for a in ry for b in rz]
        cover(c, yz, d, pts, 'rectangle')
    if len(yz):
        want = [max(1, np.ceil((b - a) / q - 1e-7)) for (a, b), q in ((ry, d[0]), (rz, d[1]))]
        more = [max(1, np.ceil((b - a) / q + 1e-7)) for (a, b), q in ((ry, d[0]), (rz, d[1]))]
        c.check(want[0] * want[1] <= len(yz) <= more[0] * more[1], 'filled', 'no more elements than needed', got=len(yz), want=want)
        if not ak:
            for i, q in enumerate((ry, rz)):
                c.close(yz[:, i].mean(), np.mean(q), 'centred', 'array is centred on the region', atol=1e-6 * (R + r))
    identity(c, arr, len(yz), d.min())
    c.count('rect')


def rho_phi(yz):
    """polar coordinates in the plane of the layout as the code has them"""
    return np.hypot(*yz.T), np.arctan2(yz[:, 0], yz[:, 1])


def thin(rad, phi, d):
    """all arcs are too short for a single element"""
    if np.size(phi) == 1 and phi is not None:
        return False
    span = 2 * np.pi if phi is None else phi[1] - phi[0]
    if span < 0:
        span += 2 * np.pi
    outer = [(a + b) / 2 + (np.ceil((b - a) / d[0] - 1e-7) - 1) / 2 * d[0] for a, b in zip(rad[::2], rad[1::2])]
    return all((q - d[0] / 2) * span < d[1] * (1 + 1e-6) for q in outer)


@W(quick=120, thorough=6000)
def gas(c):
    from marxs.design.rowland import GratingArrayStructure
    rng = c.rng
    T, R, r, M, d = setup(c)
    rad = []
    lo = rng.uniform(.01, .15) * r
    for i in range(rng.choice([1, 1, 2, 3])):
        hi = lo + rng.choice([rng.uniform(0.05, 4) * d[0], rng.integers(1, 4) * d[0]])
        rad += [lo, hi]
        lo = hi + d[0] * rng.uniform(1.01, 3)
    if rad[-1] > .4 * r:
        rad = rad[:2]
    if rad[-1] > .5 * r:
        c.skip()
    if len(rad) > 2:
        c.count('multi_ring')
    k = rng.integers(5)
    kw = {}
    if k == 0:
        phi = None
    elif k == 1:
        phi = float(rng.uniform(-np.pi, 2 * np.pi))
        kw['phi'] = phi if rng.uniform() < .6 else [phi]
        c.count('single_phi')
    elif k == 2:
        a = rng.uniform(0, 2 * np.pi)
        kw['phi'] = phi = [a, rng.uniform(0, a)]
        c.count('wrapped')
    else:
        a = rng.uniform(-np.pi, np.pi)
        kw['phi'] = phi = [a, a + rng.uniform(.05, 2 * np.pi)]
    m = members(c, d)
    spec = specs(c, T, M, .5 * r)
    ak, ax, g = axis(c, M, .5 * r)
    c.note(radius=rad, phi=phi)
    arr = build(c, GratingArrayStructure, empty=thin(rad, phi, d), rowland=T, radius=rad, **kw, **m, **spec[0], **ak)
    yz = observe(c, arr, T, M, ax, ak, spec)
    identity(c, arr, len(yz), d.min())
    c.count('gas')
    if ak:
        return
    rho, ang = rho_phi(yz)
    eps = 1e-6 * (R + r)
    rings = []
    for a, b in zip(rad[::2], rad[1::2]):
        n0, n1 = int(np.ceil((b - a) / d[0] - 1e-7)), int(np.ceil((b - a) / d[0] + 1e-7))
        rings.append([(a + b) / 2 + (np.arange(n) - (n - 1) / 2) * d[0] for n in {n0, n1}])
    left = np.ones(len(yz), bool)
    for opts in rings:
        # number of rings for this pair of radii
        best = max(opts, key=lambda o: np.sum([np.abs(rho - q) < eps for q in o]))
        for q in best:
            on = left & (np.abs(rho - q) < eps)
            left &= ~on
            n = int(on.sum())
            if phi is None:
                span, start = 2 * np.pi, 0.
            elif np.size(phi) == 1:
                c.check(n == 1, 'filled', 'one element on each radius', n=n)
                c.close(np.exp(1j * ang[on]), np.exp(1j * np.ravel(phi)[0]) * np.ones(n), 'angle', 'element at the angle', atol=1e-5 + eps / q)
                continue
            else:
                span, start = phi[1] - phi[0], phi[0]
                if span < 0:
                    span += 2 * np.pi
            inner = q - d[0] / 2
            nmax = inner * span / d[1]
            c.check(np.floor(max(nmax - 1e-6, 0)) <= n <= np.floor(max(nmax + 1e-6, 0)), 'filled', 'as many elements as fit on the arc',
                    n=n, fit=nmax, radius=q)
            if n:
                s = np.sort((ang[on] - start) % (2 * np.pi))
                w = d[1] / q
                tol = 1e-6 + 2 * eps / q
                c.check(s[0] > w / 2 - tol and s[-1] < span - w / 2 + tol, 'region', 'elements inside the limits of phi', s=s, w=w, span=span)
                gaps = np.diff(np.concatenate([[-w / 2], s, [span + w / 2]])) - w
                c.close(gaps, np.full(n + 1, gaps.mean()), 'even', 'elements evenly distributed on the arc', atol=tol)
                c.check(gaps > -tol, 'overlap', 'elements do not overlap along the arc', gaps=gaps)
    c.check(~left, 'region', 'no elements at other radii', rho=rho[left], radius=rad)


@W(quick=8, thorough=60)
def phi_axis_as_documented(c):
    """phi = 0 is documented to be on the positive y axis, counterclockwise"""
    from marxs.design.rowland import GratingArrayStructure
    T, R, r, M, d = setup(c)
    phi = float(c.rng.uniform(-np.pi, np.pi))
    if np.abs(np.exp(1j * phi) - np.exp(1j * (np.pi / 2 - phi))) < .1:
        c.skip()
    rad = r * c.rng.uniform(.1, .3)
    arr = build(c, GratingArrayStructure, rowland=T, radius=[rad, rad + 1e-3 * r], phi=phi, **members(c, d))
    y = inv(M, arr.elements[0].geometry['center'][:3])
    got, as_is = np.exp(1j * np.arctan2(y[2], y[1])), np.exp(1j * (np.pi / 2 - phi))
    if np.abs(got - as_is) < 1e-4:
        c.check(False, 'phi-from-z-axis', 'phi is measured clockwise from the positive z axis, not counterclockwise from the positive y axis as documented')
    else:
        c.close(got, np.exp(1j * phi), 'angle', 'phi measured from the positive y axis, counterclockwise', atol=1e-4)


@W(quick=100, thorough=5000)
def mesh(c):
    from marxs.design.rowland import CircularMeshGrid
    rng = c.rng
    T, R, r, M, d = setup(c)
    r1 = rng.choice([rng.uniform(.5, 8) * d.max(), rng.integers(1, 8) * d[0] / 2])
    r1 = min(max(r1, 1.5 * d.max()), .3 * r)
    r0 = r1 * rng.choice([0, rng.uniform(0, .9), rng.uniform(0, .3)])
    m = members(c, d)
    spec = specs(c, T, M, .5 * r)
    ak, ax, g = axis(c, M, .5 * r)
    c.note(radius=[r0, r1])
    arr = build(c, CircularMeshGrid, rowland=T, radius=[r0, r1], **m, **spec[0], **ak)
    yz = observe(c, arr, T, M, ax, ak, spec)
    identity(c, arr, len(yz), d.min())
    c.count('mesh')
    c.check(len(yz) > 0, 'filled', 'some elements')
    if ak:
        return
    spaced(c, yz, d, 'mesh')
    # every element overlaps or touches the ring it shall fill
    a = np.maximum(np.abs(yz) - d / 2, 0)
    c.check(np.hypot(*a.T) < r1 + d.max() + 1e-6 * (R + r), 'region', 'elements at the outer radius', worst=np.hypot(*a.T).max() / r1)
    b = np.abs(yz) + d / 2
    far = np.hypot(*b.T) > r0 - 1e-6 * (R + r)
    c.check(far, 'region', 'no elements in the hole', n=int((~far).sum()))
    # the ring is filled, except for up to one element at its borders
    pts = rng.uniform(-r1, r1, (600, 2))
    reach = np.hypot(*(np.abs(pts) + d).T)
    pts = pts[(reach < r1) & (np.hypot(*np.maximum(np.abs(pts) - d, 0).T) > r0)]
    cover(c, yz, d, pts, 'ring')


@W(quick=60, thorough=2500)
def calculated(c):
    """positions given directly"""
    from marxs.simulator.simulator import ParallelCalculated
    from marxs.optics.base import OpticalElement
    from marxs.simulator import ParallelCalculated as P2
    rng = c.rng
    assert P2 is ParallelCalculated
    T, R, r, M, d = setup(c)

    class Calc(ParallelCalculated, OpticalElement):
        id_col = 'facet'
    n = int(rng.integers(1, 12))
    th, ph = rng.uniform(-.3, .3, (2, n))
    from vmon.props.c22 import local
    x = glob(M, local(R, r, th, ph))
    w = rng.choice([1., 2.])
    pos = np.hstack([x * w, np.full((n, 1), w)])
    spec = specs(c, T, M, .4 * r)
    kw = dict(spec[0])
    kw.setdefault('parallel_spec', np.append(M[:3, 1], 0))
    if 'normal_spec' not in kw:
        kw['normal_spec'] = lambda xyzw: -T.normal(xyzw)
        pos = np.hstack([x, np.ones((n, 1))])
    if callable(kw['normal_spec']) or callable(kw['parallel_spec']):
        pos = np.hstack([x, np.ones((n, 1))])
    keep = pos.copy()
    m = members(c, d)
    del m['d_element']
    arr = Calc(pos_spec=(lambda: pos) if rng.uniform() < .5 else pos, **kw, **m)
    observe(c, arr, T, M, M[:3, 0], {}, spec)
    got = np.array([e.geometry['center'][:3] for e in arr.elements])
    c.close(got, x, 'position', 'elements at the given positions in the given order', atol=1e-7 * (R + r))
    c.check(np.array_equal(pos, keep), 'input', 'positions not modified')
