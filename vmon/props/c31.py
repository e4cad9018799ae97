"""C31: visual output shows the geometry that is simulated."""
import contextlib
import io
import json
import os
import re
import subprocess
import sys
import types
import warnings
import xml.etree.ElementTree as ET

import numpy as np

from vmon import gen as G
from vmon.core import VERIF, Registry

W = Registry('C31', rule='every exported shape was read back from the X3D and JSON text, or recorded while the generated javascript was executed with a stand-in for '
             'three.js, and compared to the pose and outline of the element',
             require={'boxes': 60, 'holes': 40, 'coverage': 10000, 'surfaces': 30, 'rays': 500, 'javascript': 40, 'containers': 10, 'colors': 200},
             assumptions=['a browser draws what the recorded calls to three.js say', 'mayavi is not installed, calls to it are recorded instead',
                          'circles are drawn as polygons with about 90 vertices'])
BOX = ['FlatDetector', 'PerfectLens', 'EnergyFilter', 'FlatGrating', 'RadialMirrorScatter']


def marx():
    import marxs.visualization.threejs as t
    import marxs.visualization.threejsjson as j
    import marxs.visualization.x3d as x
    return x, j, t


def state(o, depth=0, seen=None):
    """everything that can be reached from an object, in comparable form"""
    seen = set() if seen is None else seen
    if isinstance(o, np.ndarray):
        o = np.asarray(o)
        return ('a', o.dtype.str, o.shape, o.tobytes() if o.dtype != object else repr(o))
    if isinstance(o, (str, int, float, complex, bool, type(None), bytes, np.generic, type)):
        return o
    if id(o) in seen or depth > 8 or callable(o) and not hasattr(o, 'elements'):
        return type(o).__name__
    seen = seen | {id(o)}
    if isinstance(o, dict):
        return tuple((str(k), state(v, depth + 1, seen)) for k, v in sorted(o.items(), key=lambda kv: str(kv[0])))
    if isinstance(o, (list, tuple)):
        return tuple(state(v, depth + 1, seen) for v in o)
    if hasattr(o, '__dict__'):
        return (type(o).__name__, state(vars(o), depth + 1, seen))
    return type(o).__name__


@contextlib.contextmanager
def untouched(c, *objs):
    def snap():
        out = {}
        for i, o in enumerate(objs):
            g = getattr(o, 'geometry', None)
            for n, d in (('', getattr(o, '__dict__', {})), ('geometry.', vars(g) if hasattr(g, 'pos4d') else {})):
                out.update({(i, n + k): state(v) for k, v in d.items()})
            for k in [o, *type(o).__mro__]:
                if getattr(k, '__dict__', {}).get('display') is not None:
                    out[i, f'display of {k}'] = state(dict(k.__dict__['display']))
        return out
    a = snap()
    yield
    b = snap()
    # additional attributes, e.g. a cache, are harmless
    bad = {k: (v, b.get(k)) for k, v in a.items() if b.get(k) != v}
    c.check(not bad, 'object-changed', 'plotting changes the object, its class or its display settings', changed=str(bad)[:300])


def xml(scene):
    """shapes of a scene: (kind, points in mm, faces or counts, color, opacity)"""
    out = []
    text = scene.XML()
    root = ET.fromstring(text)
    for s in root.iter('Shape'):
        g = [e for e in s if e.tag in ('IndexedTriangleSet', 'IndexedFaceSet', 'LineSet')][0]
        p = np.array([float(a) for a in re.split('[ ,]+', g.find('Coordinate').get('point').strip())]).reshape(-1, 3) * 1000
        m = next(s.iter('Material'))
        col = m.get('diffuseColor', m.get('emissiveColor'))
        col = None if col is None else np.array([float(a) for a in re.split('[ ,]+', col.strip())])
        if g.tag == 'IndexedTriangleSet':
            f = np.array([int(a) for a in re.split('[ ,]+', g.get('index').strip())]).reshape(-1, 3)
        elif g.tag == 'IndexedFaceSet':
            i = [int(a) for a in re.split('[ ,]+', g.get('coordIndex').strip())]
            f, cur = [], []
            for k in i + ([] if i[-1] == -1 else [-1]):
                if k == -1:
                    f.append(cur)
                    cur = []
                else:
                    cur.append(k)
        else:
            f = [int(a) for a in re.split('[ ,]+', g.get('vertexCount').strip())]
        out.append((g.tag, p, f, col, 1 - float(m.get('transparency', 0))))
    return out


def html(c, scene):
    p = [s.find('.//Coordinate').get('point') for s in ET.fromstring(scene.XML()).iter('Shape')]
    for impl in ('X3DOM', 'X_ITE'):
        scene.set_X3D_implementation(impl)
        h = scene._repr_html_()
        c.check(all(k in h for k in p), 'html', f'the page for {impl} does not contain all shapes')
    c.raises(ValueError, lambda: scene.set_X3D_implementation('none'), 'html', 'unknown implementations')


def node(c, code=None, data=None):
    """executes javascript written by threejs, or the loader for threejsjson"""
    d = G.repo_data('visualization', 'threejs_files')
    inp = dict(files=[os.path.join(d, 'ModifiedTorusBufferGeometry.js'), os.path.join(d, 'MARXSloader.js')], code=code, json=data)
    r = subprocess.run(['node', os.path.join(VERIF, 'vmon', 'js', 'three_stub.js')], input=json.dumps(inp), capture_output=True, text=True, timeout=60)
    if not c.check(r.returncode == 0, 'javascript', 'the javascript cannot be executed', error=r.stderr[-600:]):
        return []
    out = json.loads(r.stdout)
    for m in out:
        for k in ('pos', 'color', 'matrix'):
            c.check(m[k] is None or None not in m[k], 'javascript', f'{k} with numbers that are not finite')
        p = np.array(m['pos'], float).reshape(-1, 3)
        M = np.array(m['matrix'], float).reshape(4, 4).T
        m['xyz'] = p @ M[:3, :3].T + M[:3, 3]
        m['M'] = M
    c.count('javascript', len(out))
    return out


def write(c, j, data, photons=None):
    f = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        j.write(f, data, photons)

    def bad(x):
        raise ValueError(x)
    try:
        out = json.loads(f.getvalue(), parse_constant=bad)
    except ValueError as e:
        c.check(False, 'json', f'file is not valid JSON: {e}')
        c.skip()
    c.check(set(out) >= {'meta', 'elements'} and out['meta'].get('format_version') == 1, 'json', 'layout of the file')
    for k in ('origin', 'date', 'time', 'marxs_version'):
        c.check(isinstance(out['meta'].get(k), str), 'json', f'entry {k} in metadata')
    for e in out['elements']:
        c.check(isinstance(e, dict), 'json', 'elements is not a flat list of dictionaries')
    return out, f.getvalue()


def js(t, obj, display=None):
    f = io.StringIO()
    t.plot_object(obj, display, f)
    return f.getvalue()


def color(rng):
    """settings, the rgb numbers it stands for"""
    import matplotlib.colors
    k = int(rng.integers(5))
    if k == 0:
        v = tuple(float(i) for i in rng.integers(0, 256, 3) / 255)
        return v, np.array(v)
    if k == 1:
        s = str(rng.choice(['red', 'green', 'navy', 'orange', 'w', 'k', 'c', 'salmon']))
        return s, np.array(matplotlib.colors.to_rgb(s))
    if k == 2:
        v = tuple(int(i) for i in rng.integers(0, 256, 3))
        return '#%02x%02x%02x' % v, np.array(v) / 255
    if k == 3:
        v = [float(i) for i in rng.integers(0, 2, 3)]
        return v, np.array(v)
    v = [(1, 0, 0), (0, 1, 0), (0, 1, 1)][int(rng.integers(3))]
    return v, np.array(v, float)


def hexcolor(c, s, rgb, label):
    """the hex number is that of all three channels together"""
    n = int(s.lstrip('#').replace('0x', ''), 16)
    c.count('colors', 1)
    tot = rgb @ [65536, 256, 1] * 255
    c.check(len(s.lstrip('#').replace('0x', '')) == 6 and -1.01 < n - tot < 1.01, 'color', f'{label}: hex number of the color', got=s, rgb=rgb)
    got = np.array([n >> 16, n >> 8 & 255, n & 255])
    eight = np.abs(rgb * 255 - np.round(rgb * 255)).max() < 1e-9
    # 8 bit colors may be off by 1 because of rounding, which can carry over from black to all bits set in the lower channels
    if eight:
        c.check(np.abs(n - np.round(rgb * 255) @ [65536, 256, 1]) <= 1, 'color', f'{label}: 8 bit color', got=s, rgb=rgb)
    else:
        c.check(np.all(np.abs(got - rgb * 255) <= 1.001), 'color-hex-fraction', f'{label}: channels of the color', got=got, expected=rgb * 255)


def display(rng, obj, **kw):
    """random display settings written into the element"""
    v, rgb = color(rng)
    op = float(np.round(rng.choice([rng.uniform(.1, 1), rng.uniform(.1, 1), rng.uniform(.1, 1), 0., 1.]), 2)) if rng.random() < .7 else None
    obj.display['color'] = v
    if op is not None:
        obj.display['opacity'] = op
    else:
        obj.display.pop('opacity', None)
    obj.display.update(kw)
    return rgb, op


def prec(c, x):
    """sets a precision for X3D, returns context and tolerance in mm"""
    import marxs.visualization as v
    n = int(c.rng.choice([1, 1, 2, 3, 5]))
    return v.conf.set_temp('xyz_precision', n), .51 * 10.**-n


def material(c, tag, s, rgb, op):
    c.close(s[3], rgb, 'color', f'{tag}: color in X3D', atol=6e-3)
    c.close(s[4], 1. if op is None else op, 'color', f'{tag}: opacity in X3D', atol=1e-6)


def jsmaterial(c, tag, p, rgb, op):
    hexcolor(c, p['color'], rgb, tag)
    c.check(p.get('opacity') == op, 'color', f'{tag}: opacity', got=p.get('opacity'), expected=op)
    if op is not None:
        c.check(p.get('transparent') in (True, 'true'), 'color', f'{tag}: a material with opacity is not marked as transparent')
    c.check(p.get('side') == 2, 'color', f'{tag}: only one side of the surface is drawn')


def samepoints(a, b, tol):
    """same set of points"""
    if len(a) != len(b):
        return False
    d = np.linalg.norm(a[:, None] - b[None], axis=-1)
    return np.all(d.min(0) < tol) and np.all(d.min(1) < tol)


def elem(c):
    from vmon.gen import specs
    rng = c.rng
    s = list(specs().values())
    s = [k for k in s if k.surface == 'plane']
    s = s[int(rng.integers(len(s)))]
    p4 = s.pose(rng)
    e = s.make(rng, p4)
    return s.name, e, p4


@W(quick=90, thorough=1200, cpu=120)
def box(c):
    """any element that is drawn as box: X3D, JSON and javascript"""
    x, j, t = marx()
    rng = c.rng
    name, e, p4 = elem(c)
    if e.display.get('shape') != 'box':
        c.skip()
    half = rng.choice(['', '+x', '-x', '+y', '-y', '+z', '-z', 'x', '++'])
    rgb, op = display(rng, e)
    e.display.pop('box-half', None)
    if half:
        e.display['box-half'] = str(half)
    c.note(element=name, half=str(half))
    ctx, tol = prec(c, x)
    with untouched(c, e), ctx:
        use = rng.random() < .5
        scene = x.plot_object(e) if use else x.plot_object(e, display=e.display)
        f = getattr(x, 'box')(e, dict(e.display, color=tuple(rgb)))
        out = j.plot_object(e)
        code = js(t, e)
    sh = xml(scene)
    if not c.check(len(sh) == 1, 'x3d', f'{len(sh)} shapes for one element'):
        return
    c.check(f is not None and len(xml(f)) == 1 and np.allclose(xml(f)[0][1], sh[0][1]), 'x3d', 'box does not return the scene')
    tag, pts, faces, col, opac = sh[0]
    material(c, 'box', sh[0], rgb, op)
    corners = np.array([[a, b, d] for a in (-1, 1) for b in (-1, 1) for d in (-1, 1)], float)
    if len(half) == 2 and half[0] in '+-' and half[1] in 'xyz':
        k, sgn = 'xyz'.index(half[1]), 1. if half[0] == '+' else -1.
        corners[corners[:, k] == sgn, k] = 0
    ref = corners @ p4[:3, :3].T + p4[:3, 3]
    c.count('boxes', 1)
    d = np.abs(pts[:, None] - ref[None]).max(-1)
    c.check(len(pts) == 8 and np.all(d.min(0) < tol) and np.all(d.min(1) < tol), 'x3d-box', 'corners of the box', off=d.min(0).max(), tol=tol, half=str(half))
    # faces: each is one side of the box
    loc = np.round((corners[d.argmin(1)] - corners.min(0)) / np.ptp(corners, axis=0)).astype(int)
    sides = []
    for f in faces:
        if c.check(len(f) == 4 and min(f) >= 0 and max(f) < len(pts), 'x3d-box', 'faces refer to vertices that do not exist'):
            q = loc[f]
            const = [(k, q[0, k]) for k in range(3) if np.all(q[:, k] == q[0, k])]
            if c.check(len(const) == 1 and len(set(map(tuple, q))) == 4, 'x3d-box', 'a face is not a side of the box', face=f):
                c.check(np.all(np.abs(np.diff(np.vstack([q, q[:1]]), axis=0)).sum(1) == 1), 'x3d-box', 'a face crosses itself')
                sides.append(const[0])
    c.check(len(set(sides)) == 6 == len(sides), 'x3d-box', 'sides of the box', sides=sides)
    if c.idx % 8 == 0:
        html(c, scene)
    # three.js: boxes are drawn in full
    full = np.array([[a, b, d] for a in (-1, 1) for b in (-1, 1) for d in (-1, 1)], float) @ p4[:3, :3].T + p4[:3, 3]
    c.check(isinstance(out, dict) and out['n'] == 1 and out['geometry'] == 'BoxGeometry' and len(out['pos4d']) == 1, 'json-box', 'description of the box')
    if c.idx % 3 == 0:
        _, text = write(c, j, out)
        for m, tag in ((node(c, data=text), 'json'), (node(c, code=code), 'js')):
            if c.check(len(m) == 1, tag, 'number of shapes'):
                m = m[0]
                c.check(samepoints(m['xyz'], full, 1e-9 * np.abs(full).max() + 1e-4 * (tag == 'json')), f'{tag}-box', 'corners of the box')
                jsmaterial(c, tag, m['prop'], rgb, op)
                if tag == 'json':
                    c.check(m['name'] == str(e.name), 'json', 'name of the element')


def cover(pts2, tri, q):
    """number of triangles that contain each point q, distance to the closest edge"""
    a, b, d = pts2[tri[:, 0]], pts2[tri[:, 1]], pts2[tri[:, 2]]

    def side(p, r):
        e = r - p
        ln = np.linalg.norm(e, axis=1)
        return (e[:, 0] * (q[:, None, 1] - p[:, 1]) - e[:, 1] * (q[:, None, 0] - p[:, 0])) / np.where(ln > 0, ln, 1)
    s = np.stack([side(a, b), side(b, d), side(d, a)])
    area = (b[:, 0] - a[:, 0]) * (d[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (d[:, 0] - a[:, 0])
    size = np.ptp(pts2, axis=0).max()
    ok = np.abs(area) > 1e-9 * size**2
    inside = (np.all(s > 0, axis=0) | np.all(s < 0, axis=0))[:, ok]
    close = (np.abs(s[:, :, ok]).min(axis=(0, 2)) < 1e-5 * size) if ok.any() else np.zeros(len(q), bool)
    return inside.sum(1), close


def hole(c):
    """an element with a hole, and a function that says for (y, z) in local units: drawn (1), open (0) or at the edge (-1)"""
    from marxs.optics import Baffle, CircleAperture, RectangleAperture
    rng = c.rng
    kind = str(rng.choice(['rect', 'baffle', 'circle', 'wedge', 'ring', 'ringwedge']))
    p4 = G.pose(rng, ysize=(10, 3000), equal=kind not in ('rect', 'baffle'))
    ctr, ax, sz = G.frame(p4)
    out = float(rng.choice([1.2, 2., 5.])) if rng.random() < .6 else None
    kw = {} if out is None else dict(outer_factor=out)
    of = 3. if out is None else out
    if kind in ('rect', 'baffle'):
        e = (RectangleAperture if kind == 'rect' else Baffle)(pos4d=p4)
        e.display.pop('outer_factor', None)

        def ref(y, z):
            m = np.maximum(np.abs(y), np.abs(z))
            edge = (np.abs(m - 1) < 1e-3) | (np.abs(m - of) < 1e-3)
            return np.where(edge, -1, (m > 1) & (m < of))
        return kind, e, p4, kw, of, ref
    opt = {}
    phi = (0., 2 * np.pi)
    if kind in ('wedge', 'ringwedge'):
        a = float(rng.uniform(-3, 3))
        phi = (a, a + float(rng.uniform(.2, 6.2)))
        opt['phi'] = list(phi)
    ri = 0.
    fi = 0.
    if kind in ('ring', 'ringwedge'):
        ri = float(rng.uniform(.1, .95))
        opt['r_inner'] = ri * sz[1]
        if rng.random() < .5:
            fi = kw['inner_factor'] = float(rng.uniform(.1, .95))
    e = CircleAperture(pos4d=p4, **opt)

    def ref(y, z):
        r = np.hypot(y, z)
        f = (np.arctan2(z, y) - phi[0]) % (2 * np.pi)
        d = phi[1] - phi[0]
        full = d > 2 * np.pi - 1e-9
        nw = np.zeros_like(r, bool) if full else (np.abs(f) < .075) | (np.abs(f - d) < .075) | (f > 2 * np.pi - .075)
        edge = (np.abs(r - 1) < 3e-3) | (np.abs(r - of) < 3e-3 * of) | (np.abs(r - ri) < 3e-3) & (ri > 0) | (np.abs(r - ri * fi) < 3e-3) & (ri * fi > 0) | nw | (r < .01)
        inw = np.ones_like(r, bool) if full else f < d
        open_ = inw & ((r > ri) & (r < 1) | (r < ri * fi))
        return np.where(edge, -1, (r < of) & ~open_)
    return kind, e, p4, kw, of, ref


def judge(c, tag, kind, pts, tri, p4, of, ref, tol):
    ctr, ax, sz = G.frame(p4)
    if not c.check(tri.min() >= 0 and tri.max() < len(pts), f'{tag}-index', 'faces refer to vertices that do not exist', hi=tri.max(), n=len(pts)):
        return
    c.check(np.all(np.isfinite(pts)), f'{tag}-hole', 'vertices are not finite')
    loc = (pts - ctr) @ ax
    c.check(np.abs(loc[:, 0]).max() < tol * 2, f'{tag}-hole', 'vertices are not in the plane of the element', off=np.abs(loc[:, 0]).max())
    p2 = loc[:, 1:] / sz[1:]
    n = 300
    q = c.rng.uniform(-1.2, 1.2, (n, 2)) * np.repeat([of, 1.], n // 2)[:, None]
    q = q[np.abs(q).max(1) < 1.3 * of]
    got, close = cover(p2, tri, q)
    exp = ref(q[:, 0], q[:, 1])
    # rounding of the points to 0.1 mm or so moves the edges
    rel = tol / sz[1:].min()
    ok = (exp >= 0) & ~close & (rel < 1e-3)
    c.count('coverage', int(ok.sum()))
    c.check(got[ok] == exp[ok], f'{tag}-hole', f'{kind}: number of triangles over a point (0 inside the hole, 1 in the plate)',
            point=lambda b: q[ok][b], got=got[ok][got[ok] != exp[ok]][:5], n=int(ok.sum()))


@W(quick=50, thorough=600, cpu=200)
def holes(c):
    """apertures and baffles: the drawn plate covers its outline exactly once, without the hole"""
    x, j, t = marx()
    rng = c.rng
    kind, e, p4, kw, of, ref = hole(c)
    rgb, op = display(rng, e, **kw)
    c.note(kind=kind, of=of)
    ctx, tol = prec(c, x)
    with untouched(c, e), ctx:
        scene = x.plot_object(e)
        out = j.plot_object(e)
        code = js(t, e)
        xyz, tri = e.geometry.triangulate(e.display)
    c.count('holes', 1)
    judge(c, 'mesh', kind, np.asarray(xyz), np.asarray(tri), p4, of, ref, 1e-8 * np.abs(xyz).max())
    if kind == 'baffle':
        a, b = e.triangulate_inner_outer()
        judge(c, 'mesh', kind, np.asarray(a), np.asarray(b), p4, of, ref, 1e-8 * np.abs(xyz).max())
    sh = xml(scene)
    if c.check(len(sh) == 1, 'x3d', f'{len(sh)} shapes for one element'):
        judge(c, 'x3d', kind, sh[0][1], sh[0][2], p4, of, ref, tol)
        material(c, 'hole', sh[0], rgb, op)
    if not c.check(out is not None, 'json', 'no output'):
        return
    _, text = write(c, j, [out] if rng.random() < .5 else out)
    for m, tag in ((node(c, data=text), 'json'), (node(c, code=code), 'js')):
        if c.check(len(m) == 1, tag, 'number of shapes'):
            m = m[0]
            c.close(m['xyz'], xyz, f'{tag}-hole', 'vertices', rtol=2e-7, atol=2e-7 * np.abs(xyz).max())
            judge(c, tag, kind, m['xyz'], np.array(m['index'], int).reshape(-1, 3), p4, of, ref, 4e-7 * np.abs(xyz).max())
            jsmaterial(c, tag, dict(m['prop'], side=2) if tag == 'js' else m['prop'], rgb, op)


def mesharea(p, faces):
    out = 0.
    for f in faces:
        q = p[f]
        for k in range(1, len(f) - 1):
            out += np.linalg.norm(np.cross(q[k] - q[0], q[k + 1] - q[0])) / 2
    return out


@W(quick=30, thorough=400, cpu=120)
def tube(c):
    """curved detectors"""
    from marxs.optics import CircularDetector
    x, j, t = marx()
    rng = c.rng
    r, h = rng.uniform(5, 2000), rng.uniform(2, 500)
    lim = None if rng.random() < .4 else sorted(rng.uniform(-3.1, 3.1, 2).tolist())
    p4 = G.aff(rng.normal(size=3) * 100, G.rot(rng), [r, r, h])
    e = CircularDetector(pos4d=p4, **({} if lim is None else dict(phi_lim=lim)))
    rgb, op = display(rng, e)
    lo, hi = lim or (-np.pi, np.pi)
    zl = (-h, h)
    if rng.random() < .6:
        if rng.random() < .6:
            lo, hi = sorted(rng.uniform(-3, 3, 2))
            e.display['coo1'] = np.linspace(lo, hi, int(rng.integers(20, 80)))
        if rng.random() < .5:
            zl = sorted(rng.uniform(-h, h, 2))
            e.display['coo2'] = np.linspace(*zl, int(rng.integers(2, 6)))
    ctx, tol = prec(c, x)
    with untouched(c, e), ctx:
        scene = x.plot_object(e)
        f = x.surface(e, dict(e.display, color=tuple(rgb)))
    c.check(f is not None and len(xml(f)) == 1, 'x3d', 'surface does not return the scene')
    sh = xml(scene)
    if not c.check(len(sh) == 1, 'x3d', f'{len(sh)} shapes for one element'):
        return
    _, p, faces, _, _ = sh[0]
    material(c, 'tube', sh[0], rgb, op)
    c.count('surfaces', 1)
    ctr, ax, sz = G.frame(p4)
    loc = (p - ctr) @ ax
    c.close(np.hypot(loc[:, 0], loc[:, 1]), np.full(len(p), r), 'x3d-surface', 'radius of the cylinder', rtol=0, atol=2 * tol)
    c.close([loc[:, 2].min(), loc[:, 2].max()], zl, 'x3d-surface', 'extent along the axis', rtol=0, atol=2 * tol)
    phi = np.arctan2(loc[:, 1], loc[:, 0])
    phi = np.where(np.abs(phi - lo) > 2 * np.pi - .05, phi - 2 * np.pi * np.sign(phi), phi)
    c.check((phi > lo - 2 * tol / r - 1e-9) & (phi < hi + 2 * tol / r + 1e-9), 'x3d-surface', 'angles of the surface', phi=lambda b: phi[b][:5], lim=(lo, hi))
    if not c.check(min(min(f) for f in faces) >= 0 and max(max(f) for f in faces) < len(p), 'x3d-index', 'faces refer to vertices that do not exist'):
        return
    a = mesharea(p, faces)
    exp = r * (hi - lo) * (zl[1] - zl[0])
    if exp > 1e4 * tol * (r + h):
        c.close(a, exp, 'x3d-surface', 'area of the surface', rtol=.02)
    js_ = j.plot_object
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        o = js_(e)
    c.check(o is None and len(w) > 0 or o is not None, 'skip', 'a shape that is not supported is dropped without warning')


@W(quick=24, thorough=300, cpu=120)
def torus(c):
    """Rowland tori"""
    from marxs.design import RowlandTorus
    x, j, t = marx()
    rng = c.rng
    R, r = rng.uniform(100, 3000), rng.uniform(100, 3000)
    p4 = G.aff(rng.normal(size=3) * 300 * rng.integers(0, 2), G.rot(rng), 1.)
    e = RowlandTorus(R=R, r=r, pos4d=p4)
    rgb, op = display(rng, e)
    th, ph = (0, 2 * np.pi), (0, 2 * np.pi)
    if rng.random() < .7:
        a, b = rng.uniform(-3, 3, 2)
        which = int(rng.integers(4))
        if which != 1:
            th = (a, a + rng.uniform(.2, 3.))
            e.display['coo1'] = np.linspace(*th, 50)
        if which != 2:
            ph = (b, b + rng.uniform(.2, 3.))
            e.display['coo2'] = np.linspace(*ph, 40)
    ctx, tol = prec(c, x)
    with untouched(c, e), ctx:
        scene = x.plot_object(e)
        out = j.plot_object(e)
        code = js(t, e)
    c.count('surfaces', 1)

    def check(tag, p, tol, swap=False):
        loc = (p - p4[:3, 3]) @ p4[:3, :3]
        if swap:
            loc = loc[:, [0, 2, 1]]
        rho = np.hypot(loc[:, 0], loc[:, 2])
        d1, d2 = np.hypot(rho - R, loc[:, 1]) - r, np.hypot(rho + R, loc[:, 1]) - r
        if not np.abs(np.where(np.abs(d1) < np.abs(d2), d1, d2)).max() < tol * 3:
            return False
        # all points, and the corners of the range
        q = np.array([[(R + r * np.cos(a)) * np.cos(b), r * np.sin(a), (R + r * np.cos(a)) * np.sin(b)] for a in np.linspace(*th, 25) for b in np.linspace(*ph, 25)])
        step = 1.2 * max((R + r) * np.ptp(ph) / min(38, max(1, int(np.rad2deg(np.ptp(ph))))), r * np.ptp(th) / min(48, max(1, int(np.rad2deg(np.ptp(th))))))
        dist = np.linalg.norm(q[:, None] - loc[None], axis=-1)
        step2 = 1.2 * max((R + r) * np.ptp(ph), r * np.ptp(th)) / 24
        return dist.min(1).max() < step and dist.min(0).max() < step2
    sh = xml(scene)
    if c.check(len(sh) == 1, 'x3d', f'{len(sh)} shapes for one element'):
        _, p, faces, _, _ = sh[0]
        material(c, 'torus', sh[0], rgb, op)
        c.check(check('x3d', p, tol), 'x3d-torus', 'vertices are not on the torus or do not cover its range')
        if c.check(min(min(f) for f in faces) >= 0 and max(max(f) for f in faces) < len(p), 'x3d-index', 'faces refer to vertices that do not exist'):
            n = 4000
            a, b = np.linspace(*th, n), np.linspace(*ph, n)
            am = (a[1:] + a[:-1]) / 2
            exp = np.ptp(ph) * r * np.sum(np.abs(R + r * np.cos(am))) * (a[1] - a[0])
            if exp > 1e4 * tol * (r + R):
                c.close(mesharea(p, faces), exp, 'x3d-torus', 'area of the surface', rtol=.03)
    _, text = write(c, j, out)
    for m, tag in ((node(c, data=text), 'json'), (node(c, code=code), 'js')):
        if c.check(len(m) == 1, tag, 'number of shapes'):
            m = m[0]
            jsmaterial(c, tag, dict(m['prop'], side=2) if tag == 'js' else m['prop'], rgb, op)
            f = np.array(m['index'], int)
            c.check(f.min() >= 0 and f.max() < len(m['xyz']), f'{tag}-index', 'faces refer to vertices that do not exist')
            p = m['xyz'][::max(1, len(m['xyz']) // 4000)] if len(m['xyz']) > 8000 else m['xyz']
            tl = 2e-6 * (R + r + np.abs(p4[:3, 3]).max())
            full = m['xyz']
            ok = check(tag, full if len(full) < 5000 else thin(full, th, ph), tl)
            if not ok and tag == 'json':
                c.check(check(tag, full if len(full) < 5000 else thin(full, th, ph), tl, swap=True), 'json-torus', 'the torus in the wrong place for any choice of its axis')
                c.check(False, 'json-torus-axis', 'the torus is drawn around the z-axis, not around the y-axis')
            else:
                c.check(ok, f'{tag}-torus', 'vertices are not on the torus or do not cover its range')


def thin(p, th, ph):
    """every few rows and columns of the grid of points"""
    nth, nph = int(np.rad2deg(np.ptp(th))) + 1, int(np.rad2deg(np.ptp(ph))) + 1
    if nth * nph != len(p):
        return p[::5]
    g = p.reshape(nth, nph, 3)
    i = np.unique(np.linspace(0, nth - 1, 50).astype(int))
    k = np.unique(np.linspace(0, nph - 1, 50).astype(int))
    return g[i][:, k].reshape(-1, 3)


@W(quick=40, thorough=500, cpu=120)
def rays(c):
    """lines along the path of photons"""
    import matplotlib.pyplot as plt
    x, j, t = marx()
    rng = c.rng
    n, N = int(rng.integers(1, 40)), int(rng.integers(2, 7))
    data = rng.normal(size=(n, N, 3)) * 10**rng.uniform(0, 4)
    if rng.random() < .15:
        n, N = 3, int(rng.integers(350, 500))
        data = rng.normal(size=(n, N, 3)) * 100
    kind = str(rng.choice(['none', 'n', 'int', 'nN']))
    s = {'none': None, 'n': rng.uniform(1, 5, n), 'int': rng.integers(0, 4, n), 'nN': rng.uniform(1, 5, (n, N))}[kind]
    cm = plt.get_cmap(str(rng.choice(['viridis', 'jet', 'plasma'])))
    d0, s0 = data.copy(), None if s is None else s.copy()
    prop = dict(linewidth=2) if rng.random() < .5 else {}
    p0 = dict(prop)
    c.note(n=n, N=N, kind=kind)
    nk = {} if rng.random() < .5 else dict(vmin=0., vmax=6.)
    ctx, tol = prec(c, x)
    old = None
    with warnings.catch_warnings(), ctx:
        warnings.simplefilter('ignore')
        if rng.random() < .5:
            old = x.Scene(children=[])
            scene = x.plot_rays(data, s, scene=old, cmap=cm, normalize_kwargs=nk)
            c.check(scene is old, 'x3d', 'rays are not added to the scene that is passed in')
        else:
            scene = x.plot_rays(data, s, cmap=cm, normalize_kwargs=nk)
    out = j.plot_rays(data, s, prop=prop, cmap=cm, name='my rays')
    f = io.StringIO()
    t.plot_rays(data, f, s, cmap=cm, prop=prop)
    c.check(np.array_equal(data, d0) and (s is None or np.array_equal(s, s0)) and prop == p0, 'input-changed', 'plot_rays changes its input')

    def norm(v, vmin=None, vmax=None):
        lo, hi = np.min(v) if vmin is None else vmin, np.max(v) if vmax is None else vmax
        return (v - lo) / (hi - lo) if hi > lo else np.zeros_like(v, float)
    # X3D: one color per ray
    first = np.ones(n) if s is None else s if s.ndim == 1 else s[:, 0]
    rgb = cm(norm(np.asarray(first, float), **nk))[:, :3]
    lines, cols = [], []
    for tag, p, cnt, col, _ in xml(scene):
        if not c.check(tag == 'LineSet' and sum(cnt) == len(p) and set(cnt) == {N}, 'x3d-rays', 'number of points per line', cnt=cnt[:5]):
            return
        lines.append(p.reshape(-1, N, 3))
        cols.extend([col] * len(cnt))
    lines, cols = np.concatenate(lines), np.array(cols)
    if c.check(len(lines) == n, 'x3d-rays', 'number of rays', got=len(lines), expected=n):
        c.count('rays', n)
        d = np.abs(lines[:, None] - data[None]).max((2, 3))
        k = d.argmin(1)
        c.check((d.min(1) < tol) & True, 'x3d-rays', 'a line that is not one of the rays')
        if n > 1 and tol < np.abs(data).max() * 1e-4:
            c.check(len(set(k)) == n, 'x3d-rays', 'a ray is missing')
            c.close(cols, rgb[k], 'x3d-rays', 'color of a ray', atol=.0051 + 1e-9)
    # json and javascript: color per vertex
    full = cm(norm(np.zeros((n, N)) if s is None else np.tile(s, (N, 1)).T if s.ndim == 1 else s))[..., :3]
    c.check(out['name'] == 'my rays' and out['n'] == n, 'json-rays', 'description of rays')
    _, text = write(c, j, out)
    for m, tag, pt, ct in ((node(c, data=text), 'json', 1e-6 * np.abs(data).max(), 1e-6), (node(c, code=f.getvalue()), 'js', .0501 + 1e-6 * np.abs(data).max(), .0501)):
        if c.check(len(m) == n, f'{tag}-rays', 'number of rays', got=len(m), expected=n):
            for i in range(n):
                c.check(m[i]['kind'] == 'Line', f'{tag}-rays', 'rays are not lines')
                if c.check(m[i]['xyz'].shape == data[i].shape, f'{tag}-rays', 'number of points per line'):
                    c.close(m[i]['xyz'], data[i], f'{tag}-rays', 'points of a ray', rtol=0, atol=pt)
                    c.close(np.reshape(m[i]['color'], (-1, 3)), full[i], f'{tag}-rays', 'colors of a ray', rtol=0, atol=ct)
                c.check(m[i]['prop'].get('linewidth') == p0.get('linewidth') and m[i]['prop'].get('vertexColors') == 2, f'{tag}-rays', 'properties of the material')
    other = j.plot_rays(data[:1])
    c.check(other['materialproperties'] == {'vertexColors': 2}, 'json-rays', 'properties leak from one call to the next', got=other['materialproperties'])
    c.raises(ValueError, lambda: x.plot_rays(data, np.ones(n + 1)), 'x3d-rays', 'scalars that do not match')
    c.raises(ValueError, lambda: j.plot_rays(data, np.ones(n + 1)), 'json-rays', 'scalars that do not match')


@W(quick=16, thorough=200, cpu=120)
def containers(c):
    """containers show all their elements, once"""
    from marxs.optics import CircleAperture, CircularDetector, FlatDetector, FlatGrating, MultiAperture, OrderSelector, PerfectLens, RectangleAperture
    from marxs.simulator import Parallel, Sequence
    x, j, t = marx()
    rng = c.rng
    k = int(rng.integers(1, 5))
    ap = RectangleAperture(position=[2000, 0, 0], zoom=[1, 50, 50])
    if rng.random() < .5:
        ap = MultiAperture(elements=[ap, CircleAperture(position=[2000, 200, 0], zoom=[1, 50, 50])])
    par = Parallel(elem_class=FlatGrating, elem_pos=[G.aff(rng.normal(size=3) * 100) for _ in range(k)],
                   elem_args=dict(d=1e-3, order_selector=OrderSelector([1]), zoom=[1, 10, 20]), position=rng.normal(size=3) * 10)
    hidden = FlatDetector(position=[-5, 0, 0], zoom=[1, 3, 3])
    hidden.display['shape'] = 'None'
    det = CircularDetector(zoom=[30, 30, 10]) if rng.random() < .3 else FlatDetector(zoom=[1, 40, 40])
    seq = Sequence(elements=[ap, Sequence(elements=[PerfectLens(focallength=1500., position=[1500, 0, 0], zoom=[1, 60, 60]), par]), hidden, det])
    leaves = [*(ap.elements if isinstance(ap, MultiAperture) else [ap]), seq.elements[1].elements[0], *par.elements, det]
    c.note(k=k, multi=isinstance(ap, MultiAperture), det=type(det).__name__)
    with untouched(c, seq, *leaves), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        base = x.Scene(children=[])
        got = x.plot_object(seq, scene=base)
        one = [x.plot_object(e) for e in leaves]
        out = j.plot_object(seq)
        outs = [j.plot_object(e) for e in leaves]
        code = js(t, seq)
        codes = ''.join(js(t, e) for e in leaves)
    c.check(got is base, 'x3d', 'elements are not added to the scene that is passed in')
    a = xml(base)
    b = [s for o in one for s in xml(o)]
    c.count('containers', 1)
    if c.check(len(a) == len(b) == len(leaves), 'container', 'number of shapes in X3D', got=len(a), expected=len(leaves)):
        for p, q in zip(a, b):
            c.check(p[0] == q[0] and np.array_equal(p[1], q[1]) and np.array_equal(p[3], q[3]), 'container', 'a shape in X3D')
    outs = [o for o in outs if o is not None]
    c.check(isinstance(out, list) and out == outs, 'container', 'elements of the JSON output', got=len(out), expected=len(outs))
    _, text = write(c, j, out)
    m, e = node(c, data=text), node(c, data=write(c, j, outs)[1])
    c.check(len(m) == len(outs) and [(k['pos'], k['matrix'], k['prop'], k['index']) for k in m] == [(k['pos'], k['matrix'], k['prop'], k['index']) for k in e], 'container', 'meshes drawn from the JSON file')
    m, e = node(c, code=code), node(c, code=codes)
    c.check(len(m) == len(outs) and [(k['pos'], k['matrix']) for k in m] == [(k['pos'], k['matrix']) for k in e], 'container', 'meshes drawn by three.js')
    # photons: meta data goes to the file
    ph = G.table(rng, rng.normal(size=(3, 3)), np.tile([-1., 0, 0], (3, 1)))
    ph.meta['MISSION'] = ('test', 'a comment')
    full, _ = write(c, j, out, ph)
    c.check(full['elements'] == json.loads(json.dumps(outs)) and 'test' in json.dumps(full.get('runinfo', '')), 'json', 'metadata of the photon list')


@W(quick=30, thorough=400)
def colors(c):
    """conversion of colors"""
    from marxs.visualization.utils import DisplayDict, color_tuple_to_hex, get_color
    rng = c.rng
    for _ in range(20):
        v, rgb = color(rng)
        got = get_color({'color': v})
        c.check(isinstance(got, tuple) and len(got) == 3, 'color', 'type of a color')
        c.close(np.array(got, float), rgb, 'color', 'get_color', atol=1e-12)
        hexcolor(c, color_tuple_to_hex(tuple(float(a) for a in rgb)), rgb, 'floats')
        i = tuple(int(a) for a in np.round(rgb * 255))
        h = color_tuple_to_hex(i)
        c.check(h == '0x%02x%02x%02x' % i, 'color', 'hex number of 8 bit colors', got=h, color=i)
        f = rng.random(3)
        hexcolor(c, color_tuple_to_hex(tuple(float(a) for a in f)), f, 'floats')
    c.check(get_color({}) == (1., 1., 1.), 'color', 'the default is not white')
    for bad in ((1.1, 0., 0.), (0., -.1, 0.), (256, 0, 0), (0, -1, 0), (1., 1, 0.5)):
        c.raises(ValueError, lambda: color_tuple_to_hex(bad), 'color', f'color {bad}')
    for bad in ((1.1, 0., 0.), (0., -.1, 0.), (2., 2., 2.), 'no color'):
        c.raises(ValueError, lambda: get_color({'color': bad}), 'color', f'color {bad}')
    # display settings fall back on the geometry
    geo = types.SimpleNamespace(shape='box', a=int(rng.integers(100)))
    d = DisplayDict(types.SimpleNamespace(geometry=geo), {'color': 'red'})
    c.check(d['shape'] == 'box' and d['a'] == geo.a and d.get('b', 3) == 3 and d['color'] == 'red' and 'a' not in d, 'display', 'look-up in the geometry')
    c.raises(KeyError, lambda: d['b'], 'display', 'unknown settings')
    d['a'] = 'x'
    c.check(d['a'] == 'x' and geo.a != 'x', 'display', 'settings do not override the geometry')


@W(quick=30, thorough=400)
def skipped(c):
    """elements that cannot be shown are announced or skipped on request"""
    from marxs.optics import FlatDetector
    from marxs.visualization.utils import MARXSVisualizationWarning
    x, j, t = marx()
    rng = c.rng
    e = FlatDetector(zoom=[1, 4, 4])
    kind = ['None', 'unknown', 'unknown; None', 'unknown; box', 'box; unknown', 'none'][c.idx % 6]
    if kind == 'none':
        e.display = None
    else:
        e.display['shape'] = kind
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = j.plot_object(e)
        scene = x.plot_object(e)
        code = js(t, e)
    w = [k for k in w if issubclass(k.category, MARXSVisualizationWarning)]
    shown = 'box' in kind
    warned = kind in ('unknown', 'none')
    c.check((out is not None) == shown and (len(list(scene.children)) == 1) == shown and bool(code) == shown, 'skip', f'shape {kind}: shown or not')
    c.check(len(w) == 3 * warned, 'skip', f'shape {kind}: warnings', got=len(w))


class Rec:
    """stands in for mayavi.mlab"""
    def __init__(self):
        self.calls = []
        prop = types.SimpleNamespace(opacity=None, trait_names=lambda: ['opacity', 'line_width'])
        self.prop = prop

        def make(name):
            def f(*a, **k):
                self.calls.append((name, a, k))
                act = types.SimpleNamespace(actor=types.SimpleNamespace(property=prop))
                return types.SimpleNamespace(module_manager=types.SimpleNamespace(children=[act]), update=lambda: None,
                                             mlab_source=types.SimpleNamespace(dataset=types.SimpleNamespace()))
            return f
        for n in ('triangular_mesh', 'mesh', 'plot3d'):
            setattr(self, n, make(n))
        self.pipeline = types.SimpleNamespace(**{n: make(n) for n in ('scalar_scatter', 'stripper', 'surface')})


@W(quick=40, thorough=400)
def mayavi(c):
    """what is asked of mayavi"""
    from marxs.missions.arcus.boom import Rod
    from marxs.optics import CircularDetector
    from marxs.visualization import mayavi as m
    rng = c.rng
    rec = Rec()
    mod = types.ModuleType('mayavi')
    mod.mlab = rec
    old = {k: sys.modules.get(k) for k in ('mayavi', 'mayavi.mlab')}
    sys.modules['mayavi'], sys.modules['mayavi.mlab'] = mod, rec
    try:
        kind = ['box', 'hole', 'tube', 'rod', 'rays'][c.idx % 5]
        c.note(kind=kind)
        if kind == 'rays':
            n, N = int(rng.integers(1, 20)), int(rng.integers(2, 6))
            data = rng.normal(size=(n, N, 3))
            s = [None, rng.random(n), rng.random((n, N))][int(rng.integers(3))]
            src, _, _ = m.plot_rays(data, s)
            _, (x, y, z, sc), _ = rec.calls[0]
            c.close(np.stack([x, y, z], -1), data.reshape(-1, 3), 'mayavi-rays', 'points of the rays')
            ln = np.asarray(src.mlab_source.dataset.lines)
            ok = ln.shape == (n * (N - 1), 2) and np.all(ln[:, 1] == ln[:, 0] + 1) and np.all(ln[:, 0] // N == ln[:, 1] // N) and len(set(ln[:, 0])) == len(ln)
            c.check(ok, 'mayavi-rays', 'points that are connected')
            if s is not None:
                c.close(sc, np.repeat(s, N) if s.ndim == 1 else s.ravel(), 'mayavi-rays', 'scalars of the rays')
            return
        if kind == 'box':
            name, e, p4 = elem(c)
            if e.display.get('shape') != 'box':
                c.skip()
            e.display.pop('box-half', None)
        elif kind == 'hole':
            hk, e, p4, kw, of, ref = hole(c)
            e.display.update(kw)
        else:
            r, h = rng.uniform(5, 50, 2)
            p4 = G.aff(rng.normal(size=3) * 100, G.rot(rng), [r, r, h])
            e = (CircularDetector if kind == 'tube' else Rod)(pos4d=p4)
        op = e.display['opacity'] = float(rng.uniform(.1, 1))
        with untouched(c, e):
            m.plot_object(e)
        if not c.check(len(rec.calls) == 1, 'mayavi', 'number of shapes'):
            return
        f, a, k = rec.calls[0]
        c.check(rec.prop.opacity == op, 'mayavi', 'opacity')
        ctr, ax, sz = G.frame(p4)
        if f == 'triangular_mesh':
            pts = np.stack(a[:3], -1)
            tri = np.array(a[3])
            if kind == 'hole':
                judge(c, 'mayavi', hk, pts, tri, p4, of, ref, 1e-8 * np.abs(pts).max())
            else:
                full = np.array([[p, q, d] for p in (-1, 1) for q in (-1, 1) for d in (-1, 1)], float) @ p4[:3, :3].T + p4[:3, 3]
                c.check(samepoints(pts, full, 1e-9 * np.abs(full).max()), 'mayavi-box', 'corners of the box')
                s = np.linalg.det(p4[:3, :3])
                area = 8 * (sz[0] * sz[1] + sz[1] * sz[2] + sz[0] * sz[2])
                c.close(mesharea(pts, tri), area, 'mayavi-box', 'area of the box', rtol=1e-9)
                # closed surface: every edge is part of two triangles, and the cone volumes from the centre add up
                vol = sum(abs(np.dot(pts[i] - ctr, np.cross(pts[j] - ctr, pts[k] - ctr))) for i, j, k in tri) / 6
                c.close(vol, 8 * abs(s), 'mayavi-box', 'volume of the box', rtol=1e-9)
        elif f == 'mesh':
            pts = np.stack(a[:3], -1).reshape(-1, 3)
            loc = (pts - ctr) @ ax
            c.close(np.hypot(loc[:, 0], loc[:, 1]), np.full(len(pts), sz[0]), 'mayavi-surface', 'radius')
            c.close([loc[:, 2].min(), loc[:, 2].max()], [-sz[2], sz[2]], 'mayavi-surface', 'extent')
        else:
            pts = np.stack([np.asarray(v, float) for v in a[:3]], -1)
            c.close(sorted(map(tuple, np.round(pts, 9))), sorted(map(tuple, np.round([ctr - ax[:, 2] * sz[2], ctr + ax[:, 2] * sz[2]], 9))), 'mayavi-cylinder', 'ends of the rod', atol=1e-7)
            c.close(k['tube_radius'], sz[1], 'mayavi-cylinder', 'radius of the rod')
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


@W(quick=40, thorough=500)
def plates(c):
    """polygons with a hole, and lists of triangulations"""
    from marxs.visualization.utils import combine_disjoint_triangulations, plane_with_hole
    rng = c.rng
    parts, areas = [], 0.
    R = G.rot(rng)
    for k in range(int(rng.integers(1, 4))):
        no, ni = int(rng.choice([4, 4, 8, 90])), int(rng.choice([4, 8, 30, 90, 360]))
        ph = rng.uniform(0, 6)
        ro, ri = rng.uniform(5, 9), rng.uniform(.5, 1.8)

        def poly(r, n):
            a = ph + np.arange(n) / n * 2 * np.pi
            return np.column_stack([np.cos(a) * r + 30 * k, np.sin(a) * r, np.full(n, 3.)]), n / 2 * r**2 * np.sin(2 * np.pi / n)
        (o, ao), (i, ai) = poly(ro, no), poly(ri, ni)
        xyz, tri = plane_with_hole(o @ R.T, i @ R.T)
        c.check(tri.min() >= 0 and tri.max() < len(xyz) == no + ni, 'plate', 'triangles refer to vertices that do not exist')
        c.close(mesharea(xyz, tri), ao - ai, 'plate', 'area of the triangles', rtol=1e-9, no=no, ni=ni)
        q = rng.uniform(-1, 1, (100, 2)) * ro + [30 * k, 0]
        got, close = cover((xyz @ R)[:, :2], tri, q)
        rq = np.hypot(q[:, 0] - 30 * k, q[:, 1])
        fo, fi = np.cos(np.pi / no), np.cos(np.pi / ni)
        sure = ((rq < ri * fi) | (rq > ri) & (rq < ro * fo) | (rq > ro)) & ~close
        c.count('coverage', int(sure.sum()))
        c.check(got[sure] == ((rq > ri) & (rq < ro))[sure], 'plate', 'number of triangles over a point', no=no, ni=ni)
        parts.append((xyz, tri))
        areas += ao - ai
    xyz, tri = combine_disjoint_triangulations([p for p, _ in parts], [q for _, q in parts])
    c.check(len(tri) == sum(len(q) for _, q in parts) and tri.min() >= 0 and tri.max() < len(xyz), 'plate', 'combined triangulation')
    got = [xyz[f] for f in tri]
    exp = [p[f] for p, q in parts for f in q]
    c.close(np.array(got), np.array(exp), 'plate', 'triangles of the combined triangulation')
    c.close(mesharea(xyz, tri), areas, 'plate', 'area of the combined triangulation', rtol=1e-9)


@W(quick=6, thorough=40)
def shells(c):
    """plates drawn around the shells of a telescope leave the shells open and cover everything between them"""
    from marxs.missions.lynx import lynx
    from marxs.missions.lynx.mirror import MetaShellAperture
    import marxs.visualization.x3d as x
    rng = c.rng
    full = lynx.conf['metashellgeometry']
    n = int(rng.integers(2, len(full) + 1))
    k = int(rng.integers(0, len(full) - n + 1))
    conf = dict(lynx.conf, metashellgeometry=full[k:k + n])
    c.note(first=k, n=n)
    a = MetaShellAperture(conf)
    if rng.uniform() < .5:
        MetaShellAperture(lynx.conf)     # another telescope does not matter
    ri, ro = (np.array(full[k:k + n][q], float) for q in ('r_inner', 'r_outer'))
    r = np.hstack([rng.uniform(ri + 3, ro - 3, (6, n)).ravel(), rng.uniform(0, ri[0] - 3, 6), rng.uniform(ro[:-1] + 3, ri[1:] - 3, (6, n - 1)).ravel()])
    opening = np.hstack([np.ones(6 * n, bool), np.zeros(6 * n, bool)])
    phi = rng.uniform(0, 2 * np.pi, len(r))
    q = np.column_stack([r * np.cos(phi), r * np.sin(phi)])
    scene = None
    for e in a.elements:
        scene = x.plot_object(e, scene=scene) if scene is not None else x.plot_object(e)
    sh = xml(scene)
    c.check(len(sh) == n, 'shells', 'one shape per shell', got=len(sh))
    for what, mesh in (('mesh', [e.geometry.triangulate(e.display) for e in a.elements]), ('x3d', [(p[1], np.asarray(p[2])) for p in sh])):
        num, close = np.zeros(len(q), int), np.zeros(len(q), bool)
        for p, t in mesh:
            m, cl = cover(np.asarray(p)[:, 1:3], np.asarray(t)[:, :3], q)
            num += m
            close |= cl
        c.check((num == ~opening) | close, 'shells', f'{what}: number of plates over a point (0 in a shell, 1 between them)', r=lambda b: r[b][:4], num=lambda b: num[b][:4], opening=lambda b: opening[b][:4])
    c.count('shells', n)


@W(quick=16, thorough=150, cpu=60)
def pages(c):
    """HTML pages and archives hold the same scene"""
    import os
    import pathlib
    import shutil
    import tempfile
    import xml.etree.ElementTree as ET
    from marxs.optics import FlatDetector, FlatGrating, OrderSelector
    x, j, t = marx()
    rng = c.rng
    scene = x.Scene(children=[])
    n = int(rng.integers(1, 4))
    els = []
    for i in range(n):
        e = FlatDetector(pos4d=G.pose(rng)) if rng.random() < .5 else FlatGrating(d=1e-3, order_selector=OrderSelector([0]), pos4d=G.pose(rng))
        e.display['color'] = color(rng)[0]
        els.append(e)
        x.plot_object(e, scene=scene)
    size = tuple(int(i) for i in rng.integers(100, 2000, 2))
    scene.dimension_px = size
    want = xml(scene)
    from x3d import x3d as X
    views = [f'view {"αβ"[int(i) % 2]} {int(i)}' for i in rng.integers(0, 99, int(rng.integers(0, 4)))]
    for k in views:
        scene.children.append(X.Viewpoint(description=k, position=(1., 2., 3.)))

    def inside(text):
        a, b = text.lower().index('<scene'), text.lower().rindex('</scene>') + len('</scene>')
        # attribute values without the tags around them
        return text[a:b]

    def shapes(text):
        return re.findall(r"point=['\"]([^'\"]*)", inside(text)), re.findall(r"diffuseColor=['\"]([^'\"]*)", inside(text), flags=re.I)
    ref = None
    for impl in ('X3DOM', 'X_ITE'):
        scene.set_X3D_implementation(impl)
        text = scene._repr_html_()
        c.check(scene.js_source in text and (not scene.css_source or scene.css_source in text), 'html', f'the page loads the scripts of {impl}')
        c.check(f'{size[0]}px' in text and f'{size[1]}px' in text, 'html', 'the page has the size of the scene', size=size)
        if impl == 'X3DOM':
            c.check(re.findall('<button[^>]*>([^<]*)</button>', text) == views, 'html', 'there is a button for each viewpoint', want=views)
        c.check(not re.sub('<[^>]*>', '', inside(text)).strip(), 'html', 'there is nothing but elements in the scene', got=lambda: re.sub('<[^>]*>', '', inside(text)).strip()[:40])
        c.check(re.findall(r"description=['\"]([^'\"]*)['\"]", inside(text)) == views, 'html', 'viewpoints are in the page', want=views)
        got = shapes(text)
        c.check(len(got[0]) == n == len(want), 'html', f'all shapes are in the page for {impl}', got=len(got[0]), want=n)
        if ref is None:
            ref = got
        c.check(got == ref, 'html', 'pages for different scripts show the same scene')
        for s, w in zip(got[0], want):
            c.close(np.array(re.split(r'[\s,]+', s.strip()), float).reshape(-1, 3) * 1000, w[1], 'html', 'points in the page', rtol=0, atol=1e-6)
    c.raises(ValueError, lambda: scene.set_X3D_implementation('x3dom2'), 'html', 'unknown scripts are refused')
    # archive with local copies
    impl = str(rng.choice(['X3DOM', 'X_ITE']))
    scene.set_X3D_implementation(impl)
    d = tempfile.mkdtemp(prefix='vmon31')
    try:
        for k in ('lib.js', 'look.css'):
            with open(os.path.join(d, k), 'w') as f:
                f.write('content of ' + k)
        scene.js_source = pathlib.Path(d, 'lib.js').as_uri()
        if impl == 'X3DOM':
            scene.css_source = pathlib.Path(d, 'look.css').as_uri()
        src = scene.js_source, scene.css_source
        fmt = str(rng.choice(['zip', 'tar', 'gztar']))
        cwd = os.getcwd()
        scene.write_html_archive(os.path.join(d, 'fig'), fmt)
        c.check(os.getcwd() == cwd, 'archive', 'the working directory is not changed')
        c.check((scene.js_source, scene.css_source) == src, 'archive', 'the scene still refers to its scripts', got=[scene.js_source, scene.css_source])
        arch = [k for k in os.listdir(d) if k.startswith('fig')]
        c.check(len(arch) == 1, 'archive', 'there is one archive', got=arch)
        shutil.unpack_archive(os.path.join(d, arch[0]), os.path.join(d, 'out'), filter='data') if fmt != 'zip' else shutil.unpack_archive(os.path.join(d, arch[0]), os.path.join(d, 'out'))
        files = sorted(os.listdir(os.path.join(d, 'out')))
        c.check(files == sorted(['figure.html', 'lib.js'] + (['look.css'] if impl == 'X3DOM' else [])), 'archive', 'the archive has the page and its scripts', got=files)
        with open(os.path.join(d, 'out', 'figure.html')) as f:
            text = f.read()
        c.check('file:' not in text and d not in text and 'lib.js' in text, 'archive', 'the page refers to the local copies')
        c.check(shapes(text) == ref, 'archive', 'the page in the archive shows the scene')
        with open(os.path.join(d, 'out', 'lib.js')) as f:
            c.check(f.read() == 'content of lib.js', 'archive', 'scripts are copied')
        # the scene is not damaged when scripts cannot be fetched
        scene.js_source = pathlib.Path(d, 'missing.js').as_uri()
        src = scene.js_source, scene.css_source
        c.raises(Exception, lambda: scene.write_html_archive(os.path.join(d, 'no'), fmt), 'archive', 'missing scripts are reported')
        c.check((scene.js_source, scene.css_source) == src, 'archive', 'a failure does not change the scene')
        c.check(not [k for k in os.listdir(d) if k.startswith('no')], 'archive', 'there is no archive without scripts')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.count('pages', 1)
