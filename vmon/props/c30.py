"""C30: Chandra chip, tangent and sky coordinates are consistent."""
import os
import tempfile

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord
from astropy.io import fits
from astropy.table import Table

from vmon import gen as G
from vmon.core import Registry

W = Registry('C30', rule='coordinates of every detected photon were compared to values calculated from the surveyed corners of the chips, the memo and the '
             'direction the photon came from; every facet was compared to the table of facets',
             require={'photons': 30000, 'facets': 300, 'sky': 2000, 'files': 5, 'headers': 25, 'tiled': 300},
             assumptions=['survey of the chips and constants of the transformations as in the Chandra coordinate memo', 'the pixel size is taken as 0.024 mm and '
                          'chips have 1024 pixels, so that chip edges agree to a fraction of a pixel'])
# Chandra coordinate memo: corner LL, LR, UL of each chip in LSI coordinates
CORNERS = {0: [(2.361, -26.484, 23.088), (1.130, -26.546, -1.458), (1.130, -1.939, 23.088)],
           1: [(1.130, 23.086, -1.458), (2.360, 23.024, 23.088), (-.100, -1.459, -1.458)],
           2: [(1.130, -26.546, -1.997), (2.361, -26.484, -26.543), (-.10, -2.001, -1.997)],
           3: [(2.361, 23.024, -26.543), (1.131, 23.086, -1.997), (1.13, -1.521, -26.543)],
           4: [(.744, -81.170, -59.170), (.353, -56.597, -59.170), (.744, -81.170, -34.590)],
           5: [(.348, -56.133, -59.170), (.099, -31.559, -59.170), (.348, -56.133, -34.590)],
           6: [(.096, -31.100, -59.170), (-.011, -6.524, -59.170), (.096, -31.100, -34.590)],
           7: [(-.011, -6.035, -59.170), (.024, 18.541, -59.170), (-.011, -6.035, -34.590)],
           8: [(.026, 18.970, -59.170), (.208, 43.545, -59.170), (.026, 18.970, -34.590)],
           9: [(.208, 43.986, -59.170), (.528, 68.560, -59.170), (.208, 43.986, -34.590)]}
OLSI = np.array([.684, .750, 236.552])
# origin in tiled detector coordinates, and direction of chip x and y there
TDET = {0: ((3061, 5131), (0, -1), (1, 0)), 1: ((5131, 4107), (0, 1), (-1, 0)), 2: ((3061, 4085), (0, -1), (1, 0)), 3: ((5131, 3061), (0, 1), (-1, 0)),
        **{4 + i: ((791 + 1042 * i, 1702), (1, 0), (0, 1)) for i in range(6)}}
F = 10061.65
PIX = np.deg2rad(.492 / 3600)


def chandra():
    import marxs.missions.chandra as m
    return m


def layout(aimpoint):
    """corner LL and edge vectors of each chip in global coordinates"""
    out = {}
    for k, v in CORNERS.items():
        v = np.array(v)
        out[k] = v[0] + OLSI + aimpoint, v[1] - v[0], v[2] - v[0]
    return out


def make(rng, chips=None, **kw):
    m = chandra()
    aim = str(rng.choice(['ACIS-I', 'ACIS-S']))
    if chips is None:
        chips = [[0, 1, 2, 3], [4, 5, 6, 7, 8, 9], list(range(10)), sorted(rng.choice(10, int(rng.integers(1, 10)), replace=False).tolist()),
                 rng.permutation(10)[:5].tolist()][int(rng.integers(5))]
    a = m.AIMPOINTS[aim]
    return m.ACIS(chips=chips, aimpoint=a, **kw), chips, np.array(a, float), aim


def photons(rng, chips, pos, n, node=None, edge=.0):
    """aimed at random places on random chips"""
    chip = rng.choice(chips, n)
    f = rng.uniform(edge, 1 - edge, (n, 2))
    tgt = np.array([pos[k][0] + a * pos[k][1] + b * pos[k][2] for k, (a, b) in zip(chip, f)])
    start = np.array([F, 0., 0.]) + (0 if node else rng.normal(size=(n, 3)) * [500, 300, 300])
    t = G.table(rng, start * np.ones((n, 3)), tgt - start)
    roll = float(rng.choice([0., rng.uniform(-180, 360)]))
    t.meta['ROLL_PNT'] = (roll, 'roll')
    t.meta['RA_PNT'] = (float(rng.uniform(0, 360)), 'ra')
    t.meta['DEC_PNT'] = (float(rng.uniform(-80, 80)), 'dec')
    return t, chip, f, tgt, roll


def col(t, *names):
    return np.column_stack([np.asarray(t[k], float) for k in names])


@W(quick=60, thorough=1200, cpu=120)
def detector(c):
    """photons aimed at a known place on a known chip"""
    rng = c.rng
    acis, chips, aim, name = make(rng)
    pos = layout(aim)
    n = 800
    t, chip, f, tgt, roll = photons(rng, chips, pos, n, edge=.002)
    c.note(chips=chips, aimpoint=name, roll=roll)
    out = acis(t.copy())
    c.check(len(out) == n, 'photons', 'no photon is lost')
    c.check(np.asarray(out['CCD_ID']) == chip, 'ccd', 'the chip is the one the photon was aimed at', got=np.asarray(out['CCD_ID'])[:5], want=chip[:5])
    c.close(col(out, 'pos')[:, :3], tgt, 'corners', 'photons are at the place given by the surveyed corners', rtol=0, atol=2e-3)
    L = np.array([[np.linalg.norm(pos[k][1]), np.linalg.norm(pos[k][2])] for k in chip])
    cxy = col(out, 'chipx', 'chipy')
    c.close(cxy, 512.5 + (f - .5) * L / .024, 'chip', 'chip coordinates count pixels of 0.024 mm from the lower left corner, with 512.5 at the center', rtol=0, atol=.1)
    c.close(cxy, .5 + f * 1024, 'chip-corner', 'chip coordinates are 0.5 and 1024.5 at the surveyed corners', rtol=0, atol=.2)
    # rigid maps
    o = np.array([TDET[k][0] for k in chip])
    ex = np.array([TDET[k][1] for k in chip])
    ey = np.array([TDET[k][2] for k in chip])
    td = col(out, 'tdetx', 'tdety')
    c.close(td, o + .5 + (cxy[:, :1] - .5) * ex + (cxy[:, 1:] - .5) * ey, 'tdet', 'tiled detector coordinates are the rigid map of the memo', rtol=0, atol=1e-5)
    y, z, x = np.asarray(out['pos'])[:, 1], np.asarray(out['pos'])[:, 2], np.asarray(out['pos'])[:, 0]
    det = np.column_stack([4096.5 + y / (F - x) / PIX, 4096.5 - z / (F - x) / PIX])
    dxy = col(out, 'detx', 'dety')
    c.close(dxy, det, 'det', 'focal plane coordinates are tangents of the angles seen from the mirror node, in pixels of 0.492 arcsec', rtol=0, atol=1e-5)
    # tiled coordinates are parallel to the spacecraft axes
    for k in set(chip.tolist()):
        i = chip == k
        if i.sum() < 20:
            continue
        A = np.column_stack([y[i], z[i], np.ones(i.sum())])
        s = np.linalg.lstsq(A, td[i], rcond=None)[0]
        c.close(s[:2] * .024, np.eye(2), 'tdet-orientation', 'tiled detector coordinates increase by one pixel per pixel along y and z', rtol=0, atol=.1)
        s = np.linalg.lstsq(A, dxy[i], rcond=None)[0]
        c.close(s[:2] * .024, np.diag([1., -1.]), 'det-orientation', 'focal plane coordinates increase with y and decrease with z', rtol=0, atol=.02)
        c.seen('chip', (k, name))
    th = np.deg2rad(roll)
    d = dxy - 4096.5
    sky = 4096.5 + np.column_stack([d[:, 0] * np.cos(th) + d[:, 1] * np.sin(th), -d[:, 0] * np.sin(th) + d[:, 1] * np.cos(th)])
    c.close(col(out, 'x', 'y'), sky, 'sky', 'sky coordinates are focal plane coordinates turned by the roll angle', rtol=0, atol=1e-5)
    for k in ('energy', 'time', 'probability'):
        c.same(np.asarray(out[k]), np.asarray(t[k]), 'kept', f'{k} is not changed')
    c.close(col(out, 'dir'), col(t, 'dir'), 'kept', 'directions are not changed', rtol=0, atol=1e-12)
    # no two chips share tiled coordinates
    c.count('photons', n)


@W(quick=25, thorough=250)
def tiles(c):
    """chips do not overlap, neither in space nor in tiled coordinates, and pixels next to each other stay so"""
    rng = c.rng
    acis, chips, aim, name = make(rng, chips=list(range(10)))
    pos = layout(aim)
    n = 600
    t, chip, f, tgt, roll = photons(rng, chips, pos, n, edge=.001)
    out = acis(t.copy())
    td = col(out, 'tdetx', 'tdety')
    box = {k: (td[chip == k].min(axis=0), td[chip == k].max(axis=0)) for k in range(10) if (chip == k).any()}
    for a in box:
        for b in box:
            if a < b:
                over = np.all(np.minimum(box[a][1], box[b][1]) > np.maximum(box[a][0], box[b][0]))
                c.check(not over, 'tile-overlap', 'chips do not overlap in tiled detector coordinates', chips=(a, b), got=[box[a], box[b]])
    # neighbours
    k = int(rng.integers(10))
    LL, e1, e2 = pos[k]
    s = rng.integers(5, 1018, (40, 2))
    step = np.array([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)])[rng.integers(5, size=40)]
    u1, u2 = e1 / np.linalg.norm(e1), e2 / np.linalg.norm(e2)
    cen = LL + e1 / 2 + e2 / 2

    def at(p):
        q = (p - 512.5) * .024
        return cen + q[:, :1] * u1 + q[:, 1:] * u2
    T = np.vstack([at(s), at(s + step)])
    start = np.array([F, 0., 0.]) * np.ones((80, 1))
    t = G.table(rng, start, T - start)
    t.meta['ROLL_PNT'] = (float(rng.uniform(0, 360)), 'roll')
    o = acis(t)
    c.check(np.asarray(o['CCD_ID']) == k, 'ccd', 'photons are on the chip they were aimed at')
    cp = col(o, 'chipx', 'chipy')
    c.close(cp[:40], s, 'pixel', 'chip coordinates of a pixel center', rtol=0, atol=.1)
    c.close(cp[40:] - cp[:40], step, 'pixel-step', 'the next pixel on the chip has the next chip coordinate', rtol=0, atol=2e-3)
    for a, b, tol in [('tdetx', 'tdety', 2e-3), ('detx', 'dety', .06), ('x', 'y', .06)]:
        q = col(o, a, b)
        d = np.linalg.norm(q[40:] - q[:40], axis=1)
        c.close(d, np.linalg.norm(step, axis=1), 'adjacent', f'pixels that are adjacent on the chip are adjacent in {a}, {b}', rtol=tol)
    # outside of all chips
    gap = [np.array([0, 0, 0.])]
    q = np.array([pos[i][0] + a * pos[i][1] + b * pos[i][2] for i in range(10) for a, b in [(-.004, .5), (1.004, .5), (.5, -.004), (.5, 1.004)]])
    t = G.table(rng, np.array([F, 0., 0.]) * np.ones((len(q), 1)), q - np.array([F, 0., 0.]))
    t.meta['ROLL_PNT'] = (0., 'roll')
    o = acis(t)
    c.check('CCD_ID' not in o.colnames or np.all(np.asarray(o['CCD_ID']) < 0), 'gap', 'photons in the gaps between the chips are on no chip')
    c.count('photons', n + 120)


@W(quick=40, thorough=400)
def moved(c):
    """the chosen chips stay the chosen chips, also when the detector is moved"""
    rng = c.rng
    m = chandra()
    acis, chips, aim, name = make(rng, chips=sorted(rng.choice(10, int(rng.integers(1, 6)), replace=False).tolist()))
    pos = layout(aim)
    t, chip, f, tgt, roll = photons(rng, list(range(10)), pos, 300, edge=.01)
    want = np.where(np.isin(chip, chips), chip, -1)
    kind = str(rng.choice(['plain', 'move_center', 'regenerate', 'shift']))
    c.note(kind=kind, chips=chips)
    if kind == 'move_center':
        acis.move_center(G.aff(rng.normal(size=3) * 30))
    elif kind == 'regenerate':
        acis.generate_elements()
    elif kind == 'shift':
        M = G.aff(rng.normal(size=3) * 20, G.rot(rng, 'small'))
        acis.uncertainty = M
        acis.generate_elements()
        t = G.move(t, M)
    out = acis(t.copy())
    ccd = np.asarray(out['CCD_ID']) if 'CCD_ID' in out.colnames else np.full(len(t), -1)
    c.check(ccd == want, 'selected-chips', 'photons are detected on the selected chips only', got=ccd[:8], want=want[:8])
    h = want >= 0
    L = np.array([[np.linalg.norm(pos[k][1]), np.linalg.norm(pos[k][2])] for k in chip])
    if h.any():
        c.close(col(out, 'chipx', 'chipy')[h], (512.5 + (f - .5) * L / .024)[h], 'moved-chip', 'chip coordinates name the same spot on a detector that is moved', rtol=0, atol=.1)
    if 'chipx' in out.colnames:
        c.check(np.isnan(col(out, 'chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety'))[~h], 'unselected', 'photons that are not detected have no detector coordinates')
    c.check(out.meta['DETNAM'] == 'ACIS-' + ''.join(str(k) for k in chips), 'header-detnam', 'the header lists the chips', got=str(out.meta.get('DETNAM')))
    c.check(out.meta['INSTRUME'][0] == 'ACIS', 'header-instrume', 'the header names the instrument')
    c.close([out.meta['SIM_X'], out.meta['SIM_Y'], out.meta['SIM_Z']], aim, 'header-sim', 'the header has the position of the SIM', rtol=0, atol=1e-9)
    c.count('photons', 300)
    # offset
    dx = rng.normal(size=3) * 5 * (rng.uniform(size=3) < .7)
    b = m.ACIS(chips=list(range(10)), aimpoint=m.AIMPOINTS[name], **{k: float(v) for k, v in zip(['DetOffsetX', 'DetOffsetY', 'DetOffsetZ'], dx) if v})
    t, chip, f, tgt, roll = photons(rng, list(range(10)), {k: (v[0] - dx, v[1], v[2]) for k, v in pos.items()}, 100, edge=.01)
    o = b(t)
    c.check(np.asarray(o['CCD_ID']) == chip, 'offset', 'the detector can be moved')
    c.close(col(o, 'pos')[:, :3], tgt, 'offset-position', 'an offset moves the detector in the opposite direction', rtol=0, atol=2e-3)
    c.close([o.meta['SIM_X'], o.meta['SIM_Y'], o.meta['SIM_Z']], aim - dx, 'header-offset', 'the offset is in the header', rtol=0, atol=1e-9)


def gnomonic(ra, dec, ra0, dec0):
    ra, dec, ra0, dec0 = map(np.deg2rad, (ra, dec, ra0, dec0))
    d = np.sin(dec0) * np.sin(dec) + np.cos(dec0) * np.cos(dec) * np.cos(ra - ra0)
    return np.cos(dec) * np.sin(ra - ra0) / d, (np.cos(dec0) * np.sin(dec) - np.sin(dec0) * np.cos(dec) * np.cos(ra - ra0)) / d


@W(quick=40, thorough=400, cpu=120)
def sky(c):
    """a photon through the center of the mirror is found at the position of its source"""
    from marxs.source import FixedPointing
    m = chandra()
    rng = c.rng
    acis, chips, aim, name = make(rng, chips=list(range(10)))
    n = 100
    ra0, dec0 = float(rng.uniform(0, 360)), float(rng.uniform(-75, 75))
    roll = float(rng.choice([0., 0., 90., rng.uniform(0, 360)]))
    r = rng.uniform(0, .13, n)
    co = SkyCoord(ra0, dec0, unit='deg').directional_offset_by(rng.uniform(0, 360, n) * u.deg, r * u.deg)
    t = G.table(rng, np.zeros((n, 3)), np.ones((n, 3)))
    t.remove_columns(['pos', 'dir', 'polarization'])
    t['ra'], t['dec'] = co.ra.to(u.deg), co.dec.to(u.deg)
    kw = dict(coords=SkyCoord(ra0, dec0, unit='deg'), roll=roll * u.deg)
    P = m.LissajousDither(DitherAmp=np.zeros(3) * u.deg, **kw) if rng.uniform() < .5 else FixedPointing(**kw)
    t = P(t)
    t['pos'] = np.array([F, 0, 0, 1.]) * np.ones((n, 1))
    c.note(ra=ra0, dec=dec0, roll=roll, pointing=type(P).__name__, aimpoint=name)
    out = acis(t)
    h = np.asarray(out['CCD_ID']) >= 0
    if not h.any():
        c.skip()
        return
    xi, eta = gnomonic(np.asarray(t['ra']), np.asarray(t['dec']), ra0, dec0)
    want = np.column_stack([4096.5 - xi / PIX, 4096.5 + eta / PIX])[h]
    got = col(out, 'x', 'y')[h]
    # the roll angle is counted the other way round in the pointing
    a = 2 * np.deg2rad(roll)
    d = want - 4096.5
    turned = 4096.5 + np.column_stack([d[:, 0] * np.cos(a) + d[:, 1] * np.sin(a), -d[:, 0] * np.sin(a) + d[:, 1] * np.cos(a)])
    if roll != 0 and np.allclose(got, turned, rtol=0, atol=.01):
        c.close(got, want, 'sky-roll', 'sky coordinates are turned by twice the roll angle for a telescope that is rolled', rtol=0, atol=.01)
    else:
        c.close(got, want, 'sky-position', 'sky coordinates are those of the source', rtol=0, atol=.01)
    c.count('sky', int(h.sum()))


@W(quick=8, thorough=60, cpu=120)
def files(c):
    """event files hold the coordinates and how they relate to the sky"""
    m = chandra()
    rng = c.rng
    acis, chips, aim, name = make(rng)
    pos = layout(aim)
    t, chip, f, tgt, roll = photons(rng, chips, pos, 200, edge=.01)
    C = m.Chandra(elements=[acis])
    # header of a file with other columns
    stale = [f'{k}{int(rng.integers(1, 25))}' for k in ('TLMIN', 'TLMAX', 'TCTYP', 'TCRVL', 'TCDLT', 'TCRPX')]
    for k in stale:
        t.meta[k] = (77., 'for another column')
    out = C(t.copy())
    c.check(out.meta['TELESCOP'][0] == 'CHANDRA' and out.meta['MISSION'][0] == 'AXAF', 'header-mission', 'the header names mission and telescope')
    was = out.copy()
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, 'evt.fits')
        C.write_evt(out, fn)
        back = Table.read(fn, hdu=1)
        hdr = fits.getheader(fn, 1)
    c.check(was.colnames == out.colnames and list(was.meta) == list(out.meta), 'photons-changed', 'writing a file does not change the photon list', got=out.colnames)
    for k in ('chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y', 'CCD_ID', 'time', 'energy', 'probability', 'pos', 'dir'):
        c.same(np.asarray(was[k], float), np.asarray(back[k], float), 'file-' + k, f'{k} in the file')
    c.close(col(back, 'marxs_ra', 'marxs_dec'), col(was, 'ra', 'dec'), 'file-radec', 'true positions in the file', rtol=0)
    names = [hdr[f'TTYPE{i + 1}'].upper() for i in range(hdr['TFIELDS'])]
    ix, iy = names.index('X') + 1, names.index('Y') + 1
    c.check(hdr.get(f'TCTYP{ix}') == 'RA---TAN' and hdr.get(f'TCTYP{iy}') == 'DEC--TAN', 'file-wcs', 'sky coordinates are a tangential projection', got=[hdr.get(f'TCTYP{ix}'), hdr.get(f'TCTYP{iy}')])
    c.close([hdr[f'TCRVL{ix}'], hdr[f'TCRVL{iy}'], hdr[f'TCRPX{ix}'], hdr[f'TCRPX{iy}'], hdr[f'TCDLT{ix}'], hdr[f'TCDLT{iy}']],
            [t.meta['RA_PNT'][0], t.meta['DEC_PNT'][0], 4096.5, 4096.5, -.492 / 3600, .492 / 3600], 'file-wcs', 'scale and reference of sky coordinates')
    c.check([hdr.get(k) != 77. for k in stale], 'file-stale', 'keywords for columns of another file are not copied', got=[k for k in stale if hdr.get(k) == 77.])
    for k in ('EXPOSURE', 'ROLL_PNT', 'MYKEY', 'DETNAM', 'TELESCOP', 'INSTRUME', 'ACSYS1', 'ACSYS4'):
        v = was.meta[k]
        v = v[0] if isinstance(v, tuple) else v
        c.check(hdr.get(k) == v, 'file-header', f'{k} is in the file', got=hdr.get(k), want=v)
    c.close(hdr['TSTOP'] - hdr['TSTART'], was.meta['EXPOSURE'][0], 'file-time', 'start and end of the observation', rtol=1e-9, atol=1e-3)
    for k, v in dict(CHIPX=(2, 1023), TDETX=(2, 8191), X=(.5, 8192.5)).items():
        i = names.index(k) + 1
        c.check((hdr.get(f'TLMIN{i}'), hdr.get(f'TLMAX{i}')) == v, 'file-range', f'allowed range of {k}', got=(hdr.get(f'TLMIN{i}'), hdr.get(f'TLMAX{i}')))
    c.count('files', 1)


@W(quick=40, thorough=500)
def headers(c):
    """Headers are completed: times agree with each other, what was there is kept"""
    from astropy.time import Time
    from marxs.missions.chandra.fitsheaders import complete_header
    rng = c.rng
    exp = float(rng.choice([10**rng.uniform(-1, 7), rng.uniform(0, 100)]))
    h = {'EXTNAME': 'X' + str(rng.integers(9)), 'EXPOSURE': (exp, 'total exposure time'), 'INSTRUME': ('ACIS', ''), 'RA_PNT': (rng.uniform(0, 360), ''), 'DEC_PNT': (rng.uniform(-90, 90), '')}
    given = dict(TELESCOP=['', 'OTHER'], GRATING=['', 'HETG', 'LETG'], DTCOR=[0., .7], OBSERVER=['', 'me'], TIMEDEL=[0., 1.5], CLOCKAPP=[False], TIMEPIXR=[0., .5], ORIGIN=['', 'MIT'], HDUCLAS1=['', 'other'],
                 FOC_LEN=[0., 9000.])
    own = {k: (v[int(rng.integers(len(v)))], 'own') for k, v in given.items() if rng.uniform() < .5}
    if rng.uniform() < .3:
        own['DATE-OBS'] = (str(rng.choice(['2001-02-03T04:05:06.700', '2015-12-31T23:59:59.000'])), 'own')
    own = {k: v if k == 'DATE-OBS' or rng.uniform() < .5 else v[0] for k, v in own.items()}
    h.update(own)
    was = dict(h)
    evt = rng.uniform() < .5
    t = None
    if evt:
        names = ['x', 'y', 'chipx', 'chipy', 'time', 'pha']
        t = Table({str(k): np.arange(3.) for k in rng.permutation(names)})
        if rng.uniform() < .3:
            t['Time'] = 1.
            c.raises(KeyError, lambda: complete_header(h, t, 'EVT1', ['OGIP', 'EVENTS', 'ALL']), 'header-case', 'columns that differ by case only cannot be written')
            c.count('headers')
            return
    c.note(own={k: str(v) for k, v in own.items()}, exposure=exp)
    complete_header(h, t, 'EVT1' if evt else 'ACASOL', ['OGIP', 'EVENTS', 'ALL'] if evt else ['OGIP', 'TEMPORALDATA', 'ASPECT'])
    val = lambda k: h[k][0] if isinstance(h[k], tuple) else h[k]
    for k in was:
        c.check(h[k] == was[k], 'header-kept', f'{k} is kept', got=h[k], want=was[k])
    c.close(val('TSTOP') - val('TSTART'), exp, 'header-time', 'the observation lasts as long as the exposure', rtol=1e-9, atol=1e-6)
    d0, d1 = (Time(val(k), format='fits') for k in ('DATE-OBS', 'DATE-END'))
    if 'DATE-OBS' not in own:
        c.close((d1 - d0).sec, exp, 'header-time', 'dates of start and end', rtol=1e-9, atol=3e-3)
    c.close(d0.cxcsec, val('TSTART'), 'header-time', 'TSTART is the date of the start', rtol=0, atol=2e-3)
    c.close(d0.mjd, val('OBS-MJD'), 'header-time', 'OBS-MJD is the date of the start', rtol=0, atol=1e-7)
    c.close(val('ONTIME'), exp, 'header-time', 'the sum of good times is the exposure', rtol=1e-12)
    c.close(val('LIVETIME'), exp, 'header-time', 'the live time is the exposure', rtol=1e-12)
    c.check(val('CONTENT') == ('EVT1' if evt else 'ACASOL') and val('HDUNAME') == was['EXTNAME'], 'header-content', 'the header names the content')
    c.count('headers')


@W(quick=40, thorough=500)
def tiled(c):
    """Tiled detector coordinates of any detector: turned, scaled and shifted"""
    from marxs.missions.chandra.data import chip2tdet
    rng = c.rng
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 40))
    td = dict(version='x', theta=rng.uniform(-7, 7, n), scale=rng.uniform(.3, 3, n), handedness=rng.choice([-1., 1.], n), origin=rng.integers(-9000, 9000, (n, 2)))
    was = {k: np.copy(v) for k, v in td.items()}
    i = int(rng.integers(n))
    x = rng.uniform(-100, 1100, (m, 2))
    keep = x.copy()
    got = chip2tdet(x, td, i)
    z = (x[:, 0] - .5 + 1j * (x[:, 1] - .5)) * np.exp(-1j * td['theta'][i]) * td['scale'][i] * td['handedness'][i]
    c.close(got, np.column_stack([z.real, z.imag]) + td['origin'][i] + .5, 'tiled', 'chip coordinates are turned, scaled and shifted', rtol=1e-9, atol=1e-7)
    c.same(x, keep, 'tiled', 'the input is not changed')
    c.check(all(np.array_equal(was[k], td[k]) for k in td), 'tiled', 'the definition is not changed')
    c.count('tiled', m)


@W(quick=40, thorough=500)
def columns(c):
    """columns of event lists are put in the order that CIAO expects"""
    from marxs.missions.chandra.fitsheaders import sort_columns
    rng = c.rng
    up = rng.uniform() < .3
    pairs = [k for k in ('chip', 'tdet', 'det', '', 'mirror', 'proj_', 'facet_') if rng.uniform() < .7]
    names = [k + x for k in pairs for x in 'xy']
    radec = [('ra', 'dec'), ('RA', 'DEC'), ('ra', 'de')][int(rng.integers(3))] if rng.uniform() < .8 else ()
    single = [k for k in ('time', 'energy', 'probability', 'CCD_ID', 'Zoo', 'flux', 'az', 'lonelyx', 'humidity', 'pha') if rng.uniform() < .6] or ['time']
    names = names + list(radec) + single
    t = Table()
    for k in rng.permutation(names):
        t[str(k)] = rng.normal(size=5) if k != 'pha' else rng.integers(0, 9, 5)
    t['pos'] = rng.normal(size=(5, 4))
    t.meta['KEY'] = 'value'
    was = t.copy()
    o = sort_columns(t)
    c.check(t.colnames == was.colnames, 'sort-input', 'the input keeps its order')
    c.check(sorted(o.colnames) == sorted(was.colnames), 'sort-lost', 'all columns are kept', got=o.colnames)
    for k in was.colnames:
        c.same(np.asarray(o[k]), np.asarray(was[k]), 'sort-values', f'{k} keeps its values')
    c.check(o.meta.get('KEY') == 'value', 'sort-lost', 'the header is kept')
    at = {k: i for i, k in enumerate(o.colnames)}
    for k in pairs:
        c.check(at[k + 'y'] == at[k + 'x'] + 1, 'sort-pairs', 'columns of a pair are next to each other, x first', pair=k, got=o.colnames)
    if radec:
        c.check(at[radec[1]] == at[radec[0]] + 1, 'sort-pairs', 'ra and dec are next to each other', got=o.colnames)
    std = [k for k in ('chip', 'tdet', 'det', '') if k in pairs]
    c.check([k for k in o.colnames[:2 * len(std)]] == [k + x for k in std for x in 'xy'], 'sort-order', 'standard coordinates come first, in the order that CIAO expects', got=o.colnames)
    rest = [k for k in o.colnames if k in single + ['pos']]
    c.check(rest == sorted(rest) and at[rest[0]] == len(names) - len(single), 'sort-order', 'the other columns are in alphabetic order at the end', got=o.colnames)
    c.count('sorted', 1)


_hess = []


def hess():
    if not _hess:
        _hess.append(Table.read(G.repo_data('missions', 'chandra', 'HESSdesign.rdb'), format='ascii.rdb'))
    return _hess[0]


def vec(h, s):
    return np.column_stack([np.asarray(h[k + s], float) for k in 'xyz'])


@W(quick=6, thorough=40, cpu=200)
def gratings(c):
    """all facets of the HETG"""
    m = chandra()
    rng = c.rng
    h = hess()
    n = len(h)
    cen, nrm, ux, uy, ul, ud = (vec(h, s) for s in ('c', 'u', 'uxf', 'uyf', 'ul', 'ud'))
    cen = cen + np.array([(339.909 - 1.7) * 25.4, 0, 0])
    meg = np.array([str(k)[0] in '13' for k in h['hessloc']])
    size = np.where(meg, 1.035, .92) * 25.4 / 2
    period = np.where(meg, 4001.95e-7, 2000.81e-7)
    kind = str(rng.choice(['plain', 'moved', 'regenerated']))
    g = m.HETG()
    M = np.eye(4)
    if kind == 'moved':
        M = G.aff(rng.normal(size=3) * .1, G.aff([0, 0, 0], G.rot(rng, 'small'))[:3, :3])
        g.geometry.pos4d = M @ g.geometry.pos4d
        g.generate_elements()
    elif kind == 'regenerated':
        g.generate_elements()
    c.note(kind=kind)
    per = 4
    i = np.repeat(np.arange(n), per)
    off = rng.uniform(-.98, .98, (n * per, 2)) * size[i][:, None]
    tgt = cen[i] + off[:, :1] * ux[i] + off[:, 1:] * uy[i]
    # photons come from the mirror, towards the focal point
    foc = rng.normal(size=(n * per, 3)) * [0, 30, 30]
    d = G.unit(foc - tgt)
    # facets are staggered along the path, so start close to the one we are aiming at
    t = G.table(rng, tgt - 2 * d, d, energy=(.5, 8))
    t = G.move(t, M)
    out = g(t.copy())
    f = np.asarray(out['facet']).astype(int)
    c.check(f == i, 'facet', 'photons hit the facet at the place listed in the table', bad=int((f != i).sum()), got=f[f != i][:4], want=i[f != i][:4])
    ok = f == i
    R = M[:3, :3]
    p0, p1 = col(t, 'dir')[ok, :3] @ R, col(out, 'dir')[ok, :3] @ R
    j = i[ok]
    mm = np.asarray(out['order'])[ok]
    kick = 1.2398419843320028e-6 / np.asarray(out['energy'])[ok] * mm / period[j]
    delta = p1 - p0
    along, across = (delta * ul[j]).sum(1), (delta * ud[j]).sum(1)
    sgn = np.sign((kick * across).sum())
    c.close(across, sgn * kick, 'facet-period', 'the change of direction across the grooves is order times wavelength over the period of the type of facet', rtol=3e-4, atol=1e-7)
    c.check(np.abs(along) <= 2e-3 * np.abs(kick) + 1e-7, 'facet-grooves', 'photons are dispersed in the direction listed in the table', worst=np.max(np.abs(along) / (np.abs(kick) + 1e-9)))
    pos = col(out, 'pos')[ok, :3]
    want = (np.column_stack([tgt, np.ones(len(tgt))]) @ M.T)[ok, :3]
    c.close(pos, want, 'facet-position', 'photons interact where they hit the facet', rtol=0, atol=2e-3)
    # outside of the active area
    off = np.where(rng.uniform(size=(n, 1)) < .5, [[1.03, 0.]], [[0., 1.03]]) * size[:, None] * rng.choice([-1, 1], (n, 1))
    tgt = cen + off[:, :1] * ux + off[:, 1:] * uy
    t = G.move(G.table(rng, tgt + 1. * nrm, -nrm), M)
    out = g(t)
    fac = np.asarray(out['facet']) if 'facet' in out.colnames else np.full(n, -1)
    c.check(fac != np.arange(n), 'facet-size', 'facets end at the size of the type of facet', got=np.nonzero(fac == np.arange(n))[0][:5])
    c.count('facets', n)
    c.count('photons', n * per)
    for k in np.unique(mm):
        c.seen('order', int(k))
