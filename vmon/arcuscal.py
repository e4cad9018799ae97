"""A made-up calibration database in the format that the Arcus and AXIS models read.

The numbers are not those of a real instrument; they are drawn at random, but consistent with each other, so that the path of every photon can be predicted.
"""
import importlib
import os
import shutil
import tempfile

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table
from scipy.optimize import brentq

from vmon import gen as G

_done = {}


def write(t, *parts):
    os.makedirs(os.path.dirname(os.path.join(*parts)), exist_ok=True)
    t.write(os.path.join(*parts), format='ascii.ecsv', overwrite=True)


def modules(rng):
    """an arc of mirror modules on one side of the optical axis"""
    t = Table(names=['primary_length', 'secondary_length', 'azwidth', 'inner_radius', 'outer_radius', 'plate_height', 'clocking_angle', 'focal_length'])
    for r in (420., 520., 640.):
        k = int(np.floor(2 * np.deg2rad(14) * r / 80))
        for i in range(k):
            ang = (i - (k - 1) / 2) * 80 / r
            h = rng.uniform(45, 70)
            t.add_row([rng.uniform(30, 60), 40, rng.uniform(45, 70), r - h / 2, r + h / 2, h / 36, ang, 12000.])
    for c in ('primary_length', 'secondary_length', 'azwidth', 'inner_radius', 'outer_radius', 'plate_height', 'focal_length'):
        t[c].unit = 'mm'
    t['clocking_angle'].unit = 'rad'
    return t


def facets(rng, mod, torus, ax, blaze):
    """two gratings behind every module, on the Rowland torus; ``ax`` is the position of the optical axis"""
    rows = []
    r = (mod['inner_radius'] + mod['outer_radius']) / 2
    n = 0
    for i in range(len(mod)):
        a = mod['clocking_angle'][i]
        for dx in (-16., 16.):
            s = np.array([r[i] * np.sin(a) + dx, r[i] * np.cos(a), 12000.])
            f = lambda q: float(np.squeeze(torus.quartic((q * s + ax)[None, :])))
            q = np.linspace(.9, .999, 60)
            v = np.array([f(x) for x in q])
            k = np.nonzero(np.sign(v[1:]) != np.sign(v[:-1]))[0]
            p = brentq(f, q[k[-1]], q[k[-1] + 1]) * s
            nrm = G.unit(p)
            # turn by the blaze angle in the direction of dispersion
            dsp = G.unit(np.array([1., 0, 0]) - nrm[0] * nrm)
            nrm, dsp = np.cos(blaze) * nrm + np.sin(blaze) * dsp, np.cos(blaze) * dsp - np.sin(blaze) * nrm
            bar = np.cross(nrm, dsp)
            rows.append([*p, *nrm, *dsp, *bar, rng.uniform(22, 30), rng.uniform(24, 34), i + 1, n, 2e-4 * rng.uniform(.99, 1.01)])
            n += 1
    t = Table(rows=rows, names=['X', 'Y', 'Z'] + [k + x for k in ('NormN', 'DispN', 'GBarN') for x in 'XYZ'] + ['xsize', 'ysize', 'SPO_MM_num', 'facet_num', 'period'])
    t['SPO_MM_num'] = t['SPO_MM_num'].astype(int)
    t['facet_num'] = t['facet_num'].astype(int)
    for c in ('X', 'Y', 'Z', 'xsize', 'ysize', 'period'):
        t[c].unit = 'mm'
    return t


def curve(rng, lo=.5):
    e = np.linspace(.05, 12., 40)
    t = Table([e, rng.uniform(lo, 1, len(e))], names=['energy', 'transmission'])
    t['energy'].unit = 'keV'
    return t


def areas(rng, orders=range(-12, 4), n=None):
    """effective area of mirrors and gratings for each order"""
    n = n or int(rng.integers(8, 30))
    w = np.sort(rng.choice(np.arange(20, 600), n, replace=False)) / 10.
    t = QTable([rng.permutation(w) * u.AA], names=['wave'])
    for o in orders:
        t[str(o)] = rng.uniform(0, 200, n) * u.cm**2
    return t


def make(rng):
    """Write the database (once per process), and load the model with it."""
    if _done:
        return _done
    import marxs.missions.arcus.utils as ut
    d = tempfile.mkdtemp(prefix='vmoncal')
    try:
        mod = modules(rng)
        write(mod, d, 'spos', 'petallayout.csv')
        E, A = np.meshgrid(np.linspace(.02, 12, 15), np.linspace(0, 4, 9), indexing='ij')
        refl = Table([E.ravel(), A.ravel(), (.95 - .02 * E - .08 * A).ravel()], names=['energy', 'angle', 'reflectivity'])
        refl['energy'].unit, refl['angle'].unit = 'keV', 'deg'
        write(refl, d, 'spos', 'coated_reflectivity.csv')
        os.makedirs(os.path.join(d, 'gratings'))
        shutil.copy(G.repo_data('missions', 'mitsnl', 'data', 'Si_efficiency_5_7.dat'), os.path.join(d, 'gratings', 'efficiency.csv'))
        num = dict(geometricthroughput=rng.uniform(.7, .95), porespecifications=rng.uniform(.7, .95))
        for k, v in num.items():
            write(Table([[v]], names=['transmission']), d, 'spos', k + '.csv')
        cur = {('spos', 'lossterm'): curve(rng), ('filters', 'sifilter'): curve(rng), ('filters', 'opticalblocking'): curve(rng), ('filters', 'uvblocking'): curve(rng),
               ('detectors', 'contam'): curve(rng), ('detectors', 'qe'): curve(rng)}
        for k, t in cur.items():
            write(t, d, k[0], k[1] + '.csv')
        jit = rng.uniform(1, 4)
        write(QTable([[jit] * u.arcsec], names=['FWHM']), d, 'other', 'pointingjitter.csv')
        os.makedirs(os.path.join(d, 'detectors', 'ccd_2021'))
        with open(os.path.join(d, 'detectors', 'ccd_2021', 'arcus_ccd_rmf_20210211.txt'), 'w') as f:
            for e in np.linspace(.1, 10, 50):
                f.write(f'{e} {30 + 12 * e}\n')
        write(areas(rng), d, 'aeff', 'mirr_grat.tab')
        ut.config.read_dict({'data': {'caldb_inputdata': d}})
        # the package is imported without database when any part of it is imported
        arcus = importlib.reload(importlib.import_module('marxs.missions.arcus.arcus'))
        conf = arcus.defaultconf
        fac = facets(rng, mod, conf['rowland_1m'], np.asarray(conf['pos_opt_ax']['1m'])[:3], np.deg2rad(conf['blazeang']))
        write(fac, d, 'gratings', 'facets.csv')
        _done.update(dir=d, arcus=arcus, modules=mod, facets=fac, numbers=num, curves=cur, jitter=jit, refl=lambda e, a: .95 - .02 * e - .08 * np.rad2deg(a))
        _keep()
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
    return _done


def _keep():
    import atexit
    import multiprocessing.util
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(_done['dir'], ignore_errors=True)
    atexit.register(clean)
    multiprocessing.util.Finalize(None, clean, exitpriority=1)
