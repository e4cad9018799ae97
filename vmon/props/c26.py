"""C26: response files are normalised, lossless and survive a round trip."""
import copy
import os
import tempfile
import warnings

import astropy.units as u
import numpy as np
from astropy.io import fits
from astropy.table import QTable, Table
from scipy import stats

from vmon.core import Registry

W = Registry('C26', rule='matrix rows, matrices, responses and effective areas were encoded, written, read and expanded by an independent decoder, '
             'and compared to the arrays they were made from',
             require={'rows': 3000, 'entries': 30000, 'files': 100, 'gauss_rows': 300, 'arfs': 60},
             assumptions=['OGIP memo CAL/GEN/92-002 defines the encoding', 'matrix elements are stored with 32 bit'])
MANDATORY = dict(TELESCOP='tel', INSTRUME='ins', FILTER='fil')
COLS = ['N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX']


def array(rng, n):
    """one row of a matrix, of very different shapes"""
    kind = str(rng.choice(['empty', 'full', 'groups', 'single', 'line', 'first', 'last', 'alternate', 'below'],
                          p=[.1, .1, .3, .1, .1, .05, .05, .1, .1]))
    a = np.zeros(n)
    if kind == 'full':
        a = rng.uniform(.01, 1, n)
    elif kind == 'groups':
        a = rng.uniform(.01, 1, n) * (np.repeat(rng.integers(0, 2, n), rng.integers(1, 5, n))[:n])
    elif kind == 'single':
        a[rng.integers(n)] = rng.uniform(.01, 1)
    elif kind == 'line':
        a = stats.norm.pdf(np.arange(n), rng.uniform(0, n), rng.uniform(.3, 1 + n / 4))
    elif kind == 'first':
        a[0] = 1.
    elif kind == 'last':
        a[-1] = 1.
    elif kind == 'alternate':
        a[rng.integers(2)::2] = .3
    elif kind == 'below':
        a = 10.**rng.uniform(-12, -2, n)
    return a, kind


def expand(row, n, first):
    """decoder, independent of the code under test"""
    out = np.zeros(n)
    f, m = np.atleast_1d(row['F_CHAN']), np.atleast_1d(row['N_CHAN'])
    mat, k = np.atleast_1d(row['MATRIX']), 0
    for i in range(int(row['N_GRP'])):
        for j in range(int(m[i])):
            out[int(f[i]) - first + j] = mat[k]
            k += 1
    return out


def cut(a, thr):
    return np.where(a > thr, a, 0.)


@W(quick=1500, thorough=30000)
def encode(c):
    from marxs.reduction.ogip import RMF
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 5, 20, 200]))
    a, kind = array(rng, n)
    first = int(rng.choice([0, 1, 1, 5]))
    thr = float(rng.choice([0., 1e-6, 1e-3, .3]))
    keep = a.copy()
    default = rng.uniform() < .3
    ng, f, m, mat = RMF.arr_to_rmf_matrix_row(a, first) if default else RMF.arr_to_rmf_matrix_row(a, first, threshold=thr)
    if default:
        thr = 1e-6
    c.note(kind=kind, n=n, first=first, thr=thr)
    c.seen('shape', (kind, n, first, thr))
    c.same(a, keep, 'changed', 'row that is encoded')
    c.check(len(f) == len(m) == ng, 'groups', f'{ng} groups, {len(f)} first channels, {len(m)} lengths')
    c.check(sum(m) == len(mat), 'groups', 'number of matrix elements')
    c.check(all(x > 0 for x in m), 'groups', 'no empty group')
    c.check(all(a_ + n_ < b_ for a_, n_, b_ in zip(f, m, f[1:])), 'groups', 'groups are ordered and separated')
    if len(mat):
        c.check(min(f) >= first and f[-1] + m[-1] - first <= n, 'groups', 'inside of channel range')
    c.same(expand(dict(N_GRP=ng, F_CHAN=f, N_CHAN=m, MATRIX=mat), n, first), cut(a, thr), 'encode', 'expanded row')
    c.count('rows')
    c.count('entries', n)


def make(rng):
    """a response from arrays"""
    from marxs.reduction.ogip import RMF
    n = int(rng.choice([1, 3, 10, 40]))
    rows = int(rng.choice([1, 2, 7, 25]))
    kind = rng.choice(['mixed', 'one', 'none', 'many'], p=[.6, .2, .1, .1])
    if kind == 'many':
        n = int(rng.choice([32766, 32767, 32768, 40000]))
        rows = int(rng.integers(1, 3))
    arrs, kinds = zip(*[array(rng, n) for i in range(rows)])
    arrs = np.array(arrs)
    if kind == 'one':
        arrs[:] = 0
        for r in arrs:
            i = rng.integers(n)
            r[i:i + rng.integers(1, 5)] = rng.uniform(.1, 1)
    elif kind == 'none':
        arrs[:] = 0
    elif kind == 'many':
        arrs[:] = 0
        for r in arrs:
            r[-rng.integers(1, 40):] = .01
            r[3] = .5
    thr = float(rng.choice([0, 1e-6, 1e-2]))
    first = int(rng.choice([0, 1, 7]))
    wave = rng.uniform() < .5
    edges = np.sort(rng.uniform(5, 25, n + 1)) if rng.uniform() < .5 else np.linspace(5., 25., n + 1)
    edges = edges * u.Angstrom
    if not wave:
        edges = edges.to(u.Unit(rng.choice(['keV', 'eV'])), equivalencies=u.spectral())
    if rng.uniform() < .3:
        edges = rng.permutation(edges.value) * edges.unit
    en = np.sort(rng.uniform(.3, 8, rows + 1))
    eb = RMF.ebounds_from_edges(edges)
    if rng.uniform() < .5 or n == 1:
        eb = Table(eb)
    eb['CHANNEL'] = np.asarray(eb['CHANNEL']) + first
    m = Table(names=['ENERG_LO', 'ENERG_HI'] + COLS, data=[np.zeros(rows, dtype=d) for d in [np.float64, np.float64, np.int16, object, object, object]])
    order = rng.permutation(rows)    # rows need not be sorted
    m['ENERG_LO'] = en[:-1][order]
    m['ENERG_HI'] = en[1:][order]
    m['ENERG_LO'].unit = m['ENERG_HI'].unit = u.keV
    for i, o in enumerate(order):
        for k, v in zip(COLS, RMF.arr_to_rmf_matrix_row(arrs[o], first, threshold=thr)):
            m[k][i] = v
    for t in (m, eb):
        t.meta.update(MANDATORY)
    if rng.uniform() < .4:      # columns may come in any order
        m = m[[m.colnames[i] for i in rng.permutation(len(m.colnames))]]
    m.meta[f'TLMIN{m.colnames.index("F_CHAN") + 1}'] = first
    eb.meta['TLMIN1'] = first
    r = RMF(m, eb, CHANTYPE='PI', HDUCLAS3='FULL')
    return r, cut(arrs, thr), en, np.sort(edges.to(u.keV, equivalencies=u.spectral()).value), dict(n=n, rows=rows, kind=str(kind), thr=thr, first=first)


def decode_check(c, r, arrs, en, edges, what, rtol):
    n = arrs.shape[1]
    for i in range(len(arrs)):
        where = c.rng.choice(['low', 'mid', 'wave'])
        e = en[i] if where == 'low' else c.rng.uniform(en[i] + 1e-9, en[i + 1] - 1e-9)
        e = float(e) * u.keV
        if where == 'wave':
            e = e.to(u.Angstrom, equivalencies=u.spectral())
        elif c.rng.uniform() < .3:
            e = e.to(u.eV) if where == 'mid' else e
        lo, hi, full = r.full_rmf(e)
        c.close(u.Quantity(lo, u.keV).value, edges[:-1], 'channels', f'{what}: lower energies of channels', rtol=1e-9)
        c.close(u.Quantity(hi, u.keV).value, edges[1:], 'channels', f'{what}: upper energies of channels', rtol=1e-9)
        c.close(full, arrs[i], 'expand', f'{what}: full row {i}', rtol=rtol, atol=1e-30)
        lo, hi, part = r.rmf(e)
        j = np.flatnonzero(arrs[i])
        if c.check(len(part) == len(j) == len(lo) == len(hi), 'expand', f'{what}: {len(part)} non-zero channels instead of {len(j)} in row {i}'):
            c.close(part, arrs[i][j], 'expand', f'{what}: row {i}', rtol=rtol, atol=1e-30)
            c.close(u.Quantity(lo, u.keV).value, edges[:-1][j], 'channels', f'{what}: lower energies of non-zero channels', rtol=1e-9)
            c.close(u.Quantity(hi, u.keV).value, edges[1:][j], 'channels', f'{what}: upper energies of non-zero channels', rtol=1e-9)
            wl, wh, part = r.rmf_angstrom(e)
            hc = 12.398419843320028
            c.close(u.Quantity(wl, u.Angstrom).value, hc / edges[1:][j], 'channels', f'{what}: wavelengths', rtol=1e-9)
            c.close(u.Quantity(wh, u.Angstrom).value, hc / edges[:-1][j], 'channels', f'{what}: wavelengths', rtol=1e-9)
            c.close(part, arrs[i][j], 'expand', f'{what}: row {i} by wavelength', rtol=rtol, atol=1e-30)
        row = r.row(e)
        c.check(u.Quantity(row['ENERG_LO'], u.keV).value <= e.to(u.keV, equivalencies=u.spectral()).value * (1 + 1e-12) and
                e.to(u.keV, equivalencies=u.spectral()).value <= u.Quantity(row['ENERG_HI'], u.keV).value, 'row', f'{what}: energy is in the row')
        c.count('rows')
        c.count('entries', n)


@W(quick=160, thorough=2500)
def matrices(c):
    """files with any layout of groups, read back by marxs and by an independent decoder"""
    from marxs.reduction.ogip import RMF
    rng = c.rng
    r, arrs, en, edges, info = make(rng)
    c.note(**info)
    c.seen('matrix', tuple(info.values()))
    c.check(r.matrix.meta['DETCHANS'] == arrs.shape[1] and r.ebounds.meta['DETCHANS'] == arrs.shape[1], 'keywords', 'DETCHANS is the number of channels')
    decode_check(c, r, arrs, en, edges, 'in memory', 0)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.rmf')
        if rng.uniform() < .5:
            r.write(f)
        else:
            r.write(f, TLMIN=info['first'])
        decode_check(c, r, arrs, en, edges, 'after writing', 2e-7)
        with fits.open(f) as hdus:
            h, m = hdus['MATRIX'].header, hdus['MATRIX'].data
            for k, v in MANDATORY.items():
                c.check(h[k] == v and hdus['EBOUNDS'].header[k] == v, 'keywords', f'{k} in file')
            c.check(h['CHANTYPE'] == 'PI' and h['HDUCLAS3'] == 'FULL' and h['DETCHANS'] == arrs.shape[1], 'keywords', 'OGIP keywords in file')
            c.check(h['HDUCLASS'] == 'OGIP' and h['HDUCLAS1'] == 'RESPONSE' and h['HDUCLAS2'] == 'RSP_MATRIX' and
                    hdus['EBOUNDS'].header['HDUCLAS2'] == 'EBOUNDS', 'keywords', 'OGIP class')
            first = h['TLMIN%i' % (1 + [x.name for x in m.columns].index('F_CHAN'))]
            c.check(first == info['first'], 'keywords', 'first channel')
            for i in range(len(m)):
                k = np.searchsorted(en, m['ENERG_LO'][i] + 1e-9) - 1
                c.close([m['ENERG_LO'][i], m['ENERG_HI'][i]], [en[k], en[k + 1]], 'file', 'energies in file', rtol=1e-12)
                c.close(expand({q: m[q][i] for q in COLS}, arrs.shape[1], first), arrs[k], 'file', f'row {i} of file', rtol=2e-7, atol=1e-30)
            eb = hdus['EBOUNDS'].data
            c.close(eb['E_MIN'], edges[:-1], 'file', 'lower energies of channels', rtol=1e-12)
            c.close(eb['E_MAX'], edges[1:], 'file', 'upper energies of channels', rtol=1e-12)
            c.check(hdus['EBOUNDS'].columns['E_MIN'].unit == 'keV' and hdus['MATRIX'].columns['ENERG_LO'].unit == 'keV', 'file', 'units')
            c.check(np.all(np.diff(eb['CHANNEL']) == 1), 'file', 'channels are consecutive')
        q = RMF.read(f)
        decode_check(c, q, arrs, en, edges, 'after reading', 2e-7)
        g = os.path.join(d, 'b.rmf')
        q.write(g)
        decode_check(c, RMF.read(g), arrs, en, edges, 'after second round trip', 2e-7)
        c.raises(OSError, lambda: q.write(g), 'overwrite', 'existing files are not overwritten')
        q.write(g, overwrite=True)
        c.count('files', 3)


@W(quick=60, thorough=600)
def keywords(c):
    """files that lack mandatory information are refused"""
    from marxs.reduction.ogip import ARF, RMF, OGIPFormatError
    rng = c.rng
    r, arrs, en, edges, info = make(rng)
    k = str(rng.choice(list(MANDATORY)))
    m, e = r.matrix.copy(), r.ebounds.copy()
    del (m if rng.uniform() < .5 else e).meta[k]
    c.raises(OGIPFormatError, lambda: RMF(m, e), 'mandatory', f'{k} missing')
    m = r.matrix.copy()
    col = str(rng.choice(m.colnames))
    m.remove_column(col)
    c.raises(OGIPFormatError, lambda: RMF(m, r.ebounds), 'mandatory', f'{col} missing')
    a, ref = arf(rng)
    del a.meta[k]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.arf')
        c.raises(OGIPFormatError, lambda: a.write(f), 'mandatory', f'{k} missing in ARF')
        c.check(not os.path.exists(f), 'mandatory', 'no file')
        t = Table(ref['data'])
        t.remove_column(str(rng.choice(['ENERG_LO', 'ENERG_HI', 'SPECRESP'])))
        t.write(f, format='fits')
        c.raises(OGIPFormatError, lambda: ARF.read(f), 'mandatory', 'column missing in ARF')
    c.count('files')


def arf(rng):
    from marxs.reduction.ogip import ARF
    n = int(rng.choice([1, 2, 5, 60]))
    e = np.sort(rng.uniform(.2, 9, n + 1))
    unit = u.Unit(rng.choice(['keV', 'eV']))
    area = rng.choice([u.cm**2, u.mm**2])
    y = rng.uniform(0, 500, n)
    kind = rng.choice(['random', 'same', 'zero'], p=[.6, .2, .2])
    if kind != 'random':
        y[:] = 0. if kind == 'zero' else rng.uniform(1, 10)
    data = {'ENERG_LO': (e[:-1] * u.keV).to(unit), 'ENERG_HI': (e[1:] * u.keV).to(unit), 'SPECRESP': y * area, 'ONCCD': rng.integers(0, 3, n).astype(float)}
    if rng.uniform() < .5:
        data['BIN_LO'] = (e[1:] * u.keV).to(u.Angstrom, equivalencies=u.spectral())
        data['BIN_HI'] = (e[:-1] * u.keV).to(u.Angstrom, equivalencies=u.spectral())
    a = ARF(data=list(data.values()), names=list(data))
    meta = dict(MANDATORY, ORDER=int(rng.integers(-9, 10)), CCDORDER=f'{rng.integers(-9, 10):+}', OSIP='w .1')
    a.meta.update(meta)
    return a, dict(data=data, meta=meta)


def arf_check(c, a, ref, what):
    for k, v in ref['data'].items():
        if c.check(k in a.colnames or k in a.meta, 'arf', f'{what}: {k} exists'):
            x = a[k]
            if isinstance(v, u.Quantity):
                if c.check(getattr(x, 'unit', None) is not None, 'arf-unit', f'{what}: {k} has a unit'):
                    c.close(np.broadcast_to(x.to(v.unit).value, v.shape), v.value, 'arf', f'{what}: {k}', rtol=1e-12, atol=0)
                    c.check(x.unit == v.unit, 'arf-unit', f'{what}: unit of {k}: {x.unit} instead of {v.unit}')
            else:
                c.close(np.broadcast_to(x, v.shape), v, 'arf', f'{what}: {k}', rtol=1e-12, atol=0)
    for k, v in ref['meta'].items():
        c.check(a.meta.get(k) == v, 'arf-keyword', f'{what}: {k} is {a.meta.get(k)!r} instead of {v!r}')


@W(quick=200, thorough=3000)
def effective_areas(c):
    from marxs.reduction.ogip import ARF
    rng = c.rng
    a, ref = arf(rng)
    n = len(ref['data']['ENERG_LO'])
    with tempfile.TemporaryDirectory() as d:
        for k in range(rng.integers(1, 4)):
            f = os.path.join(d, f'{k}.arf')
            a.write(f)
            arf_check(c, a, ref, f'after writing {k}')
            with fits.open(f) as h:
                x = h['SPECRESP'].data['SPECRESP'].astype(float) * u.Unit(h['SPECRESP'].columns['SPECRESP'].unit)
                c.close(x.to(u.cm**2).value, ref['data']['SPECRESP'].to(u.cm**2).value, 'arf', 'SPECRESP in file', rtol=1e-12)
                c.check(h['SPECRESP'].header['HDUCLAS2'] == 'SPECRESP' and h['SPECRESP'].header['ORDER'] == ref['meta']['ORDER'], 'arf-keyword', 'in file')
            a = ARF.read(f)
            arf_check(c, a, ref, f'after reading {k}')
            c.count('arfs')
            # work with it
            what = rng.choice(['scale', 'factor', 'zero', 'constant', 'column'])
            c.seen('arf', (what, n))
            if what == 'scale':
                s = rng.uniform(.1, 1, n)
                a['SPECRESP'] = a['SPECRESP'] * s
                ref['data']['SPECRESP'] = ref['data']['SPECRESP'] * s
            elif what == 'factor':
                s = float(rng.uniform(.1, 1))
                a['FACTOR'] = s if rng.uniform() < .5 else np.repeat(s, n)
                ref['data']['FACTOR'] = np.repeat(s, n)
            elif what in ('zero', 'constant'):
                s = 0. if what == 'zero' else 3.5
                a['SPECRESP'] = np.repeat(s, n) * u.cm**2
                ref['data']['SPECRESP'] = np.repeat(s, n) * u.cm**2
            else:
                s = rng.uniform(0, 1, n)
                a['PART'] = s
                ref['data']['PART'] = s
            arf_check(c, a, ref, f'{what} {k}')
            f = os.path.join(d, f'{k}b.arf')
            keep = a.copy() if rng.uniform() < .5 else None
            a.write(f)
            a = ARF.read(f)
            arf_check(c, a, ref, f'{what} {k} and round trip')
            if keep is not None:
                a = keep
            c.count('files', 2)


@W(quick=60, thorough=600)
def filenames(c):
    """different orders go to different files"""
    from marxs.missions.arcus import arfrmf
    from marxs.reduction import ogip
    rng = c.rng
    seen = {}
    for mod in (ogip, arfrmf):
        for kind in ('ORDER', 'CCDORDER'):
            for o in range(-12, 13):
                for t in (range(-12, 13, 3) if kind == 'CCDORDER' else [0]):
                    meta = dict(MANDATORY, ORDER=o) if kind == 'ORDER' else dict(MANDATORY, ORDER=t, CCDORDER=o, TRUEORD=t)
                    form = rng.choice(['int', 'numpy', 'str'])
                    if form == 'numpy':
                        meta = {k: np.int16(v) if isinstance(v, int) else v for k, v in meta.items()}
                    elif form == 'str':
                        meta = {k: f'{v:+}' if isinstance(v, int) else v for k, v in meta.items()}
                    if mod is arfrmf:
                        meta['ARCCHAN'] = str(rng.choice(['1111', '1000', '0110']))
                    keep = dict(meta)
                    ft = str(rng.choice(['arf', 'rmf', 'fits']))
                    name = mod.filename_from_meta(ft, **meta)
                    c.check(meta == keep, 'filename', 'header does not change')
                    key = (mod.__name__, ft, kind, o, t, meta.get('ARCCHAN'))
                    c.check(seen.setdefault(name + mod.__name__, key) == key, 'filename', f'{name} for {key} and {seen[name + mod.__name__]}')
                    c.check(name.endswith('.' + ft), 'filename', 'ending')
                    c.count('names')


def profile(rng, lo, hi):
    """a width that a cubic interpolation reproduces, in Angstrom"""
    a, b = rng.uniform(.02, .3), rng.uniform(-.2, .2)
    return lambda w: a * (1 + b * (w - lo) / (hi - lo))


@W(quick=25, thorough=300, cpu=120)
def gaussians(c):
    """rows of Gaussian responses: area of a Gaussian in each channel"""
    from marxs.missions.arcus.arfrmf import mkrmf0
    from marxs.reduction.ogip import RMF
    rng = c.rng
    n = int(rng.integers(2, 30))
    lo, hi = np.sort(rng.uniform(5, 40, 2)) + [0, 2.]
    edges = np.linspace(lo, hi, n + 1)
    if rng.uniform() < .5:
        edges[1:-1] += rng.uniform(-.3, .3, n - 1) * (hi - lo) / n
    sig = profile(rng, lo, hi)
    unit = str(rng.choice(['Angstrom', 'keV', 'nm']))
    q = (edges * u.Angstrom).to(u.Unit(unit), equivalencies=u.spectral())
    if rng.uniform() < .5:
        q = q[::-1]
    thr = float(rng.choice([0., 1e-6, 1e-4]))
    kind = str(rng.choice(['wave', 'energy', 'order0']))
    w = np.linspace(lo - 1, hi + 1, int(rng.integers(4, 9)))
    cls = Table if rng.uniform() < .5 else QTable
    shuffle = rng.permutation(len(w)) if rng.uniform() < .5 else np.arange(len(w))[::-1]
    head = dict(MANDATORY, SATELLIT='s')
    hc = 12.398419843320028
    if kind == 'order0':
        # linear interpolation between two or more energies
        q_ = np.array([.1, 20.]) if rng.uniform() < .5 else np.sort(np.append(rng.uniform(.2, 3, 3), [.1, 20.]))
        tab = QTable({'energy': q_ * u.keV, 'FWHM': (np.ones(len(q_)) if rng.uniform() < .5 else rng.uniform(.3, 1, len(q_))) * rng.uniform(20, 200) * u.eV})
    else:
        tab = QTable({'wave': w[shuffle] * u.Angstrom, 'sigma_wave': sig(w[shuffle]) * u.Angstrom})
        if kind == 'energy':
            tab = QTable({'energy': tab['wave'].to(u.keV, equivalencies=u.spectral()), 'sigma_energy': (sig(w[shuffle]) / w[shuffle] * hc / w[shuffle] * 1e3) * u.eV})
        elif rng.uniform() < .3:
            tab['sigma_wave'] = tab['sigma_wave'].to(u.mAA if hasattr(u, 'mAA') else u.pm)
        tab = cls(tab)
    keep = tab.copy()
    c.note(n=n, unit=unit, thr=thr, kind=kind)
    c.seen('gauss', (kind, unit, n, thr))
    r = mkrmf0(q, ccdfwhm=tab, threshold=thr) if kind == 'order0' else RMF.from_Gauss_sigma(q, tab, threshold=thr, headerkw=head)
    c.check(tab.colnames == keep.colnames, 'changed', 'columns of the table of widths')
    for k in keep.colnames:
        c.same(np.asarray(tab[k]), np.asarray(keep[k]), 'changed', f'{k} in table of widths')
    en = (edges * u.Angstrom).to(u.keV, equivalencies=u.spectral()).value[::-1]
    c.close(u.Quantity(r.matrix['ENERG_LO'], u.keV).value, en[:-1], 'gauss-bins', 'lower energies', rtol=1e-9)
    c.close(u.Quantity(r.matrix['ENERG_HI'], u.keV).value, en[1:], 'gauss-bins', 'upper energies', rtol=1e-9)
    for t, k in ((r.matrix, 'F_CHAN'), (r.ebounds, 'CHANNEL')):
        tl = f'TLMIN{t.colnames.index(k) + 1}'
        if tl in t.meta:
            v = t.meta[tl][0] if isinstance(t.meta[tl], tuple) else t.meta[tl]
            c.check(v == r.ebounds['CHANNEL'][0], 'first-channel', f'{tl} = {v}, the first channel is {r.ebounds["CHANNEL"][0]}')
            c.count('first_channels')
    if kind != 'order0':
        c.check(r.matrix.meta['FILTER'] == 'fil' or r.matrix.meta['FILTER'][0] == 'fil', 'keywords', 'header')
    for i in range(n):
        e = float(np.sqrt(en[i] * en[i + 1])) * u.keV
        full = r.full_rmf(e)[2]
        if kind == 'order0':
            mid = (en[i] + en[i + 1]) / 2
            d = stats.norm(mid, np.interp(mid, tab['energy'].to_value(u.keV), tab['FWHM'].to_value(u.keV)) / 2.3548200450309493)
            p = d.cdf(en[1:]) - d.cdf(en[:-1])
            total = d.cdf(en[-1]) - d.cdf(en[0])
        else:
            wl = hc / en
            mid = (wl[i] + wl[i + 1]) / 2
            d = stats.norm(mid, sig(mid))
            p = d.cdf(wl[:-1]) - d.cdf(wl[1:])
            total = d.cdf(wl[0]) - d.cdf(wl[-1])
        near = np.abs(p - thr) < 1e-6 * thr + 1e-12   # rounding at the threshold
        c.close(np.where(near, 0, full), np.where(near, 0, cut(p, thr)), 'gauss', f'row {i} of {n}', rtol=1e-5, atol=1e-9)
        c.check(abs(full.sum() - total) <= thr * n + 1e-6, 'normalised', f'sum {full.sum()} of row {i}, probability in channel range is {total}')
        c.check(np.all(full >= 0), 'gauss', 'no negative probability')
        c.count('gauss_rows')
        c.count('entries', n)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'g.rmf')
        r0 = copy.deepcopy(r)
        r.write(f)
        s = RMF.read(f)
        for i in range(n):
            e = float(np.sqrt(en[i] * en[i + 1])) * u.keV
            c.close(s.full_rmf(e)[2], r0.full_rmf(e)[2], 'expand', 'round trip', rtol=2e-7, atol=1e-12)
        c.count('files')
