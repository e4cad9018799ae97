"""C19: random draws follow the tabulated probability distribution."""
import numpy as np
from scipy import stats

from vmon.core import Registry

W = Registry('C19', rule='numbers drawn by the real generator were tested against the table it was given',
             require={'draws': 300000, 'statistical': 100, 'zero_bins': 30, 'rejected': 15, 'edges': 20},
             assumptions=['the first density of a table is ignored (documented)'])


def table(rng):
    n = int(rng.choice([2, 3, 5, 20, 300]))
    kind = rng.integers(4)
    if kind == 0:
        x = np.arange(n, dtype=float) + rng.integers(-5, 5)
    elif kind == 1:
        x = np.cumsum(rng.exponential(size=n)) - rng.uniform(0, n)
    elif kind == 2:
        x = 10**np.sort(rng.uniform(-3, 4, n))
    else:
        x = np.cumsum(10**rng.uniform(-3, 2, n)) + rng.normal() * 10
    y = [rng.uniform(0, 1, n), 10**rng.uniform(-9, 9, n), rng.exponential(size=n)**4, np.ones(n)][rng.integers(4)]
    y = y * 10**rng.uniform(-3, 3)
    z = np.zeros(n, bool)
    if n > 2 and rng.uniform() < .6:
        z = rng.uniform(size=n) < .4
        z[1 + rng.integers(n - 1)] = False
        y = np.where(z, 0., y)
        if rng.uniform() < .3:       # outermost bins empty
            y[1] = 0.
            if n > 3:
                y[-1] = 0.
                y[2] = max(y[2], y.max(), 1.)
            else:
                y[2] = max(y[2], 1.)
    y[0] = rng.choice([0., y[1], 1e12])
    return np.unique(x), y[:len(np.unique(x))]


@W(quick=160, thorough=3000)
def draws(c):
    from marxs.math.random import RandomArbitraryPdf
    rng = c.rng
    x, y = table(rng)
    if len(x) < 2 or y[1:].max() <= 0:
        c.skip()
    inbin = rng.uniform() < .7
    sort = rng.uniform() < .5
    N = int(rng.choice([0, 1, 4000, 4000]))
    kw = {}
    if not inbin or rng.uniform() < .3:
        kw['randomize_in_bin'] = bool(inbin)
    if not sort or rng.uniform() < .3:
        kw['sort'] = bool(sort)
    as_list = rng.uniform() < .2
    x0, y0 = x.copy(), y.copy()
    r = RandomArbitraryPdf(list(x) if as_list else x, list(y) if as_list else y, **kw)
    v = r(N)
    c.note(n=len(x), N=N, x=x, y=y, **kw)
    c.check(np.shape(v) == (N,), 'number', 'as many numbers as asked for')
    c.same(x, x0, 'untouched', 'table of bins')
    c.same(y, y0, 'untouched', 'table of densities')
    v = np.asarray(v, dtype=float)
    c.count('draws', N)
    w = y[1:] * np.diff(x)
    P = np.concatenate([[0], np.cumsum(w)]) / w.sum()
    tol = 1e-9 * np.abs(x).max()
    c.check((v >= x[0] - tol) & (v <= x[-1] + tol), 'range', 'draws inside the tabulated range')
    if N == 0:
        return
    if inbin:
        b = np.clip(np.searchsorted(x, v), 1, len(x) - 1)
        edge = np.abs(v[:, None] - x[None, :]).min(1) < tol
        c.check((y[b] > 0) | edge, 'zero-density', 'no draws in bins of zero density')
    else:
        i = np.searchsorted(x, v)
        c.check(np.isin(v, x[1:]), 'edge', 'draws are upper edges of bins')
        b = np.clip(i, 1, len(x) - 1)
        c.check(y[b] > 0, 'zero-density', 'no draws of bins of zero density')
        c.count('edges')
    if (y[1:] == 0).any():
        c.count('zero_bins')
    if N < 100:
        return
    obs = np.bincount(b, minlength=len(x))[1:]
    exp = N * w / w.sum()
    # merge bins of low expectation
    o, e, so, se = [], [], 0., 0.
    for k in np.argsort(exp):
        so += obs[k]
        se += exp[k]
        if se > 8:
            o.append(so)
            e.append(se)
            so = se = 0.
    if len(o) and se:
        o[-1] += so
        e[-1] += se
    if len(o) > 1:
        c.count('statistical')
        chi = np.sum((np.array(o) - e)**2 / np.array(e))
        c.pvalue(stats.chi2.sf(chi, len(o) - 1), 'distribution', 'frequencies of the bins', alpha=1e-10)
    # rare bins: Poisson bound for each
    rare = exp < 8
    if rare.any():
        c.check(stats.poisson.sf(obs[rare] - 1, np.maximum(exp[rare], 1e-300)) > 1e-10, 'distribution-rare', 'bins of low probability are rare')
    if inbin:
        c.count('statistical', 2)
        k = np.interp(v, x, P)
        if w.max() / w.sum() < .999999 or True:
            c.pvalue(stats.kstest(k, 'uniform').pvalue, 'distribution', 'distribution function')
        f = (v - x[b - 1]) / np.maximum(x[b] - x[b - 1], 1e-300)
        good = (x[b] - x[b - 1]) > 1e-6 * np.abs(x).max()
        if good.sum() > 50:
            c.pvalue(stats.kstest(f[good], 'uniform').pvalue, 'in-bin', 'uniform inside each bin')
    c.count('statistical')
    c.pvalue(stats.spearmanr(v[:-1], v[1:]).pvalue if np.ptp(v) > 0 else 1., 'serial', 'successive draws are independent')


@W(quick=20, thorough=200)
def two_generators(c):
    """generators do not influence each other, each call draws new numbers"""
    from marxs.math.random import RandomArbitraryPdf
    rng = c.rng
    a = RandomArbitraryPdf(np.array([0., 1, 2]), np.array([0, 1., 3]))
    b = RandomArbitraryPdf(np.array([10., 11, 12]), np.array([5., 2., 2]), randomize_in_bin=bool(rng.integers(2)))
    n = 2000
    v1 = a(n)
    w = b(n)
    v2 = a(n)
    c.check((v1 >= 0) & (v1 <= 2) & (v2 >= 0) & (v2 <= 2), 'range', 'first generator')
    c.check((w >= 10) & (w <= 12), 'range', 'second generator')
    c.check(np.mean(v1 == v2) < .01, 'repeat', 'new numbers for each call')
    for v in (v1, v2):
        c.count('statistical')
        c.pvalue(stats.binomtest(int((v > 1).sum()), n, .75).pvalue, 'distribution', 'three quarters in the second bin')
    c.count('draws', 3 * n)


@W(quick=24, thorough=120)
def invalid(c):
    from marxs.math.random import RandomArbitraryPdf as R
    rng = c.rng
    n = int(rng.integers(3, 9))
    x = np.cumsum(rng.uniform(.1, 1, n))
    y = rng.uniform(.1, 1, n)
    k = 1 + rng.integers(n - 1)
    case = c.idx % 6
    if case == 0:
        y[k] = -rng.choice([1e-9, 1., 1e9])
    elif case == 1:
        x[[k - 1, k]] = x[[k, k - 1]]
    elif case == 2:
        x = x[:-1]
    elif case == 3:
        y = np.append(y, .2)
    elif case == 4:
        y[1:] = 0.
    else:
        y[k] = np.nan
    c.note(case=case, n=n, k=k)

    def go():
        R(x, y)(10)
    c.raises(ValueError, go, 'invalid', 'not a density')
    c.count('rejected')
