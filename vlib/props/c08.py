"""C08: ordinary least squares degradation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

import rdtools
from ..core import Facet
from .. import gen

RULE = 'normalized energy of any spacing with NaNs; closed-form regression and ratio-of-normals CI'
ASSUMPTIONS = ['intercept well separated from zero (ratio distribution unimodal)',
               '10000 Monte Carlo draws; band 0.03 on the probability scale']
EPS = 0.03


def ols(yrs, y):
    good = ~np.isnan(y)
    x, y = yrs[good], y[good]
    n = len(x)
    xm, ym = x.mean(), y.mean()
    sxx = ((x - xm) ** 2).sum()
    m = ((x - xm) * (y - ym)).sum() / sxx
    b = ym - m * xm
    res = y - b - m * x
    s2 = (res ** 2).sum() / (n - 2)
    return dict(m=m, b=b, s2=s2, sem=np.sqrt(s2 / sxx), seb=np.sqrt(s2 * (1 / n + xm ** 2 / sxx)),
                cov=-s2 * xm / sxx, n=n)


def judge_ci(ctx, ci, f, cl):
    ctx.require(len(ci) == 2 and ci[0] <= ci[1], f'interval {ci}')
    if f['seb'] > 0.15 * abs(f['b']):
        return
    if f['seb'] < 1e-7 * abs(f['b']) and f['sem'] < 1e-7:
        ctx.close('degenerate interval', ci, [100 * f['m'] / f['b']] * 2, rtol=1e-4, atol=1e-4)
        return
    for v, p in zip(ci, (0.5 - cl / 200, 0.5 + cl / 200)):
        x = v / 100
        sd = np.sqrt(max(f['sem'] ** 2 - 2 * x * f['cov'] + (x * f['seb']) ** 2, 1e-300))
        z = (x * f['b'] - f['m']) / sd
        if f['b'] < 0:
            z = -z
        q = stats.norm.cdf(z)
        ctx.require(abs(q - p) <= EPS, f'confidence bound {v} sits at probability {q:.4f}, '
                    f'expected {p:.4f}')
    ctx.label('interval judged')


@st.composite
def cases(draw):
    n = draw(st.integers(4, 60))
    gaps = draw(st.lists(st.sampled_from([1, 1, 7, 30, 31, 2]), min_size=n - 1, max_size=n - 1))
    return dict(gaps=gaps, hours=draw(st.sampled_from([0, 0, 6, 13])), tz=draw(gen.tz),
                seed=draw(gen.seed32), trend=draw(st.sampled_from([-0.1, -0.01, 0.0, 0.03])),
                noise=draw(st.sampled_from([0.02, 0.001, 0.1, 0.0])),
                level=draw(st.sampled_from([1.0, 0.01, 300.0])),
                nan=draw(st.lists(st.integers(0, n - 1), max_size=min(3, n - 4), unique=True)),
                cl=draw(st.sampled_from([None, 68.2, 95.0, 50.0, 20.0])),
                name=draw(st.sampled_from([None, 'energy_normalized', 'x', 'days', 'years'])))


def check(c, ctx):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    days = np.concatenate([[0], np.cumsum(c['gaps'])])
    idx = pd.DatetimeIndex([pd.Timestamp('2014-02-03') + pd.Timedelta(days=int(d), hours=c['hours']
                            if i % 2 else 0) for i, d in enumerate(days)])
    if c['tz']:
        idx = idx.tz_localize('UTC').tz_convert(c['tz'])
    yrs = (gen.ns(idx) - gen.ns(idx)[0]) / (365 * 86400e9)
    y = c['level'] * (1 + c['trend'] * yrs + c['noise'] * r.standard_normal(len(yrs)))
    y[c['nan']] = np.nan
    kw = {} if c['cl'] is None else dict(confidence_level=c['cl'])
    rd, ci, info = ctx.call('degradation_ols', rdtools.degradation_ols,
                            pd.Series(y, index=idx, name=c['name']), **kw)
    f = ols(yrs, y)
    ctx.nontrivial()
    ctx.label('missing values' if c['nan'] else 'complete')
    sc = c['level']
    ctx.close('slope', info['slope'], f['m'], rtol=1e-7, atol=1e-9 * sc)
    ctx.close('intercept', info['intercept'], f['b'], rtol=1e-8)
    ctx.close('rate', rd, 100 * f['m'] / f['b'], rtol=1e-7, atol=1e-7)
    ctx.close('rmse', info['rmse'], np.sqrt(f['s2']), rtol=1e-6, atol=1e-9 * sc)
    ctx.close('slope_stderr', info['slope_stderr'], f['sem'], rtol=1e-6, atol=1e-9 * sc)
    ctx.close('intercept_stderr', info['intercept_stderr'], f['seb'], rtol=1e-6, atol=1e-9 * sc)
    judge_ci(ctx, ci, f, c['cl'] or 68.2)


FACETS = [Facet('regression', cases, check, 1600, 20000, 'all cases')]
