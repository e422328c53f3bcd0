"""C09: classical decomposition (annual moving average + regression + Mann-Kendall)."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

import rdtools
from ..core import Facet
from .. import gen
from .c08 import ols, judge_ci

RULE = ('regular series (daily/weekly/monthly) of 1-5 years incl. piecewise constant ones; '
        'moving average by direct summation, Mann-Kendall by definition')
ASSUMPTIONS = ['at least three full-year averages']
HALF = 365 * 86400 * 10**9 // 2


@st.composite
def cases(draw):
    freq = draw(st.sampled_from(['MS', '7D', 'D', '30D', '876h']))
    months = draw(st.one_of(st.integers(14, 22), st.integers(14, 60)))
    if freq == 'D':
        months = min(months, 36)
    return dict(freq=freq, months=months, start=draw(st.sampled_from(['2012-01-01', '2015-06-01'])),
                tz=draw(gen.tz), seed=draw(gen.seed32),
                trend=draw(st.sampled_from([-0.05, -0.005, 0.0, 0.02])),
                noise=draw(st.sampled_from([0.0, 0.02, 0.3])),
                season=draw(st.sampled_from([0.0, 0.2])), level=draw(st.sampled_from([1.0, 50.0])),
                flat=draw(st.one_of(st.none(), st.integers(1, 16).map(lambda k: k / 16))),
                cl=draw(st.sampled_from([None, 68.2, 95.0, 50.0])))


def build(c):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    start = pd.Timestamp(c['start'])
    end = start + pd.DateOffset(months=c['months'])
    idx = pd.date_range(start, end, freq=c['freq'], tz=c['tz'])
    yrs = np.asarray((idx - idx[0]) / pd.Timedelta('365d'))
    y = c['level'] * (1 + c['trend'] * yrs + c['season'] * np.sin(2 * np.pi * yrs)
                      + c['noise'] * r.standard_normal(len(yrs)))
    if c['flat'] is not None:
        k = int(c['flat'] * len(y))
        y[:k] = c['level']
    return pd.Series(y, index=idx, name='q')


def mk(x, alpha=0.05):
    x = np.asarray(x, float)
    n = len(x)
    s = 0
    for i in range(n - 1):
        d = x[i + 1:] - x[i]
        s += int((d > 0).sum()) - int((d < 0).sum())
    _, counts = np.unique(x, return_counts=True)
    var = (n * (n - 1) * (2 * n + 5) - sum(t * (t - 1) * (2 * t + 5) for t in counts)) / 18
    if s == 0 or var == 0:
        return 'no trend', 0.0
    z = (s - np.sign(s)) / np.sqrt(var)
    if abs(z) > stats.norm.ppf(1 - alpha / 2):
        return ('increasing' if z > 0 else 'decreasing'), z
    return 'no trend', z


def check(c, ctx):
    s = build(c)
    t = gen.ns(s.index)
    v = s.to_numpy()
    full = (t - t[0] >= HALF) & (t[-1] - t >= HALF)
    ma = np.full(len(v), np.nan)
    for i in np.flatnonzero(full):
        w = (t > t[i] - HALF) & (t <= t[i] + HALF)
        ma[i] = v[w].mean()
    if full.sum() < 3:
        ctx.label('too short')
        return
    x = (t - t[0]) / 86400e9 / 365.0
    if ((x >= x[0] + 0.5) & (x <= x[-1] - 0.5) != full).any():
        ctx.label('exactly half a year, not representable')
        return
    kw = {} if c['cl'] is None else dict(confidence_level=c['cl'])
    rd, ci, info = ctx.call('classical decomposition', rdtools.degradation_classical_decomposition,
                            s, **kw)
    sc = c['level']
    ctx.nontrivial()
    ctx.label(c['freq'], str(info['mk_test_trend']))
    got = info['series']
    ctx.same_index('moving average', got.index, s.index)
    ctx.close('annual moving average', got.to_numpy(float), ma, rtol=1e-9, atol=1e-10 * sc)
    yrs = (t - t[0]) / (365 * 86400e9)
    f = ols(yrs, got.to_numpy(float))
    ctx.close('slope', info['slope'], f['m'], rtol=1e-6, atol=1e-9 * sc)
    ctx.close('intercept', info['intercept'], f['b'], rtol=1e-8)
    ctx.close('rate', rd, 100 * f['m'] / f['b'], rtol=1e-6, atol=1e-7)
    ctx.close('rmse', info['rmse'], np.sqrt(f['s2']), rtol=1e-5, atol=1e-8 * sc)
    ctx.close('slope_stderr', info['slope_stderr'], f['sem'], rtol=1e-5, atol=1e-8 * sc)
    ctx.close('intercept_stderr', info['intercept_stderr'], f['seb'], rtol=1e-5, atol=1e-8 * sc)
    judge_ci(ctx, ci, f, c['cl'] or 68.2)
    vals = got.dropna().to_numpy(float)
    if len(np.unique(vals)) < len(vals):
        ctx.label('ties')
    trend, z = mk(vals)
    if abs(abs(z) - 1.959964) > 1e-5:
        if 1.0 < abs(z) < 3.0:
            ctx.label('near significance')
        ctx.require(info['mk_test_trend'] == trend,
                    f'Mann-Kendall says {info["mk_test_trend"]!r}, expected {trend!r} (z={z:.3f})')


@st.composite
def trend_cases(draw):
    return dict(m=draw(st.one_of(st.integers(3, 12), st.integers(3, 40))), levels=draw(st.sampled_from([2, 3, 5, 100])),
                seed=draw(gen.seed32), side=draw(st.booleans()), down=draw(st.booleans()),
                start=draw(st.sampled_from(['2012-01-01', '2015-06-13'])))


def averages(c):
    """Whole numbers, some tied, whose Mann-Kendall statistic is just below or just above significance."""
    r = np.random.Generator(np.random.PCG64(c['seed']))
    x = np.sort(r.integers(0, c['levels'], c['m']))
    while True:
        k = int(r.integers(0, len(x) - 1))
        if x[k] <= x[k + 1] and mk(x)[1] <= 0:
            break
        y = x.copy()
        y[[k, k + 1]] = y[[k + 1, k]]
        if mk(y)[0] == 'no trend':
            x = x if c['side'] else y
            break
        x = y
    return -x if c['down'] else x


def check_trend(c, ctx):
    """Data whose annual averages (thirteen values 30 days apart) are given whole numbers."""
    want = averages(c)
    v = [13.0 * 1000] * 13
    # the averages 180 days from the ends do not cover a full year
    for d in np.diff(np.concatenate([want[:1], want, want[-1:]])):
        v.append(v[-13] + 13.0 * d)
    s = pd.Series(v, index=pd.date_range(c['start'], periods=len(v), freq='30D'))
    _, _, info = ctx.call('classical decomposition', rdtools.degradation_classical_decomposition, s)
    vals = info['series'].dropna().to_numpy(float)
    ctx.close('annual averages', vals, 13000.0 + (want - want[0]), rtol=1e-12)
    trend, z = mk(vals)
    ctx.label(trend, 'ties' if len(set(vals)) < len(vals) else 'no ties')
    ctx.nontrivial(1.5 < abs(z) < 2.5)
    if abs(abs(z) - 1.959964) > 1e-5:
        ctx.require(info['mk_test_trend'] == trend,
                    f'Mann-Kendall says {info["mk_test_trend"]!r}, expected {trend!r} (z={z:.3f})')


@st.composite
def reject_cases(draw):
    return dict(n=draw(st.integers(400, 900)), k=draw(st.integers(1, 398)),
                what=draw(st.sampled_from(['nan', 'dropped', 'both'])))


def check_reject(c, ctx):
    idx = pd.date_range('2012-01-01', periods=c['n'], freq='D')
    s = pd.Series(1 + 0.1 * np.sin(np.arange(c['n'])), index=idx)
    if c['what'] == 'nan':
        s.iloc[c['k']] = np.nan
    elif c['what'] == 'dropped':
        s = s.drop(idx[c['k']])
    else:
        s = s.drop(idx[c['k']])
        s.iloc[0] = np.nan
    ctx.nontrivial()
    ctx.raises('irregular or missing data', ValueError,
               rdtools.degradation_classical_decomposition, s)


FACETS = [
    Facet('decomposition', cases, check, 800, 10000, 'at least three full-year averages'),
    Facet('trend', trend_cases, check_trend, 800, 10000, 'statistic between 1.5 and 2.5'),
    Facet('rejects', reject_cases, check_reject, 100, 600, 'all cases'),
]
