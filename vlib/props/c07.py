"""C07: uncertainty of the year-on-year rate."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

import rdtools
from ..core import Facet
from .. import gen
from .c06 import build, pairs, series_spec, renorm_of, quantile, YEAR_NS

RULE = ('normalized energy series; simple bootstrap judged against the exact distribution of '
        'the bootstrap median, block bootstrap against an independent implementation')
ASSUMPTIONS = ['10000 (simple) and 1000 (block) bootstrap repetitions as implemented; tolerance '
               'bands at better than 1e-8 false-alarm probability']
EPS = 0.03


def median_cdf_bounds(x, at, strict):
    """Bounds on P(bootstrap median <= at) (or < at)."""
    n = len(x)
    k = np.searchsorted(np.sort(x), at, side='left' if strict else 'right')
    p = k / n
    m = n // 2
    if n % 2:
        v = stats.binom.sf(m, n, p)            # at least m+1 of n below
        return v, v
    return stats.binom.sf(m, n, p), stats.binom.sf(m - 1, n, p)


def judge_percentile(ctx, what, value, x, p):
    tol = 1e-9 * max(1.0, np.abs(x).max())
    _, hi = median_cdf_bounds(x, value + tol, False)
    lo, _ = median_cdf_bounds(x, value - tol, True)
    ctx.require(hi >= p - EPS and lo <= p + EPS,
                f'{what} = {value} sits at bootstrap quantile [{lo:.4f}, {hi:.4f}], not {p:.4f}')


@st.composite
def simple_cases(draw):
    s = draw(series_spec(('W', 'MS', 'irr', 'W', 'D')))
    if s['kind'] == 'D':
        s['days'] = min(s['days'], 800)
        s['drop'] = 0.3
    s['noise'] = draw(st.sampled_from([0.01, 0.05, 0.2]))
    return dict(s=s, cl=draw(st.sampled_from([None, 68.2, 95.0, 90.0, 50.0, 20.0])),
                ep=draw(st.sampled_from([None, 95.0, 90.0, 50.0, 75.0, 10.0])),
                method=draw(st.sampled_from([None, 'simple'])))


def check_simple(c, ctx):
    s = build(c['s'])
    if len(s) < 5 or s.index[-1] < s.index[0] + pd.DateOffset(years=2) or not renorm_of(s) > 0:
        return
    kw = {}
    if c['cl'] is not None:
        kw['confidence_level'] = c['cl']
    if c['ep'] is not None:
        kw['exceedance_prob'] = c['ep']
    if c['method']:
        kw['uncertainty_method'] = c['method']
    st_, out = ctx.outcome(rdtools.degradation_year_on_year, s, **kw)
    if st_ == 'err':
        _, cand = pairs(s.index)
        v = s.to_numpy(float)
        ctx.require(not any(np.isfinite(v[i] - v[j]) for i, js in enumerate(cand) for j in js),
                    f'raised {out!r}')
        return
    rd, ci, info = out
    x = info['YoY_values'].to_numpy(float)
    cl = c['cl'] or 68.2
    ep = c['ep'] or 95.0
    ctx.nontrivial(len(np.unique(x)) > 10)
    ctx.label(f'confidence {c["cl"]}', f'exceedance {c["ep"]}')
    ctx.require(len(ci) == 2 and ci[0] <= ci[1], f'interval {ci}')
    judge_percentile(ctx, 'lower confidence bound', ci[0], x, 0.5 - cl / 200)
    judge_percentile(ctx, 'upper confidence bound', ci[1], x, 0.5 + cl / 200)
    judge_percentile(ctx, 'exceedance level', info['exceedance_level'], x, 1 - ep / 100)
    if len(x) == 1:
        ctx.close('single slope', ci, [x[0], x[0]])
    # rate-only call returns a bare number
    r = ctx.call('rate only', rdtools.degradation_year_on_year, s, uncertainty_method='none')
    ctx.require(np.ndim(r) == 0 and abs(r - rd) <= 1e-9 * max(1, abs(rd)),
                f'rate-only call returned {r!r}, expected {rd}')


@st.composite
def block_cases(draw):
    kind = draw(st.sampled_from(['D', 'W', 'W']))
    return dict(kind=kind, days=draw(st.sampled_from([760, 1100])),
                seed=draw(gen.seed32), trend=draw(st.sampled_from([-0.03, -0.005, 0.01])),
                noise=draw(st.sampled_from([0.02, 0.05, 0.0])),
                ar=draw(st.sampled_from([0.0, 0.9, 0.98])), level=draw(st.sampled_from([1.0, 40.0])),
                recenter=draw(st.sampled_from([None, True, False])),
                block=draw(st.sampled_from([None, 1, 7, 20, 30] + ([90, 200] if kind == 'D' else [35]))),
                cl=draw(st.sampled_from([None, 90.0, 50.0])),
                ep=draw(st.sampled_from([None, 80.0])))


def check_block(c, ctx):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    idx = pd.date_range('2013-01-06', periods=c['days'] if c['kind'] == 'D' else c['days'] // 7 + 1,
                        freq='D' if c['kind'] == 'D' else '7D')
    n = len(idx)
    yrs = np.asarray((idx - idx[0]).days) / 365.0
    eps = r.standard_normal(n)
    for i in range(1, n):
        eps[i] = c['ar'] * eps[i - 1] + np.sqrt(1 - c['ar'] ** 2) * eps[i]
    level = 1.0 if c['recenter'] is False else c['level']
    s = pd.Series(level * (1 + c['trend'] * yrs) * (1 + c['noise'] * eps), index=idx)
    kw = {}
    for k, name in (('recenter', 'recenter'), ('block', 'block_length'),
                    ('cl', 'confidence_level'), ('ep', 'exceedance_prob')):
        if c[k] is not None:
            kw[name] = c[k]
    rd, ci, info = ctx.call('circular_block', rdtools.degradation_year_on_year, s,
                            uncertainty_method='circular_block', **kw)
    rate = ctx.call('rate', rdtools.degradation_year_on_year, s, uncertainty_method=None,
                    **({} if c['recenter'] is None else dict(recenter=c['recenter'])))
    ctx.close('rate independent of the uncertainty method', rd, rate, rtol=1e-10)
    rates = np.asarray(info['bootstrap_rates'], float)
    cl, ep = c['cl'] or 68.2, c['ep'] or 95.0
    ctx.require(len(rates) >= 100 and np.isfinite(rates).all(), f'{len(rates)} bootstrap rates')
    ctx.close('confidence interval = percentiles of the bootstrap rates', ci,
              [quantile(list(rates), 0.5 - cl / 200), quantile(list(rates), 0.5 + cl / 200)],
              rtol=1e-9, atol=1e-9)
    ctx.close('exceedance level', info['exceedance_level'], quantile(list(rates), 1 - ep / 100),
              rtol=1e-9, atol=1e-9)
    ren = renorm_of(s) if c['recenter'] is not False else 1.0
    ctx.close('renormalizing_factor', info['renormalizing_factor'], ren, rtol=1e-9)
    ctx.nontrivial(c['noise'] > 0)
    ctx.label(c['kind'], 'autocorrelated' if c['ar'] else 'white', f'block {c["block"]}')
    # independent circular block bootstrap of the same multiplicative model
    e = s.to_numpy() / ren
    days_per = (idx[-1] - idx[0]).days / n
    trend = 1 + rate / 100 / 365.0 * np.arange(n) * days_per
    resid = e / trend
    L = c['block'] or 30
    reps = 4000
    nb = -(-n // L)
    starts = r.integers(0, n, size=(reps, nb))
    pos = ((starts[:, :, None] + np.arange(L)[None, None, :]) % n).reshape(reps, -1)[:, :n]
    sample = trend[None, :] * resid[pos]
    t, cand = pairs(idx)
    i = np.array([k for k, js in enumerate(cand) if js])
    j = np.array([cand[k][-1] for k in i])
    slopes = 100 * (sample[:, i] - sample[:, j]) / ((t[i] - t[j]) / YEAR_NS)[None, :]
    ref = np.median(slopes, axis=1)
    if ref.std() < 1e-8:
        ctx.close('no spread: every bootstrap rate equals the rate', rates,
                  np.full(len(rates), np.median(ref)), rtol=1e-6, atol=1e-6)
        return
    d = stats.ks_2samp(rates, ref).statistic
    lim = np.sqrt(11.0 * (1 / len(rates) + 1 / reps))
    ctx.require(d <= lim, f'bootstrap rates (mean {rates.mean():.4f}, sd {rates.std():.4f}) are '
                f'not distributed like a circular block bootstrap (mean {ref.mean():.4f}, sd '
                f'{ref.std():.4f}); KS distance {d:.3f} > {lim:.3f}')


@st.composite
def reject_cases(draw):
    return dict(n=draw(st.integers(740, 900)), over=draw(st.sampled_from([-1, 0, 1, 50])),
                gap=draw(st.integers(5, 700)), what=draw(st.sampled_from(['gap', 'block'])))


def check_reject(c, ctx):
    idx = pd.date_range('2013-01-01', periods=c['n'], freq='D')
    s = pd.Series(1.0 + 0.01 * np.sin(np.arange(c['n'])), index=idx)
    ctx.nontrivial()
    if c['what'] == 'gap':
        ctx.raises('irregular data', ValueError, rdtools.degradation_year_on_year,
                   s.drop(idx[c['gap']]), uncertainty_method='circular_block')
    elif c['over'] > 0:
        ctx.raises('long block', ValueError, rdtools.degradation_year_on_year, s,
                   uncertainty_method='circular_block', block_length=c['n'] // 3 + c['over'])


FACETS = [
    Facet('simple', simple_cases, check_simple, 480, 6000, 'more than ten distinct slopes'),
    Facet('rejects', reject_cases, check_reject, 120, 600, 'all cases'),
    Facet('block', block_cases, check_block, 32, 400, 'noisy data'),
]
