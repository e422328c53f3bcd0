"""C06: the year-on-year rate and its audit trail."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import rdtools
from ..core import Facet
from .. import gen
from .c16 import quantile

RULE = ('daily/weekly/monthly/irregular normalized energy over 2-5 years with NaNs, missing '
        'rows, zeros and outliers; reference pairs every point with the latest point at least '
        'one calendar year (and at most one year and 8 days) older')
ASSUMPTIONS = ['timestamps unique', 'where 28 and 29 February compete for the same anniversary '
               'either is accepted', 'first year has a positive value to recentre on']

YEAR_NS = 365 * 86400 * 10**9
DAY = 86400 * 10**9


@st.composite
def series_spec(draw, kinds=('D', 'W', 'MS', 'irr', 'irr', 'W', 'D', '14D')):
    kind = draw(st.sampled_from(kinds))
    days = draw(st.sampled_from([735, 760, 800, 1100, 1500, 1826, 2600, 4200]))
    return dict(kind=kind, days=days, start=draw(st.sampled_from(
                    ['2012-01-01', '2014-03-01', '2015-07-14', '2016-02-20', '2011-12-31'])),
                hour=draw(st.sampled_from([0, 0, 12])),
                tz=draw(gen.tz), seed=draw(gen.seed32),
                trend=draw(st.sampled_from([-0.05, -0.01, -0.0025, 0.0, 0.02])),
                level=draw(st.sampled_from([1.0, 0.85, 0.01, 250.0])),
                noise=draw(st.sampled_from([0.0, 0.01, 0.1])),
                season=draw(st.sampled_from([0.0, 0.1])),
                drop=draw(st.sampled_from([0.0, 0.0, 0.05, 0.3])),
                hole=draw(st.one_of(st.none(), st.tuples(st.integers(100, 500),
                                                         st.integers(5, 120)).map(list))),
                edits=draw(st.lists(st.tuples(st.floats(0, 0.999),
                                              st.sampled_from([None, 0.0, 3.0, 0.0005])).map(list),
                                    max_size=8)))


def build(c):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    start = pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour'])
    end = start + pd.Timedelta(days=c['days'])
    if c['kind'] == 'irr':
        offs = np.cumsum(r.integers(1, 6, size=c['days']))
        offs = np.concatenate([[0], offs[offs <= c['days']]])
        idx = pd.DatetimeIndex([start + pd.Timedelta(days=int(o)) for o in offs])
    elif c['kind'] == 'MS':
        idx = pd.date_range(start.replace(day=1), end, freq='MS')
    else:
        idx = pd.date_range(start, end, freq={'D': 'D', 'W': '7D', '14D': '14D'}[c['kind']])
    yrs = np.asarray((idx - idx[0]).days) / 365.0
    v = c['level'] * ((1 + c['trend'] * yrs) * (1 + c['season'] * np.sin(2 * np.pi * yrs))
                      + c['noise'] * r.standard_normal(len(idx)))
    keep = r.random(len(idx)) >= c['drop']
    keep[0] = keep[-1] = True
    if c['hole']:
        d = np.asarray((idx - idx[0]).days)
        h = (d >= c['hole'][0]) & (d < c['hole'][0] + c['hole'][1])
        h[0] = h[-1] = False
        keep &= ~h
    idx, v = idx[keep], v[keep]
    for pos, val in c['edits']:
        k = int(pos * len(v))
        v[k] = np.nan if val is None else val * c['level']
    if c['tz'] is not None:
        idx = idx.tz_localize(c['tz'], ambiguous=True, nonexistent='shift_forward')
    return pd.Series(v, index=idx, name='nrg')


def pairs(idx):
    """For each point: list of admissible positions of its year-earlier partner."""
    t = gen.ns(idx)
    plus = gen.ns(idx + pd.DateOffset(years=1))
    order = np.argsort(plus, kind='stable')
    sp = plus[order]
    out = []
    for ti in t:
        j = np.searchsorted(sp, ti, side='right') - 1
        if j < 0 or ti - sp[j] > 8 * DAY:
            out.append([])
            continue
        lo = np.searchsorted(sp, sp[j], side='left')
        out.append([int(order[k]) for k in range(lo, j + 1)])
    return t, out


def renorm_of(s):
    t0 = s.index[0]
    first = s[s.index <= t0 + pd.Timedelta(days=364)].to_numpy(float)
    small = quantile([0.0 if np.isnan(a) else a for a in first], 0.99) / 1000
    kept = [a for a in first if not np.isnan(a) and a > small]
    return quantile(kept, 0.5)


def step_of(s):
    return pd.Timedelta(int(np.median(np.diff(gen.ns(s.index)))), 'ns')


def check(c, ctx):
    s = build(c['s'])
    if len(s) < 5 or s.index[-1] < s.index[0] + pd.DateOffset(years=2):
        ctx.label('short')
        return
    recenter = c['recenter']
    ren = renorm_of(s) if recenter in (None, True) else 1.0
    if not ren > 0:
        return
    t, cand = pairs(s.index)
    e = s.to_numpy(float) / ren
    want, n_ok = [], 0
    for i, js in enumerate(cand):
        opts = [100.0 * (e[i] - e[j]) / ((t[i] - t[j]) / YEAR_NS) for j in js]
        want.append(opts)
    ties = any(len(set(js)) > 1 for js in cand)
    finite = [o for o in want if any(np.isfinite(x) for x in o)]
    src = s
    if c['shuffle']:
        p = np.random.Generator(np.random.PCG64(c['s']['seed'])).permutation(len(s))
        src = s.iloc[p]
        ctx.label('unordered input')
    kw = {} if recenter is None else dict(recenter=recenter)
    if not finite:
        ctx.label('no pairs')
        ctx.raises('no pairs', ValueError, rdtools.degradation_year_on_year, src, **kw)
        return
    rate_only = ctx.call('yoy(None)', rdtools.degradation_year_on_year, src,
                         uncertainty_method=None, **kw)
    scale = max(1.0, np.nanmax(np.abs(e)))
    if not ties:
        ref = quantile([o[0] for o in want if o and np.isfinite(o[0])], 0.5)
        ctx.close('rate without uncertainty', rate_only, ref, rtol=1e-8, atol=1e-8 * scale)
    elif not any(0 < sum(np.isfinite(o)) < len(o) for o in want):
        lo = quantile([min(o) for o in want if o and np.isfinite(o).all()], 0.5)
        hi = quantile([max(o) for o in want if o and np.isfinite(o).all()], 0.5)
        tol = 1e-8 * (scale + abs(lo))
        ctx.require(lo - tol <= rate_only <= hi + tol,
                    f'rate {rate_only} outside of [{lo}, {hi}] (leap-day alternatives)')
    ctx.label(c['s']['kind'], 'tz' if c['s']['tz'] else 'naive')
    ctx.nontrivial(len(finite) > 2)
    if c['s']['kind'] == 'D' and not c['full']:
        return
    rd, ci, info = ctx.call('yoy', rdtools.degradation_year_on_year, src, **kw)
    ctx.label('audit trail')
    yoy = info['YoY_values']
    ctx.close('rate = median of the reported slopes', rd, quantile(list(yoy), 0.5), rtol=1e-9,
              atol=1e-9 * scale)
    ctx.close('rate independent of the uncertainty method', rd, rate_only, rtol=1e-12)
    ctx.close('renormalizing_factor', info['renormalizing_factor'], ren, rtol=1e-10)
    got = dict(zip(gen.ns(yoy.index), yoy.to_numpy(float)))
    ctx.require(len(got) == len(yoy), 'duplicate labels in YoY_values')
    for i, opts in enumerate(want):
        fin = [x for x in opts if np.isfinite(x)]
        g = got.pop(t[i], None)
        if g is None:
            ctx.require(len(fin) < max(1, len(opts)),
                        f'slope ending at {s.index[i]} missing (expected {opts})')
        else:
            ctx.require(any(abs(g - x) <= 1e-8 * max(scale, abs(x)) for x in fin),
                        f'slope ending at {s.index[i]} is {g}, expected {opts}')
    ctx.require(not got, f'slopes at times that are not in the data: {list(got)[:3]}')
    use = np.zeros(len(s), int)
    started, unclear = set(), np.zeros(len(s), bool)
    for i, js in enumerate(cand):
        if len(js) > 1:
            unclear[js] = True
            unclear[i] |= len({bool(np.isfinite(x)) for x in want[i]}) > 1
        if js and np.isfinite(want[i][0]):
            use[i] += 1
            started.add(js[0])
    for j in started:
        use[j] += 1
    u = info['usage_of_points'].dropna()
    ctx.same_index('usage_of_points', u.index, s.index)
    ctx.close('usage_of_points', u.to_numpy(float)[~unclear], use[~unclear])


@st.composite
def cases(draw):
    return dict(s=draw(series_spec()), recenter=draw(st.sampled_from([None, True, False])),
                shuffle=draw(st.sampled_from([False, False, True])),
                full=draw(st.sampled_from([False, False, False, True])))


@st.composite
def scale_cases(draw):
    return dict(s=draw(series_spec(('D', 'W', 'irr'))),
                k=draw(st.sampled_from([0.001, 0.5, 7.3, 1000.0])),
                shift=draw(st.sampled_from([1, 4, 400])))


def check_scale(c, ctx):
    """Recentred rate ignores units; a pure linear decline is recovered exactly."""
    s = build(c['s']).dropna()
    if len(s) < 5 or s.index[-1] < s.index[0] + pd.DateOffset(years=2) or not renorm_of(s) > 0:
        return
    st_, a = ctx.outcome(rdtools.degradation_year_on_year, s, uncertainty_method=None)
    if st_ == 'err':
        return
    b = ctx.call('scaled', rdtools.degradation_year_on_year, s * c['k'], uncertainty_method=None)
    ctx.nontrivial()
    ctx.close('recentred rate under a change of units', b, a, rtol=1e-7, atol=1e-8)
    lin = pd.Series(1 + c['s']['trend'] * np.asarray(
        (s.index - s.index[0]) / pd.Timedelta('365d')), index=s.index)
    r = ctx.call('linear', rdtools.degradation_year_on_year, lin, recenter=False,
                 uncertainty_method=None)
    ctx.close('rate of a linear decline', r, 100 * c['s']['trend'], rtol=1e-7, atol=1e-8)


@st.composite
def short_cases(draw):
    return dict(start=draw(st.sampled_from(['2014-01-01', '2015-03-01', '2016-02-29',
                                            '2013-07-07', '2014-03-01'])),
                delta=draw(st.integers(-5, 4) | st.integers(-40, 0)), tz=draw(gen.fixed_tz), seed=draw(gen.seed32),
                step=draw(st.sampled_from([1, 1, 7])), gap=draw(st.sampled_from([0, 0, 1, 20, 60])),
                method=draw(st.sampled_from([None, 'simple'])))


def check_short(c, ctx):
    """Exactly two years are accepted, less is not, also if stamps in between are missing."""
    start = pd.Timestamp(c['start'])
    step = c.get('step', 1)
    end = start + pd.DateOffset(years=2)
    idx = pd.date_range(start, end + pd.Timedelta(days=step * (c['delta'] + 2)), freq=f'{step}D')
    idx = idx[idx <= end + pd.Timedelta(days=step * c['delta'] - 1)] if step == 1 else \
        idx[:int(np.ceil((end - start).days / step)) + c['delta']]
    enough = idx[-1] >= end - pd.Timedelta(days=step)
    if c.get('gap'):
        r = np.random.Generator(np.random.PCG64(c['seed']))
        at = r.integers(1, len(idx) - 1 - min(c['gap'], len(idx) // 3))
        idx = idx.delete(np.arange(at, at + min(c['gap'], len(idx) // 3)))
    idx = idx.tz_localize(c['tz'])
    s = pd.Series(1.0 - 0.001 * np.arange(len(idx)), index=idx)
    ctx.nontrivial()
    if not enough:
        ctx.label('too short')
        ctx.raises('less than two years', ValueError, rdtools.degradation_year_on_year, s,
                   uncertainty_method=None)
    else:
        ctx.label('enough')
        ctx.call('two years', rdtools.degradation_year_on_year, s, uncertainty_method=None)


FACETS = [
    Facet('pairs', cases, check, 640, 8000, 'more than two year-apart pairs exist'),
    Facet('units_and_linear', scale_cases, check_scale, 240, 3000, 'a rate exists'),
    Facet('two_years', short_cases, check_short, 240, 2000, 'all cases'),
]
