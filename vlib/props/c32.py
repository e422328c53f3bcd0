"""C32: data-quality warnings come exactly when their condition holds."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import TrendAnalysis, filtering, normalization, soiling
from rdtools.clearsky_temperature import get_clearsky_tamb
from ..core import Facet
from .. import gen
from ..refs import chain, chainrun, srr
from . import c22

RULE = ('inputs on both sides of every documented condition (share of equal sampling steps, naive or aware '
        'stamps, excluded share of an interpolation, missing coefficient, given model power, even smoothing '
        'window, irregular times), and the warnings that come with them')
ASSUMPTIONS = ['warnings are recognised by the words that name their subject',
               'cases that sit on a limit up to rounding are not judged']


def recorded(fn, *a, **k):
    """Warnings of a call that may fail for reasons that do not matter here."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            fn(*a, **k)
            ok = True
        except Exception:
            ok = False
    return ok, [str(x.message) for x in w]


def exactly(ctx, what, msgs, words, expect):
    have = any(words in m for m in msgs)
    ctx.label(f'{what}: {"warned" if expect else "quiet"}')
    ctx.require(have == bool(expect), f'{what}: the warning is {"missing" if expect else "out of place"}; '
                f'warnings: {[m[:60] for m in msgs]}')


@st.composite
def clip_cases(draw):
    n = draw(st.integers(100, 400))
    k = int(n * draw(st.sampled_from([0.0, 0.01, 0.03, 0.045, 0.055, 0.08, 0.3]))) + draw(st.integers(0, 2))
    return dict(n=n, k=k, step=draw(st.sampled_from([5, 15, 30, 60])), tz=draw(gen.tz), seed=draw(gen.seed32),
                late=draw(st.booleans()), model=draw(st.sampled_from(['logic', 'logic', 'xgboost', 'wrapper'])))


def check_clip(c, ctx):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n, k = c['n'], c['k']
    idx = gen.regular_index('2019-05-01 00:00', c['step'], n, c['tz'])
    # every removed stamp makes one other step
    spots = 2 * r.choice(n // 2 - 2, min(k, n // 2 - 2), replace=False) + 1
    if c['late']:
        spots = np.arange(n - 2, n - 2 - 2 * k, -2)
        spots = spots[spots > 1]
    idx = idx.delete(spots)
    h = (np.arange(n) * c['step'] / 60.0) % 24
    v = np.delete(np.minimum(np.clip(np.sin((h - 6) / 12 * np.pi), 0, None), 0.8), spots) * 1000
    s = pd.Series(v + r.random(len(v)), index=idx)
    steps = np.diff(gen.ns(idx))
    top = np.unique(steps, return_counts=True)[1].max()
    fn = {'logic': filtering.logic_clip_filter, 'xgboost': filtering.xgboost_clip_filter,
          'wrapper': lambda x: filtering.clip_filter(x, 'logic')}[c['model']]
    ok, msgs = recorded(fn, s)
    if not ok:
        ctx.label('refused')
        return
    low, high = top / len(s), top / (len(s) - 1)
    ctx.nontrivial()
    exactly(ctx, 'time zone', msgs, 'local time', c['tz'] is None)
    if (low < 0.95) == (high < 0.95) and min(abs(low - 0.95), abs(high - 0.95)) > 1e-9:
        exactly(ctx, 'sampling', msgs, 'ampling frequency', low < 0.95)


@st.composite
def gap_cases(draw):
    n = draw(st.integers(20, 200))
    return dict(n=n, gaps=draw(st.integers(0, n // 3)), size=draw(st.sampled_from([2, 3, 5])), tz=draw(gen.tz),
                limit=draw(st.sampled_from([None, 1, 2, 4])), thr=draw(st.sampled_from([None, 0.02, 0.1, 0.3])),
                frame=draw(st.booleans()), seed=draw(gen.seed32))


def check_gaps(c, ctx):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n = c['n']
    steps = np.ones(n, int)
    steps[r.choice(n, c['gaps'], replace=False)] = c['size']
    idx = gen.index_from_minutes('2020-02-02', 10 * np.concatenate([[0], np.cumsum(steps)]), c['tz'])
    s = pd.Series(r.random(n + 1), index=idx)
    kw = {}
    if c['limit']:
        kw['max_timedelta'] = pd.Timedelta(minutes=10 * c['limit'])
    if c['thr'] is not None:
        kw['warning_threshold'] = c['thr']
    obj = pd.DataFrame(dict(a=r.random(n + 1), b=s)) if c['frame'] else s
    if c['frame'] and len(idx) > 3:
        # only the second column has a gap more
        obj.iloc[1, 1] = np.nan
        steps = np.diff(np.delete(np.concatenate([[0], np.cumsum(steps)]), 1))
    target = idx[::3]
    _, msgs = ctx.warned(normalization.interpolate, obj, target, **kw)
    thr = 0.1 if c['thr'] is None else c['thr']
    over = []
    cols = [steps] if not c['frame'] else [steps, np.diff(gen.ns(idx)) // (600 * 10 ** 9)]
    for x in cols:
        long = (x > (c['limit'] or 2 * np.median(x))).sum()
        over.append((long / (len(x) + 1), long / max(1, len(x))))
    ctx.nontrivial()
    if any((a > thr) != (b > thr) or min(abs(a - thr), abs(b - thr)) < 1e-9 for a, b in over):
        return
    exactly(ctx, 'excluded share', msgs, 'xcluded', any(a > thr for a, _ in over))


@st.composite
def chain_cases(draw):
    return dict(seed=draw(st.integers(0, 99)), gamma=draw(st.booleans()), expected=draw(st.booleans()),
                case=draw(st.sampled_from(['sensor', 'clearsky'])), days=draw(st.integers(8, 14)),
                adhoc=draw(st.sampled_from([None, 'full', 'short', 'nan', 'both'])),
                adhoc_agg=draw(st.sampled_from([None, 'full', 'short', 'nan', 'both'])),
                at=draw(st.integers(0, 10 ** 6)))


def adhoc(kind, index, at):
    """A keep mask that is complete, lacks one stamp, has one missing value, or both."""
    s = pd.Series(True, index=index, dtype=object)
    if kind in ('nan', 'both'):
        s.iloc[at % len(s)] = np.nan
    if kind in ('short', 'both'):
        s = s.drop(s.index[(at + 1) % len(s)])
    return s if s.isnull().any() else s.astype(bool)


def check_chain(c, ctx):
    d = chain.build(dict(days=c['days'], step=60, seed=c['seed'], tz='UTC', start='2015-01-01', rate=0.0, cloud=0.3,
                         nan=0.0, drop=0.0, clip=False, scale=1.0, gamma=-0.004))
    kw = dict(poa_global=d['poa'], temperature_cell=d['tcell'])
    if c['gamma']:
        kw['gamma_pdc'] = -0.004
    if c['expected']:
        kw['power_expected'] = d['expected']

    def make():
        ta = TrendAnalysis(d['pv'], **kw)
        ta.set_clearsky(pvlib_location=chain.LOC, pv_tilt=20, pv_azimuth=180, poa_global_clearsky=d['clear'],
                        temperature_cell_clearsky=d['tcell_cs'])
        chainrun.quiet(setattr, ta, 'filter_params', {'normalized_filter': {},
                                                      'clearsky_filter': dict(model='csi', threshold=2.0)})
        chainrun.quiet(setattr, ta, 'filter_params_aggregated', {})
        return ta
    plain = ctx.call('analysis object', make)
    ctx.call('analysis', chainrun.run, plain, c['case'], analyses=[])
    ta = make()
    comp = getattr(plain, f"{c['case']}_filter_components").index
    bins = getattr(plain, f"{c['case']}_filter_components_aggregated").index
    if c['adhoc']:
        ta.filter_params['ad_hoc_filter'] = adhoc(c['adhoc'], comp, c['at'])
    if c['adhoc_agg'] and not c['adhoc']:
        ta.filter_params_aggregated['ad_hoc_filter'] = adhoc(c['adhoc_agg'], bins, c['at'])
    msgs = ctx.call('analysis', chainrun.run, ta, c['case'], analyses=[])
    ctx.nontrivial()
    exactly(ctx, 'temperature coefficient', msgs, 'emperature coefficient', not c['gamma'] and not c['expected'])
    exactly(ctx, 'given model', msgs, 'power_expected', c['expected'] and c['case'] == 'clearsky')
    a, b = c['adhoc'], None if c['adhoc'] else c['adhoc_agg']
    agg = [m for m in msgs if m.lower().startswith('aggregated')]
    fine = [m for m in msgs if m not in agg]
    exactly(ctx, 'missing values', fine, 'ad_hoc_filter contains NaN', a in ('nan', 'both'))
    exactly(ctx, 'missing stamps', fine, 'ad_hoc_filter index', a in ('short', 'both'))
    exactly(ctx, 'missing values of the aggregate', agg, 'ad_hoc_filter contains NaN', b in ('nan', 'both'))
    exactly(ctx, 'missing stamps of the aggregate', agg, 'ad_hoc_filter index', b in ('short', 'both'))


@st.composite
def srr_cases(draw):
    return dict(h=draw(srr.history(max_len=200)), scale=draw(st.sampled_from([None, 13, 7, 14, 6, 10, 5])),
                how=draw(st.sampled_from([None, 'shift', 'precip_and_shift', 'precip_or_shift', 'precip'])))


def check_srr(c, ctx):
    pm, insol, rain = srr.build(c['h'])
    kw = dict(reps=1, precipitation_daily=rain)
    if c['scale']:
        kw['day_scale'] = c['scale']
    if c['how']:
        kw['clean_criterion'] = c['how']
    ok, msgs = recorded(soiling.soiling_srr, pm, insol, **kw)
    if not ok:
        ctx.label('refused')
        return
    ctx.nontrivial()
    exactly(ctx, 'even window', msgs, 'day_scale', (c['scale'] or 13) % 2 == 0 and c['how'] != 'precip')


@st.composite
def time_cases(draw):
    return dict(n=draw(st.integers(15, 80)), step=draw(st.sampled_from([15, 60, 360])), freqd=draw(st.booleans()),
                drop=draw(st.lists(st.integers(10, 78), max_size=2)),
                place=draw(st.sampled_from([(40.0, -105.0), (-33.0, 150.0), (58.0, -122.0), (73.0, -22.0)])),
                start=draw(st.sampled_from(['2018-03-03 05:00', '2018-07-20 00:00', '2018-12-24 13:00'])),
                tz=draw(st.sampled_from(['UTC', 'Etc/GMT+7', 'Asia/Kathmandu'])))


def check_times(c, ctx):
    times = gen.regular_index(c['start'], c['step'], c['n'], c['tz'])
    if not c['freqd']:
        times = times.delete([i for i in set(c['drop']) if i < c['n'] - 1])
        times = pd.DatetimeIndex(list(times))
    out, msgs = ctx.warned(get_clearsky_tamb, times, *c['place'])
    ctx.nontrivial()
    exactly(ctx, 'irregular times', msgs, 'requency', len(set(np.diff(gen.ns(times)))) > 1)
    exactly(ctx, 'place', msgs, 'Lat/Lon', out.isna().any())


@st.composite
def profile_cases(draw):
    return dict(n=draw(st.integers(5, 800)), shift=draw(st.sampled_from([0, 0, 1, -1, 30, -30])), tz=draw(gen.tz),
                hole=draw(st.sampled_from([None, None, 0, -1, 3])), nans=draw(st.booleans()),
                profiles=draw(st.integers(1, 4)), more=draw(st.integers(0, 3)))


def check_profiles(c, ctx):
    days = pd.date_range('2017-11-01', periods=c['n'], freq='D', tz=c['tz'])
    insol = pd.Series(np.linspace(1, 2, c['n'] + c['more']), index=pd.date_range(
        '2017-11-01', periods=c['n'] + c['more'], freq='D', tz=c['tz']) + c['shift'] * pd.Timedelta(days=1))
    if c['hole'] is not None:
        insol = insol.drop(insol.index[c['hole']])
    if c['nans']:
        insol.iloc[len(insol) // 2] = np.nan      # a missing value is not a missing day
    profiles = [pd.Series(np.full(c['n'], 0.9 + 0.01 * i), index=days) for i in range(c['profiles'])]
    _, msgs = ctx.warned(soiling.annual_soiling_ratios, profiles, insol)
    ctx.nontrivial()
    exactly(ctx, 'days without insolation', msgs, 'not entirely contained',
            not set(gen.ns(days)) <= set(gen.ns(insol.index)))


def check_share(c, ctx):
    got = c22.analyse(c, ctx)
    if got is None:
        return
    pm, _, (_, _, info), msgs, kw = got
    method = kw.get('method', 'half_norm_clean')
    t = info['soiling_interval_summary']
    days = pm.index[(pm.index >= t['start'].iloc[0]) & (pm.index <= t['end'].iloc[-1])]
    good = sum(((days >= r['start']) & (days <= r['end'])).sum() for _, r in t.iterrows() if r['valid'])
    ctx.nontrivial()
    ctx.label(method)
    exactly(ctx, 'invalid share', msgs, 'invalid soiling', method != 'perfect_clean' and good / len(days) <= 0.8)


FACETS = [
    Facet('profiles', profile_cases, check_profiles, 200, 3000, 'all cases'),
    Facet('invalid', c22.shares, check_share, 120, 2000, 'there is a valid interval'),
    Facet('clipping', clip_cases, check_clip, 240, 3000, 'the filter answers'),
    Facet('interpolation', gap_cases, check_gaps, 600, 8000, 'all cases'),
    Facet('analysis', chain_cases, check_chain, 200, 3000, 'all cases'),
    Facet('soiling', srr_cases, check_srr, 120, 2000, 'there is a valid interval'),
    Facet('temperature', time_cases, check_times, 120, 1500, 'all cases'),
]
