"""C23: annual soiling ratios and monthly soiling rates."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import soiling
from ..core import Facet
from .. import gen

RULE = ('sets of profiles with missing days over several years against insolation of other extent; '
        'interval tables with mixed validity, length and precision')
ASSUMPTIONS = ['np.percentile / np.quantile with linear interpolation is the meaning of a quantile',
               'the monthly Monte Carlo quantiles may differ from those of the exact mixture by 6.5 '
               'standard errors in probability']


@st.composite
def annual(draw):
    return dict(start=draw(st.sampled_from(['2014-11-20', '2015-01-01', '2016-12-31', '2015-06-01'])),
                n=draw(st.integers(1, 900)), k=draw(st.integers(1, 12)), seed=draw(gen.seed32),
                tz=draw(gen.tz), nan=draw(st.sampled_from([0.0, 0.0, 0.01, 0.05])),
                inan=draw(st.sampled_from([0.0, 0.0, 0.03])),
                before=draw(st.integers(-30, 60)), after=draw(st.integers(-30, 60)),
                ragged=draw(st.booleans()), zero=draw(st.sampled_from([0.0, 0.0, 0.3])),
                level=draw(st.sampled_from([None, 68.2, 95.0, 50.0, 0.0, 100.0])))


def check_annual(c, ctx):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    idx = pd.date_range(c['start'], periods=c['n'], tz=c['tz'])
    profiles = []
    for q in range(c['k']):
        s = pd.Series(1 - 0.2 * r.random(c['n']), index=idx, name='stochastic_soiling_profile')
        s[r.random(c['n']) < c['nan']] = np.nan
        if c['ragged'] and c['n'] > 6:
            s = s.iloc[r.integers(0, 3):c['n'] - r.integers(0, 3)]
        profiles.append(s)
    first = idx[0].tz_localize(None) - pd.Timedelta(days=c['before'])
    m = c['n'] + c['before'] + c['after']
    if m < 1:
        m = 1
    iidx = pd.date_range(first, periods=m, tz=c['tz'])
    w = pd.Series(r.uniform(100, 8000, m), index=iidx)
    w[r.random(m) < c['inan']] = np.nan
    w[r.random(m) < c['zero']] = 0.0
    kw = {} if c['level'] is None else dict(confidence_level=c['level'])
    # days on which every profile has a value
    days = [d for d in idx if all(d in p.index and not np.isnan(p[d]) for p in profiles)] \
        if c['nan'] or c['ragged'] else list(idx)
    if not days:
        return
    got, msgs = ctx.warned(soiling.annual_soiling_ratios, profiles, w, **kw)
    missing = any(d not in iidx for d in days)
    ctx.require(any('not entirely' in x for x in msgs) == missing,
                f'days without insolation {missing}, warnings {msgs}')
    wt = w.reindex(pd.DatetimeIndex(days)).fillna(0.0).to_numpy()
    year = np.array([d.year for d in days])
    lev = 68.2 if c['level'] is None else c['level']
    vals = np.array([p.reindex(pd.DatetimeIndex(days)).to_numpy() for p in profiles])
    years = sorted(set(year))
    ctx.require(list(got['year']) == years, f"years {list(got['year'])}, expected {years}")
    ctx.nontrivial(len(years) > 1 and c['k'] > 1)
    if missing:
        ctx.label('insolation missing')
    for _, row in got.iterrows():
        m = year == row['year']
        g = [row['soiling_ratio_median'], row['soiling_ratio_low'], row['soiling_ratio_high']]
        if wt[m].sum() == 0:
            ctx.require(np.isnan(g).all(), f'{row["year"]} has no insolation but ratio {g}')
            continue
        per = (vals[:, m] * wt[m]).sum(axis=1) / wt[m].sum()
        ctx.close(f'ratios of {row["year"]}', g,
                  np.percentile(per, [50, 50 - lev / 2, 50 + lev / 2]), 1e-10)


@st.composite
def monthly(draw):
    q = 2.0 ** -10          # rates whose relative error is exactly the limit
    exact = st.sampled_from([(-q, q / 4, q / 4), (-q, q / 2, q / 2), (-2 * q, q, q), (-q, 4 * q, q), (-q, 0.0, q)])
    loose = st.tuples(st.sampled_from([-0.001, -0.002, -0.0004, 0.0, -0.0001]),
                      st.sampled_from([0.0, 0.0005, 0.002, 0.01]), st.sampled_from([0.0, 0.0003, 0.001]))
    row = st.fixed_dictionaries(dict(
        gap=st.sampled_from([1, 1, 1, 5]),
        days=st.one_of(st.integers(14, 150), st.integers(0, 40), st.sampled_from([14, 30, 200, 480, 800])),
        rates=st.one_of(loose, loose, exact),
        valid=st.sampled_from([True, True, True, False])))
    return dict(rows=draw(st.lists(row, min_size=1, max_size=14) | st.lists(row, min_size=6, max_size=14)), seed=draw(gen.seed32),
                start=draw(st.sampled_from(['2015-01-01', '2016-02-20', '2018-11-15'])),
                tz=draw(gen.tz), min_len=draw(st.sampled_from([None, 7, 14, 30, 31])),
                err=draw(st.sampled_from([None, 50.0, 500.0, 100.0])),
                reps=draw(st.sampled_from([5, 400, 2000, 5000, None])),
                level=draw(st.sampled_from([None, 68.2, 95.0, 50.0])))


def table(c):
    day = pd.Timestamp(c['start'])
    out = []
    for r in c['rows']:
        r = dict(zip(('rate', 'low', 'high'), r['rates']), **r)
        start = day
        end = start + pd.Timedelta(days=r['days'])
        day = end + pd.Timedelta(days=r['gap'])
        loc = (lambda t: t.tz_localize(c['tz'])) if c['tz'] else (lambda t: t)
        out.append(dict(start=loc(start), end=loc(end), soiling_rate=r['rate'],
                        soiling_rate_low=r['rate'] - r['low'],
                        soiling_rate_high=min(0.0, r['rate'] + r['high']), length=r['days'],
                        valid=r['valid']))
    return pd.DataFrame(out)


def check_monthly(c, ctx):
    t = table(c)
    kw = {}
    for name, key in (('min_interval_length', 'min_len'), ('max_relative_slope_error', 'err'),
                      ('reps', 'reps'), ('confidence_level', 'level')):
        if c[key] is not None:
            kw[name] = c[key]
    reps = c['reps'] or 100000
    lev = (c['level'] or 68.2) / 100
    ctx.reseed(c['seed'])
    got = ctx.call('monthly_soiling_rates', soiling.monthly_soiling_rates, t, **kw)
    ctx.require(list(got['month']) == list(range(1, 13)), 'months')
    used = []
    for r in t.to_dict('records'):
        lo, hi, rate = r['soiling_rate_low'], r['soiling_rate_high'], r['soiling_rate']
        if rate == 0:
            # 0/0 or x/0: no finite relative error
            continue
        err = 100 * (hi - lo) / abs(rate)
        lim = c['err'] or 500.0
        if abs(err - lim) < 1e-9 * lim and err != lim:
            return
        if r['valid'] and r['length'] >= (c['min_len'] or 14) and err <= lim:
            used.append(r)
    filled = 0
    for _, row in got.iterrows():
        month = int(row['month'])
        over = []
        for r in used:
            d, stop = r['start'].tz_localize(None), r['end'].tz_localize(None)
            n = 0
            while d <= stop:
                n += d.month == month
                d += pd.Timedelta(days=1)
            if n:
                over.append((n, r['soiling_rate_low'], r['soiling_rate_high']))
        ctx.require(row['interval_count'] == len(over), f"month {month}: {row['interval_count']} "
                    f'intervals, expected {len(over)}')
        g = [row['soiling_rate_median'], row['soiling_rate_low'], row['soiling_rate_high']]
        if not over:
            ctx.require(np.isnan(g).all(), f'month {month} has no interval but rates {g}')
            continue
        filled += len(over) > 1
        w = np.array([o[0] for o in over], float)
        # every interval gets at least its share of reps, rounded up
        k = np.ceil(w / w.sum() * reps - 1e-9)
        k2 = np.ceil(w / w.sum() * reps + 1e-9)
        ctx.require(min(o[1] for o in over) - 1e-15 <= g[1] <= g[0] <= g[2]
                    <= max(o[2] for o in over) + 1e-15, f'month {month}: rates {g} out of order')
        n = k.sum()
        slack = (k2 - k).sum() / n
        for q, x in zip((0.5, 0.5 - lev / 2, 0.5 + lev / 2), g):
            below = sum(ki * frac(x, lo, hi, 0) for ki, (_, lo, hi) in zip(k, over)) / n
            upto = sum(ki * frac(x, lo, hi, 1) for ki, (_, lo, hi) in zip(k, over)) / n
            tol = 6.5 * np.sqrt(max(q * (1 - q), 4.0 / n) / n) + 2.0 / n + slack
            ctx.require(below - tol <= q <= upto + tol, f'month {month}: reported {q:.3f} quantile '
                        f'{x:.3g} has probability {below:.4f}..{upto:.4f} (n={n:.0f})')
    ctx.nontrivial(filled > 1)


def frac(x, lo, hi, closed):
    """P(U < x) (or <= x) for U uniform between lo and hi."""
    if hi - lo < 1e-15:
        return float(x > lo + 1e-15) if not closed else float(x >= lo - 1e-15)
    return min(1.0, max(0.0, (x - lo) / (hi - lo)))


FACETS = [
    Facet('annual', annual, check_annual, 800, 15000, 'several years and profiles'),
    Facet('monthly', monthly, check_monthly, 600, 12000, 'a month covered by two intervals'),
]
