"""C22: stochastic soiling profiles and the insolation-weighted ratios derived from them."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

from rdtools import soiling
from ..core import Facet
from ..refs import srr

RULE = ('daily performance with soiling, cleanings, steps, outages, rain and missing days; every '
        'profile is decomposed interval by interval, and the pooled random quantities are tested '
        'against their distribution')
ASSUMPTIONS = ['the interval summary is taken as reported (its content is C21)',
               'distribution tests alarm below p=1e-11 only']
METHODS = ['half_norm_clean', 'random_clean', 'perfect_clean']
P_ALARM = 1e-11


@st.composite
def cases(draw, reps=(1, 4, 12), max_len=420):
    h = draw(srr.history(max_len=max_len))
    return dict(h=h, o=draw(srr.OPTIONS), reps=draw(st.sampled_from(list(reps))),
                method=draw(st.sampled_from(METHODS + [None])),
                level=draw(st.sampled_from([68.2, 95.0, 50.0, 99.9])),
                exceed=draw(st.sampled_from([95.0, 90.0, 50.0, 99.0])),
                shift=draw(st.sampled_from([0, 0, 0, -40, 40])), rain=draw(st.booleans()),
                defaults=draw(st.booleans()))


def analyse(c, ctx):
    pm, insol, rain = srr.build(c['h'])
    if c['shift']:
        insol = pd.Series(insol.to_numpy(), name='insol', index=pd.date_range(
            pm.index[0].tz_localize(None) + pd.Timedelta(days=c['shift']), periods=len(pm),
            tz=pm.index.tz))
    kw = dict(c['o'], reps=c['reps'])
    if c['method'] is not None:
        kw['method'] = c['method']
    if c['rain'] or 'precip' in kw.get('clean_criterion', ''):
        kw['precipitation_daily'] = rain
    if not c['defaults']:
        kw.update(confidence_level=c['level'], exceedance_prob=c['exceed'])
    ctx.reseed(c['h']['seed'])
    msgs = []

    def run():
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            out = soiling.soiling_srr(pm, insol, **kw)
        msgs.extend(str(x.message) for x in w)
        return out
    status, out = ctx.outcome(run)
    if status == 'err':
        ctx.require(isinstance(out, soiling.NoValidIntervalError), f'raised {out!r:.200}')
        ctx.label('no valid interval')
        return None
    return pm, insol, out, msgs, kw


def decompose(ctx, profiles, table, days, method, pools):
    """Check each profile against the intervals; collect the standardised random quantities."""
    rows = table.to_dict('records')
    pos = {d: i for i, d in enumerate(days)}
    span = [(pos[r['start']], pos[r['end']]) for r in rows]
    ctx.require(span[0][0] == 0 and all(b[0] == a[1] + 1 for a, b in zip(span, span[1:])),
                'intervals are not contiguous')
    valid = [k for k, r in enumerate(rows) if r['valid']]
    recovery = {}
    for k, nxt in zip(valid, valid[1:]):
        recovery[k] = np.clip(np.clip(rows[nxt]['inferred_start_loss'], 0, 1)
                              - rows[k]['inferred_end_loss'], 0, 1)
    for q, p in enumerate(profiles):
        ctx.same_index('profile', p.index, days)
        v = p.to_numpy(float)
        ctx.require(len(v) == span[-1][1] + 1 and np.isfinite(v).all(),
                    f'profile {q} does not cover every analysed day')
        start, end, us = {}, {}, []
        for k, r in enumerate(rows):
            s, e = span[k]
            start[k], end[k] = v[s], v[e]
            seg = v[s:e + 1]
            if not r['valid']:
                ctx.require(np.abs(seg - seg[0]).max() <= 1e-12,
                            f'profile {q} varies in the invalid interval {k}')
                continue
            slope = (seg[-1] - seg[0]) / (e - s)
            ctx.close(f'profile {q} in interval {k}', seg, seg[0] + slope * np.arange(e - s + 1),
                      1e-10, 1e-12)
            lo, hi = r['soiling_rate_low'], r['soiling_rate_high']
            ctx.require(lo - 1e-12 <= slope <= hi + 1e-12,
                        f'profile {q} soils at {slope} in interval {k}, limits {lo}..{hi}')
            if hi - lo > 1e-7:
                us.append((slope - lo) / (hi - lo))
        pools['rate'] += us
        pools['pairs'] += list(zip(us, us[1:]))
        if us:
            pools['first'].append(us[0])
        if method == 'perfect_clean':
            ctx.close(f'starts of profile {q}', [start[k] for k in range(len(rows))],
                      np.ones(len(rows)), 1e-12)
            continue
        ctx.close(f'start of the first valid interval of profile {q}', start[valid[0]], 1.0, 1e-12)
        for k, nxt in zip(valid, valid[1:]):
            if method == 'random_clean':
                ctx.require(end[k] - 1e-12 <= start[nxt] <= 1 + 1e-12,
                            f'profile {q}: clean to {start[nxt]} from {end[k]}')
                if 1 - end[k] > 1e-7:
                    pools['clean'].append((start[nxt] - end[k]) / (1 - end[k]))
            else:
                sigma = (1 - np.clip(end[k] + recovery[k], 0, 1)) / 3
                ctx.require(start[nxt] <= 1 + 1e-12, f'profile {q} cleaned to {start[nxt]}')
                if sigma > 1e-8:
                    z = (1 - start[nxt]) / sigma
                    pools['clean'].append(2 * stats.norm.cdf(z) - 1)
                    ctx.require(z < 9, f'profile {q}: cleaned {z} sigma below 1')
                elif sigma < 1e-14:
                    ctx.close(f'profile {q}: complete cleaning', start[nxt], 1.0, 1e-9)
        k = 0
        while k < len(rows):
            if rows[k]['valid']:
                k += 1
                continue
            j = k
            while j < len(rows) and not rows[j]['valid']:
                j += 1
            a = end[k - 1] if k else 1.0
            b = start[j] if j < len(rows) else 1.0
            for m in range(k, j):
                ctx.close(f'profile {q}: level of invalid interval {m} of a group', start[m],
                          start[k], 1e-12)
            ctx.require(min(a, b) - 1e-12 <= start[k] <= max(a, b) + 1e-12,
                        f'profile {q}: invalid interval {k} at {start[k]}, neighbours {a}, {b}')
            if abs(b - a) > 1e-7:
                pools['gap'].append((start[k] - a) / (b - a))
            k = j
    return valid, span


def check(c, ctx):
    got = analyse(c, ctx)
    if got is None:
        return
    pm, insol, (ratio, ci, info), msgs, kw = got
    method = kw.get('method', 'half_norm_clean')
    profiles, table = info['stochastic_soiling_profiles'], info['soiling_interval_summary']
    ctx.require(len(profiles) == c['reps'], f"{len(profiles)} profiles for reps={c['reps']}")
    days = pm.index[(pm.index >= table['start'].iloc[0]) & (pm.index <= table['end'].iloc[-1])]
    pools = dict(rate=[], clean=[], gap=[], pairs=[], first=[])
    valid, span = decompose(ctx, profiles, table, days, method, pools)
    ctx.label(method)
    if len(valid) < len(table):
        ctx.label('invalid intervals')
    ctx.nontrivial(len(valid) > 1)
    # results
    w = insol.reindex(days).fillna(0.0).to_numpy()
    if w.sum() > 0:
        losses = [float((p.to_numpy() * w).sum() / w.sum()) for p in profiles]
        lev, exc = kw.get('confidence_level', 68.2), kw.get('exceedance_prob', 95.0)
        want = np.percentile(losses, [50, 50 - lev / 2, 50 + lev / 2, 100 - exc])
        ctx.close('soiling ratio', ratio, want[0], 1e-10)
        ctx.close('confidence interval', ci, want[1:3], 1e-10)
        ctx.close('exceedance level', info['exceedance_level'], want[3], 1e-10)
    share = sum(span[k][1] - span[k][0] + 1 for k in valid) / len(days)
    if share == 0.8:
        ctx.label('exactly one fifth invalid')
    warn = any('invalid soiling' in m for m in msgs)
    ctx.require(warn == (method != 'perfect_clean' and share <= 0.8),
                f'share of valid days {share:.3f}, method {method}: warning {warn}')
    distributions(ctx, pools, method)


def distributions(ctx, pools, method):
    def uniform(what, u):
        if len(u) >= 30:
            p = stats.kstest(u, 'uniform').pvalue
            ctx.require(p > P_ALARM, f'{what} not distributed as specified: {len(u)} draws, '
                        f'KS p={p:.2g}, mean {np.mean(u):.3f}')
    uniform('soiling rates within their limits', pools['rate'])
    uniform(f'{method} cleaning levels', pools['clean'])
    uniform('levels of invalid intervals between their neighbours', pools['gap'])
    for what, pairs in (('successive intervals of a profile', pools['pairs']),
                        ('successive profiles', list(zip(pools['first'], pools['first'][1:])))):
        if len(pairs) >= 60:
            a, b = np.array(pairs).T
            r = stats.spearmanr(a, b).statistic
            ctx.require(abs(r) * np.sqrt(len(a) - 1) < 8, f'rates of {what} are correlated: {r:.3f}')


def many():
    return cases(reps=(150,), max_len=300)


@st.composite
def shares(draw):
    """Clear intervals of which about four fifths of the days are long enough to be valid."""
    short = draw(st.integers(12, 20))
    n = 5 * short + draw(st.sampled_from([0, 0, 0, -5, 5, 1]))
    first = draw(st.integers(30, 40))
    parts = [first, short + draw(st.sampled_from([0, 0, 0, 0, -1, 1]))]
    if draw(st.booleans()):
        parts.reverse()
    seg = [dict(length=x, rate=draw(st.sampled_from([-0.003, -0.004])), clean=1.0, step=0.0, hole=0)
           for x in parts + [n]]
    h = dict(draw(srr.history()), n=n, segs=seg, noise=0.0002, nan=0.0, zero=0.0, edge=0)
    return dict(draw(cases(reps=(1, 2))), h=h, shift=0, rain=False,
                o=dict(min_interval_length=25, day_scale=7, max_relative_slope_error=5000.0, clean_threshold=0.01))


FACETS = [
    Facet('warning', shares, check, 160, 2000, 'at least two valid intervals'),
    Facet('profiles', cases, check, 500, 8000, 'at least two valid intervals'),
    Facet('distribution', many, check, 64, 800, 'at least two valid intervals'),
]
