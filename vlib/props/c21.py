"""C21: soiling intervals of the stochastic rate and recovery analysis."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import soiling
from ..core import Facet
from .. import gen
from ..refs import srr

RULE = ('daily performance with soiling, cleanings, steps, outages, rain and missing days; '
        'intervals, fits and validity recomputed day by day')
ASSUMPTIONS = ["scipy's theilslopes is trusted as the Theil-Sen fit", 'cases with a comparison '
               'decided by under 1e-11 are not judged']


@st.composite
def cases(draw):
    return dict(h=draw(srr.history()), o=draw(srr.OPTIONS), rain=draw(st.booleans()),
                api=draw(st.booleans()))


def check(c, ctx):
    pm, insol, rain = srr.build(c['h'])
    o = dict(c['o'])
    use_rain = c['rain'] or 'precip' in o.get('clean_criterion', '')
    if pm.notna().sum() < 3:
        return
    try:
        ref = srr.intervals(pm, rain if use_rain else None, **srr.ref_args(o))
    except srr.Tie:
        ctx.label('tie')
        return
    ctx.reseed(c['h']['seed'])
    kw = dict(o, reps=5)
    if c['api']:
        args = (pm, insol)
        f = soiling.soiling_srr
        if use_rain:
            kw['precipitation_daily'] = rain
    else:
        args = ()
        f = soiling.SRRAnalysis(pm, insol, rain if use_rain else None).run
    rows = ref['rows']
    if not any(r['valid'] for r in rows):
        ctx.label('no valid interval')
        ctx.raises('no valid interval', soiling.NoValidIntervalError, f, *args, **kw)
        return
    ratio, ci, info = ctx.call('soiling_srr', f, *args, **kw)
    got = info['soiling_interval_summary']
    ctx.require(len(got) == len(rows), f'{len(got)} soiling intervals, expected {len(rows)}')
    nv = sum(r['valid'] for r in rows)
    ctx.nontrivial(nv > 0 and len(rows) > 2)
    ctx.label(o.get('clean_criterion', 'default'))
    if nv < len(rows):
        ctx.label('invalid intervals')
    day = pm.index[ref['first']:]
    ctx.close('renormalizing factor', info['renormalizing_factor'], ref['renorm'], 1e-12)
    for k, (r, (_, g)) in enumerate(zip(rows, got.iterrows())):
        ctx.require(g['start'] == day[r['s']] and g['end'] == day[r['e']],
                    f"interval {k} is {g['start']}..{g['end']}, expected {day[r['s']]}..{day[r['e']]}")
        ctx.require(g['length'] == r['length'], f'length of interval {k}')
        ctx.require(bool(g['valid']) == r['valid'], f"interval {k} valid={g['valid']}, expected "
                    f"{r['valid']}")
        ctx.close(f'soiling rate of interval {k}',
                  [g['soiling_rate'], g['soiling_rate_low'], g['soiling_rate_high']],
                  [r['rate'], r['low'], r['high']], 1e-8, 1e-12)
        ctx.close(f'losses at the ends of interval {k}',
                  [g['inferred_start_loss'], g['inferred_end_loss']], [r['start'], r['end']],
                  1e-8, 1e-10)
    perfect = info['soiling_ratio_perfect_clean']
    want, stamps = [], []
    for r in rows:
        if r['valid']:
            want += [1 + r['rate'] * d for d in range(r['length'] + 1)]
            stamps += list(day[r['s']:r['e'] + 1])
    ctx.same_index('perfect-clean profile', perfect.index, pd.DatetimeIndex(stamps))
    ctx.close('perfect-clean profile', perfect, want, 1e-8, 1e-10)


@st.composite
def unit_cases(draw):
    return dict(h=draw(srr.history()), o=draw(srr.OPTIONS), k=draw(st.sampled_from([1024.0, 0.125])))


def check_units(c, ctx):
    """Recentred analysis does not depend on the unit of performance or insolation."""
    pm, insol, rain = srr.build(c['h'])
    if pm.notna().sum() < 3:
        return
    o = dict(c['o'])
    o.pop('recenter', None)
    out = []
    for k in (1.0, c['k']):
        ctx.reseed(c['h']['seed'])
        out.append(ctx.outcome(soiling.soiling_srr, pm * k, insol * k, reps=5,
                               precipitation_daily=rain, **o))
    (s1, a), (s2, b) = out
    ctx.require(s1 == s2, f'outcome depends on the unit: {a!r:.100} / {b!r:.100}')
    if s1 == 'err':
        ctx.require(isinstance(a, soiling.NoValidIntervalError), f'raised {a!r}')
        ctx.label('no valid interval')
        return
    ctx.nontrivial()
    ctx.close('soiling ratio', b[0], a[0], 1e-9)
    ctx.close('confidence interval', b[1], a[1], 1e-9)
    ctx.close('factor', b[2]['renormalizing_factor'], a[2]['renormalizing_factor'] * c['k'], 1e-9)


@st.composite
def bad(draw):
    return dict(which=draw(st.sampled_from(['pm', 'insol', 'rain'])), freq=draw(st.sampled_from(
        ['2D', 'h', 'W', 'gap'])), n=draw(st.integers(10, 60)),
        crit=draw(st.sampled_from(['rain', 'Shift', '', 'precip_shift'])),
        method=draw(st.sampled_from(['clean', 'half_norm', 'PERFECT_CLEAN', ''])))


def check_bad(c, ctx):
    def s(freq):
        i = pd.date_range('2020-01-01', periods=c['n'], freq='D' if freq == 'gap' else freq)
        x = pd.Series(np.linspace(1, 0.9, c['n']), index=i)
        return x.drop(x.index[c['n'] // 2]) if freq == 'gap' else x
    d = {k: s('D') for k in ('pm', 'insol', 'rain')}
    ctx.nontrivial()
    ctx.raises('clean_criterion', ValueError, soiling.soiling_srr, d['pm'], d['insol'], reps=2,
               clean_criterion=c['crit'])
    ctx.raises('method', ValueError, soiling.soiling_srr, d['pm'], d['insol'], reps=2,
               method=c['method'])
    d[c['which']] = s(c['freq'])
    ctx.raises('frequency', ValueError, soiling.soiling_srr, d['pm'], d['insol'], reps=2,
               precipitation_daily=d['rain'])


FACETS = [
    Facet('intervals', cases, check, 800, 10000, 'more than two intervals, one valid'),
    Facet('units', unit_cases, check_units, 200, 2000, 'a valid interval exists'),
    Facet('rejects', bad, check_bad, 80, 400, 'all cases'),
]
