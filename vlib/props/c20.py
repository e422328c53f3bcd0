"""C20: availability roll-up and independence of units and clock."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools.availability import AvailabilityAnalysis
from ..core import Facet
from .. import gen
from ..refs import avail

RULE = ('plants as in C18/C19; the roll-up is recomputed by calendar bins from the loss and '
        'corrected cumulative time series; units changed by an exact factor, zone of the index changed')
ASSUMPTIONS = ['bins are calendar days, weeks, months or fixed hours of the index clock']
FREQS = ['ME', 'D', 'W', 'MS', '6h', 'h', '2D']


@st.composite
def cases(draw):
    return dict(p=draw(avail.plant()), freq=draw(st.sampled_from([None] + FREQS)),
                tz2=draw(gen.tz), k=draw(st.sampled_from([1024.0, 0.125])))


def bin_of(ts, freq, first):
    w = ts.tz_localize(None) if ts.tzinfo is not None else ts
    d = w.normalize()
    if freq in (None, 'ME'):
        return (w.year, w.month)
    if freq == 'MS':
        return (w.year, w.month)
    if freq == 'W':
        return (d + pd.Timedelta(days=(6 - d.dayofweek))).value
    if freq == 'D':
        return d.value
    if freq == '2D':
        return (d - first.normalize()).days // 2
    n = int(freq[:-1] or 1)
    return (w - first.normalize()) // pd.Timedelta(hours=n)


def run(p, freq, ctx, k=1.0, tz='same', **kw):
    meter, sub, cum, exp = (x * k for x in avail.build(p))
    if tz != 'same' and meter.index.tz is not None and tz is not None:
        meter, sub, cum, exp = (x.tz_convert(tz) for x in (meter, sub, cum, exp))
    a = AvailabilityAnalysis(meter, sub, cum, exp)
    st_, out = ctx.outcome(a.run, **({} if freq is None else dict(rollup_period=freq)), **kw)
    return a, st_, out


def usable(p):
    meter, sub, cum, exp = avail.build(p)
    m, s, e = meter.to_numpy(float), sub.to_numpy(float), exp.to_numpy(float)
    try:
        loss, online, judged, sizes = avail.subsystem(m, s)
        _, _, _, table, _ = avail.errors(m, e, loss, 1.0, (0.01, 0.99))
    except avail.Tie:
        return None
    runs = avail.outages(e, online)
    if any(a == 0 and b == 0 for a, b in runs) or not table or any(
            v is None for v in table.values()) or (runs and runs[0] == (0, len(m) - 1)):
        return None
    return sizes.sum() * p['scale']


def check(c, ctx):
    unit = usable(c['p'])
    if unit is None:
        ctx.label('not enough data')
        return
    freq = c['freq']
    tz = c['p']['tz']
    if freq in ('6h', 'h', '2D') and tz in ('America/Denver', 'Australia/Sydney'):
        freq = 'D'
    a = AvailabilityAnalysis(*avail.build(c['p']))
    _, msgs = ctx.warned(a.run, **({} if freq is None else dict(rollup_period=freq)))
    res = a.results
    ctx.require(list(res.columns) == ['lost_production', 'actual_production', 'availability'],
                f'columns {list(res.columns)}')
    idx = a.loss_total.index
    tot = a.loss_system.to_numpy() + a.loss_subsystem.to_numpy()
    ctx.close('total loss', a.loss_total.to_numpy(), tot, 1e-12, 1e-12 * unit)
    dt = c['p']['step'] / 60
    lost = avail.interval_energy(a.loss_total.to_numpy(float).copy(), dt)
    cum = a.energy_cumulative_corrected.to_numpy(float)
    first = idx[0].tz_localize(None) if idx.tz is not None else idx[0]
    bins = [bin_of(t, freq, first) for t in idx]
    order, seen = [], {}
    for i, b in enumerate(bins):
        if b not in seen:
            seen[b] = []
            order.append(b)
        seen[b].append(i)
    want_l, want_a = [], []
    prev = np.nan
    for b in order:
        x = cum[seen[b]]
        want_l.append(np.nansum(lost[seen[b]]))
        x = x[~np.isnan(x)]
        if not len(x):
            want_a.append(np.nan)
            continue
        want_a.append(x[-1] - (x[0] if np.isnan(prev) else prev))
        prev = x[-1]
    ctx.require(len(res) == len(order), f'{len(res)} periods, expected {len(order)}')
    ctx.nontrivial(sum(want_l) > 0 and len(order) > 1)
    ctx.label(str(freq))
    # the very first stamp has no interval: a period of its own may be empty
    ctx.close('lost production', res['lost_production'].fillna(0), want_l, 1e-9, 1e-9 * unit)
    scale = 1e-11 * np.nanmax(np.abs(cum))
    ctx.close('actual production', res['actual_production'], want_a, 1e-9, scale + 1e-9 * unit)
    l, p = res['lost_production'].fillna(0).to_numpy(), res['actual_production'].to_numpy()
    with np.errstate(all='ignore'):
        want = p / (l + p)
        judge = (np.abs(l + p) > 1e-6 * unit) & res['lost_production'].notna().to_numpy()
    ctx.close('availability', res['availability'].to_numpy()[judge], want[judge], 1e-9, 1e-9)
    both = ((a.loss_system > 0) & (a.loss_subsystem > 0)).any()
    if both:
        ctx.label('simultaneous')
    ctx.require(any('imultaneous' in m for m in msgs) == bool(both),
                f'losses at both levels at once: {both}, warnings {msgs}')


def check_units(c, ctx):
    unit = usable(c['p'])
    if unit is None:
        ctx.label('not enough data')
        return
    a, s1, o1 = run(c['p'], 'D', ctx)
    b, s2, o2 = run(c['p'], 'D', ctx, k=c['k'])
    ctx.require(s1 == s2 == 'ok', f'run failed: {o1!r} {o2!r}')
    ctx.nontrivial(a.loss_total.sum() > 0)
    k = c['k']
    ctx.close('loss', b.loss_total, a.loss_total * k, 1e-9, 1e-9 * unit * k)
    ctx.close('results', b.results['lost_production'], a.results['lost_production'] * k, 1e-9,
              1e-9 * unit * k)
    ok = (a.results['actual_production'].abs() + a.results['lost_production']) > 1e-6 * unit
    ctx.close('availability', b.results['availability'][ok], a.results['availability'][ok], 1e-9,
              1e-9)
    ctx.require(list(a.outage_info['type']) == list(b.outage_info['type']), 'outage types differ')
    if c['p']['tz'] is not None and c['tz2'] is not None:
        z, s3, o3 = run(c['p'], 'D', ctx, tz=c['tz2'])
        ctx.require(s3 == 'ok', f'run failed: {o3!r}')
        ctx.label('zone changed')
        ctx.close('loss in another zone', z.loss_total, a.loss_total, 1e-9, 1e-9 * unit)
        ctx.close('total lost production in another zone', z.results['lost_production'].sum(),
                  a.results['lost_production'].sum(), 1e-9, 1e-9 * unit)
        cum = np.nanmax(np.abs(a.energy_cumulative.to_numpy()))
        if not a.results['actual_production'].isna().any() \
                and not z.results['actual_production'].isna().any():
            ctx.close('total production in another zone', z.results['actual_production'].sum(),
                      a.results['actual_production'].sum(), 1e-9, 1e-9 * unit + 1e-10 * cum)


FACETS = [
    Facet('rollup', cases, check, 640, 8000, 'loss occurs and several periods'),
    Facet('units', cases, check_units, 320, 4000, 'loss occurs'),
]
