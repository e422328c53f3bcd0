"""C18: loss from partial (subsystem) outages."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools.availability import AvailabilityAnalysis
from ..core import Facet
from ..refs import avail

RULE = ('plants of 1-5 inverters with partial, total, communication and quiet periods, tare '
        'losses and NaNs; instant-by-instant power comparison reference')
ASSUMPTIONS = ['every subsystem produces at some time', 'instants decided by less than 1e-9 are '
               'not judged']


@st.composite
def cases(draw):
    p = draw(avail.plant())
    return dict(p=p, low=draw(st.sampled_from([None, None, 'scalar', 'series'])),
                lowv=draw(st.sampled_from([0.001, 0.05])),
                sizes=draw(st.sampled_from([None, None, 'dict', 'series'])),
                limit=draw(st.sampled_from([None, None, 'scalar', 'series', 'tight'])))


def arguments(c, meter, sub):
    total = sum(c['p']['sizes']) * c['p']['scale']
    kw, ref = {}, {}
    if c['low'] == 'scalar':
        kw['low_threshold'] = ref['low'] = c['lowv'] * c['p']['scale']
    elif c['low'] == 'series':
        ref['low'] = [c['lowv'] * s * c['p']['scale'] for s in c['p']['sizes']]
        kw['low_threshold'] = pd.Series(ref['low'], index=sub.columns)
    if c['sizes'] is not None:
        z = np.array(c['p']['sizes'])
        ref['sizes'] = z / z.mean()
        d = dict(zip(sub.columns, ref['sizes']))
        # in any order: sizes belong to subsystems by name
        d = {k: d[k] for k in sorted(d, key=lambda k: (int(k[3:]) * 7 + c['p']['seed']) % 5)}
        kw['relative_sizes'] = d if c['sizes'] == 'dict' else pd.Series(d)
    if c['limit'] == 'scalar':
        kw['power_system_limit'] = ref['limit'] = 0.6 * total
    elif c['limit'] == 'tight':
        kw['power_system_limit'] = ref['limit'] = 0.25 * total
    elif c['limit'] == 'series':
        ref['limit'] = total * (0.4 + 0.3 * np.sin(np.arange(len(meter)) / 5.0))
        kw['power_system_limit'] = pd.Series(ref['limit'], index=meter.index)
    return kw, ref


def check(c, ctx):
    meter, sub, cum, exp = avail.build(c['p'])
    kw, ref = arguments(c, meter, sub)
    m, s, e = meter.to_numpy(float), sub.to_numpy(float), exp.to_numpy(float)
    try:
        loss, online, judged, sizes = avail.subsystem(m, s, **ref)
        avail.errors(m, e, loss, 1.0, (0.01, 0.99))
    except avail.Tie:
        ctx.label('not enough data')
        return
    a = AvailabilityAnalysis(meter, sub, cum, exp)
    ctx.call('run', a.run, **kw)
    ctx.nontrivial((loss > 0).any())
    if (loss > 0).any():
        ctx.label('subsystem loss')
    if ref.get('limit') is not None:
        ctx.label('limited')
    ctx.same_index('loss', a.loss_subsystem.index, meter.index)
    ctx.require(list(a.reporting_mask.columns) == list(sub.columns), 'mask columns differ')
    got_on = a.reporting_mask.to_numpy().astype(bool)
    bad = (got_on != online).any(axis=1) & judged
    ctx.require(not bad.any(), f'online mask wrong at {np.flatnonzero(bad)[:3]}')
    got = a.loss_subsystem.to_numpy(float)
    bad = (np.abs(got - loss) > 1e-9 * (np.abs(loss) + sizes.sum() * c['p']['scale'])) & judged
    bad |= np.isnan(got)
    i = int(np.flatnonzero(bad)[0]) if bad.any() else -1
    ctx.require(not bad.any(), f'loss at position {i}: got {got[i]}, expected {loss[i]} '
                f'(meter {m[i]}, subsystems {s[i]}, sizes {sizes})')


def check_ideal(c, ctx):
    """With noiseless peers the estimated loss is exactly the missing production."""
    p = dict(c['p'], noise=0.0, night='zero', meter_nan=0.0, meter_neg=0.0)
    meter, sub, cum, exp = avail.build(p)
    k = np.array(p['sizes'])
    s = sub.fillna(0).to_numpy() / p['scale']
    a = AvailabilityAnalysis(meter, sub, cum, exp)
    st_, out = ctx.outcome(a.run, relative_sizes=dict(zip(sub.columns, k / k.mean())))
    if st_ == 'err':
        ctx.label('not enough data')
        return
    got = a.loss_subsystem.to_numpy() / p['scale']
    m = meter.to_numpy() / p['scale']
    low = np.quantile(s, 0.99, axis=0) / 1000
    on = s > low
    per = np.array([(s[i, on[i]] / k[on[i]]).mean() if on[i].any() else 0.0 for i in range(len(s))])
    truth = per * k.sum() - m
    big = per > 0.05
    part = on.any(axis=1) & ~on.all(axis=1) & big & ~np.isnan(m)
    ctx.nontrivial(part.any())
    err = np.abs(got - truth)[part]
    ctx.require((err < 1e-3 * k.sum()).all(), 'loss differs from the missing production by '
                f'{err.max() if len(err) else 0}')
    full = on.all(axis=1)
    ctx.require((got[full] == 0).all(), 'loss reported while every subsystem is online')


@st.composite
def bad(draw):
    return dict(which=draw(st.integers(0, 2)), kind=draw(st.sampled_from(['short', 'shift', 'zone'])),
                n=draw(st.integers(3, 40)))


def check_bad(c, ctx):
    i = pd.date_range('2020-01-01', periods=c['n'], freq='h')
    s = pd.Series(1.0, index=i)
    parts = [pd.DataFrame({'a': s}), s, s]
    x = parts[c['which']]
    y = {'short': x.iloc[:-1], 'shift': x.shift(1, freq='h'), 'zone': x.tz_localize('UTC')}[c['kind']]
    ctx.nontrivial()
    AvailabilityAnalysis(s, *parts)
    parts[c['which']] = y
    ctx.raises('indexes differ', ValueError, AvailabilityAnalysis, s, *parts)


FACETS = [
    Facet('loss', cases, check, 1600, 16000, 'a subsystem loss occurs'),
    Facet('truth', cases, check_ideal, 240, 3000, 'some subsystems offline in daylight'),
    Facet('rejects', bad, check_bad, 60, 300, 'all cases'),
]
