"""C03: normalisation = measured energy / modelled energy, with matching insolation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import rdtools
from rdtools import normalization
from ..core import Facet
from .. import gen
from .c01 import reference as integrate
from .c02 import reference as interp

RULE = ('regular measured power/energy, model series at finer/equal/coarser step with NaNs and '
        'missing timestamps; reference = exact integration and interpolation models of C01/C02')
ASSUMPTIONS = ['measured series regular with at least 5 timestamps (documented)',
               'model timestamps lie on the measured grid or a subdivision of it']


@st.composite
def cases(draw, pvwatts=False):
    s = draw(st.sampled_from([15, 30, 60]))
    rel = draw(st.sampled_from(['equal', 'equal', 'finer', 'coarser']))
    n = draw(st.integers(5, 16))
    off = 0
    if rel == 'equal':
        step, m = s, n + draw(st.integers(-1, 2))
        off = draw(st.sampled_from([0, 0, -1, 1])) * s
    elif rel == 'finer':
        k = draw(st.sampled_from([3, 5]))
        step, m = s // k, n * k - draw(st.integers(0, 4))
        off = draw(st.sampled_from([0, 0, -1])) * s
    else:
        k = draw(st.sampled_from([2, 3, 4, 1.2, 1.4, 1.6, 1.8]))
        step, m = int(round(s * k)), max(3, int(n // k) + draw(st.integers(0, 2)))
        off = draw(st.sampled_from([0, 0, 1])) * s
    m = max(m, 4)
    drop = draw(st.lists(st.integers(1, m - 2), max_size=3, unique=True)) \
        if draw(st.booleans()) else []
    if rel == 'equal':
        drop = []
    val = lambda lo, hi: st.lists(gen.maybe_nan(gen.value(lo, hi), 9), min_size=m, max_size=m)
    c = dict(step=s, n=n, rel=rel, mstep=step, m=m, off=off, drop=drop,
             pv=draw(st.lists(gen.maybe_nan(gen.value(0, 5000), 9), min_size=n, max_size=n)),
             model=draw(val(1, 5000)), poa=draw(val(0, 1200)),
             freqd=True if rel == 'equal' else draw(st.booleans()),
             tz=draw(gen.tz), start=draw(gen.start),
             pv_input=draw(st.sampled_from(['power', 'energy', None])),
             cut=draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=4, max_size=4)))
    if pvwatts:
        c['temp'] = draw(st.one_of(st.none(), val(-20, 80)))
        c['gamma'] = draw(st.sampled_from([None, -0.005, -0.0035, 0.002, 0.0]))
        c['rated'] = draw(st.sampled_from([1.0, 250.0, 4800.0]))
        c['tref'] = draw(st.sampled_from([None, 25.0, 20.0, 45.0]))
        c['gref'] = draw(st.sampled_from([None, 1000.0, 900.0]))
    return c


def build(c):
    idx = gen.regular_index(c['start'], c['step'], c['n'], c['tz'])
    first = gen.regular_index(c['start'], 1, 1, c['tz'])[0] + pd.Timedelta(minutes=c['off'])
    midx = pd.date_range(first, periods=c['m'], freq=f"{c['mstep']}min")
    if c['drop']:
        midx = midx[[i for i in range(c['m']) if i not in set(c['drop'])]]
    keep = [i for i in range(c['m']) if i not in set(c['drop'])]
    if not c['freqd']:
        idx = pd.DatetimeIndex(list(idx))
        midx = pd.DatetimeIndex(list(midx))
    pv = pd.Series(gen.arr(c['pv']), index=idx, name='pv')
    sub = lambda xs: pd.Series(gen.arr(xs)[keep], index=midx)
    return pv, sub


def to_labels(labels, vals, tzname):
    i = pd.DatetimeIndex(labels)
    if tzname is not None:
        i = i.tz_localize('UTC').tz_convert(tzname)
    return pd.Series(vals, index=i)


def model(pv, power_expected, poa, pv_input, tzname):
    t = gen.ns(pv.index)
    freq = int(t[1] - t[0])
    if pv_input == 'power':
        energy = to_labels(*integrate(t, pv.to_numpy(), freq, freq, 'right_labeled'), tzname)
    else:
        energy = pv.copy()
    out = []
    mt = gen.ns(power_expected.index)
    coarser = np.diff(mt).mean() > freq * (1 + 1e-9)
    for s in (power_expected, poa):
        v = s.to_numpy()
        mt = gen.ns(s.index)
        if coarser:
            v, _ = interp(mt, v, t, None)
            st_ = t
        else:
            st_ = mt
        med = float(np.median(np.diff(st_)))
        out.append(to_labels(*integrate(st_, v, freq, med, 'right_labeled'), tzname))
    expected, insol = out
    with np.errstate(all='ignore'):
        norm = energy / expected
    union = norm.index.union(insol.index)
    return norm.reindex(union), insol.reindex(union)


def compare(ctx, got, want):
    ctx.require(isinstance(got, tuple) and len(got) == 2, 'must return (normalized, insolation)')
    for what, g, w in zip(('energy_normalized', 'insolation'), got, want):
        ctx.same_index(what, g.index, w.index)
        a, b = g.to_numpy(float), w.to_numpy(float)
        ctx.close(what, a, b, rtol=1e-6, atol=1e-9)


def trimmed(s, cut):
    """The model and irradiance need not cover the same times."""
    if len(s) - sum(cut) < 4:
        return s
    return s.iloc[cut[0]:len(s) - cut[1]]


def check_expected(c, ctx):
    pv, sub = build(c)
    pe, poa = trimmed(sub(c['model']), c['cut'][:2]), trimmed(sub(c['poa']), c['cut'][2:])
    kw = {} if c['pv_input'] is None else dict(pv_input=c['pv_input'])
    want = model(pv, pe, poa, c['pv_input'] or 'power', c['tz'])
    got = ctx.call('normalize_with_expected_power', rdtools.normalize_with_expected_power,
                   pv, pe, poa, **kw)
    ctx.label(c['rel'], str(c['pv_input']))
    if np.isfinite(want[0].to_numpy()).any():
        ctx.nontrivial()
    compare(ctx, got, want)


def pvw_kwargs(c, sub):
    kw = dict(poa_global=sub(c['poa']), power_dc_rated=c['rated'])
    if c['temp'] is not None:
        kw['temperature_cell'] = sub(c['temp'])
    if c['gamma'] is not None:
        kw['gamma_pdc'] = c['gamma']
    if c['tref'] is not None:
        kw['temperature_cell_ref'] = c['tref']
    if c['gref'] is not None:
        kw['poa_global_ref'] = c['gref']
    return kw


def pvw_model(c, sub):
    p = sub(c['poa']) / (c['gref'] or 1000.0) * c['rated']
    if c['temp'] is not None and c['gamma'] is not None:
        tref = 25.0 if c['tref'] is None else c['tref']
        p = p + p * c['gamma'] * (sub(c['temp']) - tref)
    return p


def check_pvwatts(c, ctx):
    pv, sub = build(c)
    kw = pvw_kwargs(c, sub)
    p = ctx.call('pvwatts_dc_power', normalization.pvwatts_dc_power, **kw)
    want_p = pvw_model(c, sub)
    ctx.series('pvwatts_dc_power', p, want_p, rtol=1e-9, atol=1e-9 * c['rated'])
    got = ctx.call('normalize_with_pvwatts', rdtools.normalize_with_pvwatts, pv, kw)
    want = model(pv, want_p, sub(c['poa']), 'energy', c['tz'])
    ctx.label(c['rel'], 'temperature' if c['temp'] is not None and c['gamma'] else 'no temperature')
    if np.isfinite(want[0].to_numpy()).any():
        ctx.nontrivial()
    # division by a vanishing expected energy amplifies rounding: judge those loosely
    compare(ctx, got, want)


@st.composite
def bad_cases(draw):
    return dict(n=draw(st.integers(6, 20)), drop=draw(st.integers(1, 4)),
                what=draw(st.sampled_from(['irregular', 'pv_input'])),
                text=draw(st.sampled_from(['Power', 'current', '', 'ENERGY', 'energy '])))


def check_bad(c, ctx):
    idx = pd.date_range('2020-01-01', periods=c['n'], freq='h')
    s = pd.Series(1.0, index=idx)
    ctx.nontrivial()
    if c['what'] == 'irregular':
        pv = s.drop(idx[c['drop']])
        ctx.raises('irregular pv', ValueError, rdtools.normalize_with_expected_power, pv, s, s)
        ctx.raises('irregular energy', ValueError, rdtools.normalize_with_pvwatts, pv,
                   dict(poa_global=s, power_dc_rated=1.0))
    else:
        ctx.raises('pv_input', ValueError, rdtools.normalize_with_expected_power, s, s, s,
                   pv_input=c['text'])


FACETS = [
    Facet('expected_power', cases, check_expected, 1600, 25000, 'a finite normalized value exists'),
    Facet('pvwatts', lambda: cases(pvwatts=True), check_pvwatts, 1200, 20000,
          'a finite normalized value exists'),
    Facet('rejects', bad_cases, check_bad, 150, 800, 'all cases'),
]
