"""C10: range filters."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import rdtools
from rdtools import filtering
from ..core import Facet
from .. import gen
from .c16 import quantile

RULE = 'values around and exactly at the bounds, NaN and infinities; pointwise reference'

SPECS = {
    'normalized': (filtering.normalized_filter, 'energy_normalized_low', 'energy_normalized_high',
                   0.01, None),
    'poa': (filtering.poa_filter, 'poa_global_low', 'poa_global_high', 200, 1200),
    'tcell': (filtering.tcell_filter, 'temperature_cell_low', 'temperature_cell_high', -50, 110),
}


@st.composite
def range_cases(draw):
    which = draw(st.sampled_from(sorted(SPECS)))
    _, _, _, dlo, dhi = SPECS[which]
    opt = [st.just('default'), st.sampled_from([-100.0, -3.5, 0.0, 0.01, 0.5, 150.0, 200.0])]
    opth = [st.just('default'), st.sampled_from([0.02, 1.0, 1.5, 60.0, 110.0, 900.0, 1300.0])]
    if which == 'normalized':
        opt.append(st.none())
        opth.append(st.none())
    lo, hi = draw(st.one_of(*opt)), draw(st.one_of(*opth))
    elo = dlo if lo == 'default' else lo
    ehi = dhi if hi == 'default' else hi
    pool = [x for x in (elo, ehi) if x is not None]
    near = [float(np.nextafter(x, s * np.inf)) for x in pool for s in (1, -1)]
    item = st.one_of(st.sampled_from([float(x) for x in pool] + near) if pool else st.just(0.5),
                     st.floats(-200, 1500), st.floats(-0.1, 1.6), st.none(),
                     st.sampled_from(['inf', '-inf']))
    return dict(which=which, lo=lo, hi=hi, xs=draw(st.lists(item, min_size=1, max_size=20)),
                pos=draw(st.booleans()))


def check_range(c, ctx):
    fn, nlo, nhi, dlo, dhi = SPECS[c['which']]
    x = np.array([np.nan if v is None else float(v) for v in c['xs']])
    s = pd.Series(x, index=pd.date_range('2020-01-01', periods=len(x), freq='h'))
    kw = {}
    lo = dlo if c['lo'] == 'default' else c['lo']
    hi = dhi if c['hi'] == 'default' else c['hi']
    if c['pos'] and 'default' not in (c['lo'], c['hi']):
        got = ctx.call(c['which'], fn, s, c['lo'], c['hi'])
    else:
        if c['lo'] != 'default':
            kw[nlo] = c['lo']
        if c['hi'] != 'default':
            kw[nhi] = c['hi']
        got = ctx.call(c['which'], fn, s, **kw)
    want = np.array([(not np.isnan(v)) and (lo is None and v > -np.inf or lo is not None and v > lo)
                     and (hi is None and v < np.inf or hi is not None and v < hi) for v in x])
    ctx.label(c['which'])
    ctx.nontrivial(want.any() and not want.all())
    # an infinite reading against an absent bound has no documented verdict
    ctx.mask(c['which'], got, s.index, want, ambiguous=np.isinf(x))


@st.composite
def quant_cases(draw):
    # filler + possibly many equal values so that the quantile falls on data
    xs = draw(st.lists(st.one_of(st.integers(0, 40).map(float), st.floats(0, 4000), st.none()),
                       min_size=1, max_size=40))
    return dict(xs=xs, q=draw(st.sampled_from([None, 0.0, 0.05, 0.1, 0.25, 0.5, 0.9, 0.98, 1.0])),
                which=draw(st.sampled_from(['insolation', 'quantile_clip', 'wrapper'])))


def check_quant(c, ctx):
    x = gen.arr(c['xs'])
    s = pd.Series(x, index=pd.date_range('2020-01-01', periods=len(x), freq='D', tz='UTC'))
    ctx.label(c['which'])
    kw = {} if c['q'] is None else dict(quantile=c['q'])
    if c['which'] == 'insolation':
        q = 0.1 if c['q'] is None else c['q']
        got = ctx.call('insolation_filter', filtering.insolation_filter, s, **kw)
        vals = sorted(x[~np.isnan(x)])
        if not vals:
            ctx.mask('insolation_filter', got, s.index, np.zeros(len(x), bool))
            return
        lim = quantile(vals, q)
        h = (len(vals) - 1) * q
        want = x >= lim
        i = int(np.floor(h))
        exact = h == i or vals[i] == vals[min(i + 1, len(vals) - 1)]
        amb = np.zeros(len(x), bool) if exact else np.abs(x - lim) <= 1e-9 * max(1, abs(lim))
    else:
        q = 0.98 if c['q'] is None else c['q']
        if c['which'] == 'wrapper':
            got = ctx.call('clip_filter', filtering.clip_filter, s, model='quantile', **kw)
        else:
            got = ctx.call('quantile_clip_filter', filtering.quantile_clip_filter, s, **kw)
        small = quantile([0.0 if np.isnan(a) else a for a in x], q) / 1000
        if small > 0 and (np.abs(x - small) <= 1e-9 * small).any():
            return
        lim = 0.99 * quantile([a for a in x if not np.isnan(a) and a > small], q)
        want = x < lim
        amb = np.abs(x - lim) <= 1e-9 * max(1e-6, abs(lim))
    ctx.nontrivial(want.any() and not want.all())
    ctx.mask(c['which'], got, s.index, want, amb)


FACETS = [
    Facet('bounds', range_cases, check_range, 3000, 40000, 'some points kept, some rejected'),
    Facet('quantiles', quant_cases, check_quant, 2400, 30000, 'some points kept, some rejected'),
]
