"""C04: aggregation_insol = insolation-weighted mean per calendar bin."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import rdtools
from ..core import Facet
from .. import gen

RULE = 'irregular/regular points with joint NaNs; bins computed point by point from the wall clock'
ASSUMPTIONS = ['energy and insolation share timestamps and are missing together (as in every '
               'caller); a point with insolation but no energy has no documented meaning']

FREQS = [None, 'D', 'D', 'h', '6h', '3h', '2D', 'W', 'MS', 'ME', '7D', 'YS']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 30))
    base = draw(st.sampled_from([15, 60, 300, 1440]))
    steps = draw(st.lists(st.sampled_from([base] * 4 + [2 * base, 11 * base]),
                          min_size=n - 1, max_size=n - 1))
    pts = draw(st.lists(st.one_of(st.none(), st.tuples(gen.value(0, 2),
                                                       st.one_of(st.just(0.0),
                                                                 gen.value(0, 1000)))),
                        min_size=n, max_size=n))
    freq = draw(st.sampled_from(FREQS))
    tz = draw(gen.tz if freq in (None, 'D', 'W', 'MS', 'ME', 'YS') else gen.fixed_tz)
    return dict(steps=steps, pts=[list(p) if p else None for p in pts], freq=freq, tz=tz,
                start=draw(gen.start), offset=draw(st.booleans()))


def bin_label(ts, freq, origin):
    day = ts.normalize()
    if freq in (None, 'D'):
        return day
    if freq == 'MS':
        return day.replace(day=1)
    if freq == 'YS':
        return day.replace(day=1, month=1)
    if freq == 'ME':
        return day + pd.DateOffset(days=day.days_in_month - day.day)
    if freq == 'W':
        return day + pd.DateOffset(days=(6 - day.dayofweek) % 7)
    width = pd.Timedelta({'h': '1h'}.get(freq, freq))
    return origin + ((ts - origin) // width) * width


def check(c, ctx):
    mins = np.concatenate([[0], np.cumsum(c['steps'])])
    idx = gen.index_from_minutes(c['start'], mins, c['tz'])
    e = gen.arr([p[0] if p else None for p in c['pts']])
    w = gen.arr([p[1] if p else None for p in c['pts']])
    kw = {}
    if c['freq']:
        kw['frequency'] = pd.tseries.frequencies.to_offset(c['freq']) if c['offset'] else c['freq']
    got = ctx.call('aggregation_insol', rdtools.aggregation_insol, pd.Series(e, index=idx),
                   pd.Series(w, index=idx), **kw)
    origin = idx[0].normalize()
    num, den, present = {}, {}, []
    for ts, ei, wi in zip(idx, e, w):
        b = bin_label(ts, c['freq'], origin)
        if b not in num:
            num[b], den[b] = 0.0, 0.0
            present.append(b)
        if not np.isnan(ei):
            num[b] += ei * wi
            den[b] += wi
    ctx.label(str(c['freq']))
    if len(present) > 1 and any(v > 0 for v in den.values()):
        ctx.nontrivial()
    labels = list(got.index)
    for b in present:
        ctx.require(b in labels, f'no aggregate labelled {b}; got {labels[:5]}')
    ctx.require(got.index.is_monotonic_increasing and got.index.is_unique, 'labels not in order')
    ctx.require(labels[0] == present[0] and labels[-1] == present[-1],
                f'labels span {labels[0]}..{labels[-1]}, data bins {present[0]}..{present[-1]}')
    for b in labels:
        want = num[b] / den[b] if b in num and den[b] > 1e-9 else np.nan
        if b in num and 0 < den[b] <= 1e-9:
            continue
        ctx.close(f'weighted mean in bin {b}', [got[b]], [want], rtol=1e-9, atol=1e-12)


FACETS = [Facet('weighted_mean', cases, check, 3000, 40000,
                'more than one bin and positive insolation')]
