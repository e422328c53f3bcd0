"""C11: rolling outlier filters after aggregation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import filtering
from ..core import Facet
from .. import gen
from .c16 import quantile

RULE = ('daily/irregular series with level shifts, spikes, NaNs, gaps and constant stretches; '
        'window-by-window reference computed point by point')
ASSUMPTIONS = ['verdicts within 1e-9 of a threshold are not judged',
               'verdicts on missing values are judged only where documented']
DAY = 86400 * 10**9


@st.composite
def cases(draw, which):
    n = draw(st.integers(3, 60))
    mode = draw(st.sampled_from(['daily', 'gappy', 'hours']))
    if mode == 'daily':
        gaps = [24] * (n - 1)
    elif mode == 'gappy':
        gaps = draw(st.lists(st.sampled_from([24] * 6 + [48, 24 * 7, 24 * 9]), min_size=n - 1,
                             max_size=n - 1))
    else:
        gaps = draw(st.lists(st.sampled_from([6, 12, 24, 36]), min_size=n - 1, max_size=n - 1))
    grid = draw(st.booleans())
    if grid:
        base = st.integers(48, 72).map(lambda i: i / 64)
    else:
        base = st.floats(0.8, 1.1)
    item = st.one_of(base, base, base, base, base, st.none(),
                     st.sampled_from([0.0, 0.25, 1.5, 2.0, 0.96875, 1.03125]))
    const = draw(st.integers(0, 4))
    vals = draw(st.lists(item, min_size=n, max_size=n))
    if const == 0:
        vals = [1.0 if (v is not None and 0.7 < v < 1.2) else v for v in vals]
    elif const == 1:
        k = draw(st.integers(0, n))
        vals = [None if v is None else (v * 0.5 if i >= k else v) for i, v in enumerate(vals)]
    c = dict(gaps=gaps, vals=vals, tz=draw(gen.tz), scale=draw(st.sampled_from([1.0, 0.0078125,
                                                                               64.0, 2.0 ** -20, 2.0 ** 20])))
    if which == 'hampel':
        c['k'] = draw(st.sampled_from([None, None, '14d', '7d', '30d', 3, 5, 9]))
        c['t0'] = draw(st.sampled_from([None, None, 3, 2, 1, 5]))
    elif which == 'two_way':
        c['roll'] = draw(st.sampled_from([None, None, 7, 14, 3]))
        c['thr'] = draw(st.sampled_from([None, None, 0.03, 0.1, 0.0625, 0.25]))
    else:
        c['roll'] = draw(st.sampled_from([None, None, 7, 14, 3]))
        c['k'] = draw(st.sampled_from([None, None, 1.5, 3.0, 0.5, 0.0]))
    return c


def build(c):
    hours = np.concatenate([[0], np.cumsum(c['gaps'])])
    idx = pd.DatetimeIndex([pd.Timestamp('2016-02-20') + pd.Timedelta(hours=int(h)) for h in hours])
    if c['tz']:
        idx = idx.tz_localize('UTC').tz_convert(c['tz'])
    return pd.Series(gen.arr(c['vals']) * c['scale'], index=idx)


def med(xs, minp):
    xs = [v for v in xs if not np.isnan(v)]
    return quantile(xs, 0.5) if len(xs) >= minp else np.nan


def directional(t, x, days):
    w = days * DAY
    back = np.array([med(x[(t >= t[i] - w) & (t <= t[i])], 5) for i in range(len(t))])
    fwd = np.array([med(x[(t >= t[i]) & (t <= t[i] + w)], 5) for i in range(len(t))])
    return back, fwd


def report(c, ctx, got, s, want, amb):
    ctx.label('constant stretch' if len(set(v for v in c['vals'] if v is not None)) < 4 else 'varied')
    ctx.nontrivial(want.any() and not want.all())
    ctx.mask('mask', got, s.index, want, amb)


def check_two_way(c, ctx):
    s = build(c)
    x, t = s.to_numpy(), gen.ns(s.index)
    kw = {}
    if c['roll'] is not None:
        kw['roll_period'] = pd.Timedelta(days=c['roll'])
    if c['thr'] is not None:
        kw['outlier_threshold'] = c['thr']
    q99 = quantile([v for v in x if not np.isnan(v)], 0.99)
    if not q99 > 0:
        return
    got = ctx.call('two_way_window_filter', filtering.two_way_window_filter, s, **kw)
    y = x / q99
    b, f = directional(t, y, c['roll'] or 7)
    db, df = np.abs(y - b), np.abs(y - f)
    db[np.isnan(db)] = 0
    df[np.isnan(df)] = 0
    d = np.minimum(db, df)
    thr = 0.03 if c['thr'] is None else c['thr']
    amb = (np.abs(d - thr) < 1e-9) | np.isnan(x)
    report(c, ctx, got, s, d < thr, amb)


def check_hampel(c, ctx):
    s = build(c)
    x, t = s.to_numpy(), gen.ns(s.index)
    n = len(x)
    kw = {}
    if c['k'] is not None:
        kw['k'] = c['k']
    if c['t0'] is not None:
        kw['t0'] = c['t0']
    got = ctx.call('hampel_filter', filtering.hampel_filter, s, **kw)
    k = c['k'] or '14d'

    def windows(i):
        if isinstance(k, int):
            off = (k - 1) // 2
            hi = i + off
            return np.arange(max(0, hi - k + 1), min(n - 1, hi) + 1)
        half = int(int(k[:-1]) * DAY / 2)
        return np.flatnonzero((t > t[i] - half) & (t <= t[i] + half))
    m = np.array([med(x[windows(i)], 1) for i in range(n)])
    d = np.abs(m - x)
    mad = np.array([med(d[windows(i)], 1) for i in range(n)])
    lim = (c['t0'] if c['t0'] is not None else 3) * 1.4826 * mad
    want = d <= lim
    amb = (np.abs(d - lim) < 1e-9 * c['scale']) & ~((d == 0) & (lim == 0))
    report(c, ctx, got, s, want, amb)


def check_tukey(c, ctx):
    s = build(c)
    x, t = s.to_numpy(), gen.ns(s.index)
    kw = {}
    if c['roll'] is not None:
        kw['roll_period'] = pd.Timedelta(days=c['roll'])
    if c['k'] is not None:
        kw['k'] = c['k']
    got = ctx.call('directional_tukey_filter', filtering.directional_tukey_filter, s, **kw)
    b, f = directional(t, x, c['roll'] or 7)
    k = 1.5 if c['k'] is None else c['k']
    want = np.zeros(len(x), bool)
    amb = np.zeros(len(x), bool)
    for ref in (b, f):
        d = x - ref
        fin = [v for v in d if not np.isnan(v)]
        if not fin:
            continue
        p25, p75 = quantile(fin, 0.25), quantile(fin, 0.75)
        lo, hi = p25 - k * (p75 - p25), p75 + k * (p75 - p25)
        want |= (d >= lo) & (d <= hi)
        close = (np.abs(d - lo) < 1e-9 * c['scale']) | (np.abs(d - hi) < 1e-9 * c['scale'])
        if p25 == p75 == 0:
            close &= d != 0
        amb |= close
    report(c, ctx, got, s, want, amb)


FACETS = [
    Facet('two_way_window', lambda: cases('two_way'), check_two_way, 800, 12000,
          'some points kept, some rejected'),
    Facet('hampel', lambda: cases('hampel'), check_hampel, 800, 12000,
          'some points kept, some rejected'),
    Facet('directional_tukey', lambda: cases('tukey'), check_tukey, 800, 12000,
          'some points kept, some rejected'),
]
