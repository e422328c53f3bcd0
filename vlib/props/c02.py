"""C02: interpolate = gap-limited linear interpolation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import rdtools
from ..core import Facet
from .. import gen

RULE = ('sample times/values with NaNs and gaps, target index or frequency, optional '
        'max_timedelta; reference interpolates each target time between its two neighbours')
ASSUMPTIONS = ['timestamps within a series and within a target index are unique']


def reference(t, v, targets, maxgap):
    good = ~np.isnan(v)
    t, v = t[good], v[good]
    if maxgap is None and len(t) > 1:
        maxgap = 2 * float(np.median(np.diff(t)))
    out = []
    for g in targets:
        j = int(np.searchsorted(t, g))
        if j < len(t) and t[j] == g:
            out.append(v[j])
        elif 0 < j < len(t) and t[j] - t[j - 1] <= maxgap:
            w = (int(g) - int(t[j - 1])) / (int(t[j]) - int(t[j - 1]))
            out.append(v[j - 1] + (v[j] - v[j - 1]) * w)
        else:
            out.append(np.nan)
    excluded = 0.0
    if len(t):
        excluded = float((np.diff(t) > maxgap).sum()) / len(t) if len(t) > 1 else 0.0
    return np.array(out), excluded


@st.composite
def cases(draw):
    base = draw(st.sampled_from([1, 5, 15, 60, 1440]))
    n = draw(st.integers(2, 14))
    steps = draw(st.lists(st.sampled_from([base] * 5 + [2 * base, 3 * base, 9 * base, base + 1]),
                          min_size=n - 1, max_size=n - 1))
    ncol = draw(st.sampled_from([0, 0, 1, 2, 3]))
    cols = [draw(st.lists(gen.maybe_nan(gen.value(-1000, 1000), 6), min_size=n, max_size=n))
            for _ in range(max(1, ncol))]
    for c in cols:
        if sum(x is not None for x in c) < 2:
            c[0], c[-1] = 1.0, 4.0
    span = sum(steps)
    mode = draw(st.sampled_from(['index', 'index', 'freq', 'offset']))
    if mode == 'index':
        target = sorted(set(draw(st.lists(st.integers(-2 * base * 2, (span + 2 * base) * 2),
                                          min_size=1, max_size=20))))      # half minutes
        on = draw(st.lists(st.integers(0, n - 1), max_size=4))
        cum = [0] + list(np.cumsum(steps))
        target = sorted(set(target) | {int(2 * cum[i]) for i in on})
        if draw(st.integers(0, 5)) == 0:
            target = draw(st.permutations(target))
    else:
        target = draw(st.sampled_from([base, 2 * base, max(1, base // 5), 3 * base, base + 1]))
    return dict(steps=steps, cols=cols, ncol=ncol, mode=mode, target=target, base=base,
                maxgap=draw(st.sampled_from([None, None, 1, 1.5, 2, 3, 10])),
                warn=draw(st.sampled_from([None, 0.0, 0.1, 0.25, 0.5, 1.0])),
                tz=draw(gen.tz), ttz=draw(gen.tz), start=draw(gen.start),
                name=draw(st.sampled_from([None, 'x', 'data', 'timestamp', 'gapsize_ns'])))


def check(c, ctx):
    mins = np.concatenate([[0], np.cumsum(c['steps'])])
    idx = gen.index_from_minutes(c['start'], mins, c['tz'])
    t = gen.ns(idx)
    if c['ncol'] == 0:
        obj = pd.Series(gen.arr(c['cols'][0]), index=idx, name=c['name'])
    else:
        obj = pd.DataFrame({f'c{i}': gen.arr(x) for i, x in enumerate(c['cols'])}, index=idx)
    kw = {}
    maxgap = None
    if c['maxgap'] is not None:
        maxgap = float(int(c['maxgap'] * c['base'] * 60e9))
        kw['max_timedelta'] = pd.Timedelta(int(maxgap), 'ns')
    if c['warn'] is not None:
        kw['warning_threshold'] = c['warn']
    if c['mode'] == 'index':
        tzname = c['ttz']
        if (tzname is None) != (c['tz'] is None):
            tzname = c['tz']
        target = gen.index_from_minutes(c['start'], [x / 2 for x in c['target']], tzname)
        tidx = target
    else:
        step = c['target']
        tidx = gen.index_from_minutes(c['start'], np.arange(0, mins[-1] + 1, step), c['tz'])
        target = f'{step}min' if c['mode'] == 'freq' else pd.tseries.offsets.Minute(step)
    got, msgs = ctx.warned(rdtools.interpolate, obj, target, **kw)
    tt = gen.ns(tidx)
    refs = [reference(t, gen.arr(x), tt, maxgap) for x in c['cols']]
    ctx.label(c['mode'], 'frame' if c['ncol'] else 'series')
    if any(e > 0 for _, e in refs):
        ctx.label('long gap')
    if any(np.isnan(r).any() and np.isfinite(r).any() for r, _ in refs):
        ctx.nontrivial()
    ctx.require(isinstance(got, pd.DataFrame if c['ncol'] else pd.Series),
                f'returned {type(got).__name__}')
    ctx.same_index('interpolated index', got.index, tidx)
    for i, (want, _) in enumerate(refs):
        col = got if not c['ncol'] else got[f'c{i}']
        ctx.close(f'interpolated values (column {i})', col.to_numpy(float), want, rtol=1e-7,
                  atol=1e-7 * max(1, np.nanmax(np.abs(gen.arr(c['cols'][i])))))
    if c['ncol']:
        ctx.require(list(got.columns) == [f'c{i}' for i in range(c['ncol'])],
                    f'columns {list(got.columns)}')
    else:
        ctx.require(got.name == c['name'], f'name {got.name!r} instead of {c["name"]!r}')
    thr = 0.1 if c['warn'] is None else c['warn']
    if all(abs(e - thr) > 1e-9 for _, e in refs):
        warned = any('xcluded' in m for m in msgs)
        expect = any(e > thr for _, e in refs)
        if expect:
            ctx.label('warned')
        ctx.require(warned == expect, f'exclusion warning {"missing" if expect else "spurious"}: '
                    f'excluded fractions {[e for _, e in refs]}, threshold {thr}')


@st.composite
def bad_cases(draw):
    return dict(aware=draw(st.sampled_from(['UTC', 'America/Denver', 'Etc/GMT+7'])),
                which=draw(st.booleans()), frame=draw(st.booleans()), n=draw(st.integers(2, 30)))


def check_bad(c, ctx):
    """Mixing zone-aware and zone-naive times must be refused; equal kinds must not."""
    tzs = [c['aware'], None] if c['which'] else [None, c['aware']]
    idx = pd.date_range('2019-01-01', periods=c['n'], freq='h', tz=tzs[0])
    s = pd.Series(np.arange(c['n'], dtype=float), index=idx)
    if c['frame']:
        s = s.to_frame('a')
    tgt = pd.date_range('2019-01-01', periods=3, freq='30min', tz=tzs[1])
    ctx.nontrivial()
    ctx.raises('naive/aware mix', ValueError, rdtools.interpolate, s, tgt)
    ctx.call('same kinds', rdtools.interpolate, s,
             pd.date_range('2019-01-01', periods=3, freq='30min', tz=tzs[0]))


FACETS = [
    Facet('values', cases, check, 4000, 60000,
          'non-trivial: both interpolated and withheld target times'),
    Facet('zones', bad_cases, check_bad, 200, 1000, 'naive/aware mixtures'),
]
