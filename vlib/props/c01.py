"""C01: energy_from_power is the time integral of power, gap-aware."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import rdtools
from ..core import Facet
from .. import gen

HOUR = 3.6e12

RULE = ('power series with irregular/regular steps (minutes down to fractions of a second), NaN runs, long gaps, time zones; target '
        'frequency finer/equal/coarser; reference integrates segment by segment')
ASSUMPTIONS = ['max_timedelta, when given, is at least the median step (smaller values void '
               'every interval)', 'at least two timestamps (one-element input is its own facet)',
               'fixed-length target frequencies']


def reference(t, v, freq, maxgap, kind, labels=None):
    """t ns (sorted), v floats with NaN.  Returns label times and energies."""
    steps = np.diff(t)
    median = float(np.median(steps))
    first, last = t[0], t[-1]
    if labels is None:
        nlab = int(-(-(last - first) // freq))
        labels = [first + (k + 1) * freq for k in range(nlab)]
        starts = None
    else:
        starts = [first] + list(labels[:-1])
    good = ~np.isnan(v)
    st_t, st_v = list(t[good]), list(v[good])
    if freq <= median:
        # power is first interpolated onto the target grid
        grid = [first + k * freq for k in range(int((last - first) // freq) + 1)]
        labels, starts = grid[1:], None
        nt, nv = [], []
        for g in grid:
            j = int(np.searchsorted(st_t, g))
            if j < len(st_t) and st_t[j] == g:
                nt.append(g)
                nv.append(st_v[j])
            elif 0 < j < len(st_t) and st_t[j] - st_t[j - 1] <= maxgap:
                w = (g - st_t[j - 1]) / (st_t[j] - st_t[j - 1])
                nt.append(g)
                nv.append(st_v[j - 1] * (1 - w) + st_v[j] * w)
        st_t, st_v = nt, nv
    out = []
    for i, b in enumerate(labels):
        a = b - freq if starts is None else starts[i]
        tot, any_part = 0.0, False
        for j in range(1, len(st_t)):
            s, e = st_t[j - 1], st_t[j]
            if e - s > maxgap or e <= a or s >= b:
                continue
            lo, hi = max(s, a), min(e, b)
            any_part = True
            if kind == 'right_labeled':
                tot += st_v[j] * (hi - lo) / HOUR
            else:
                f = lambda x: st_v[j - 1] + (st_v[j] - st_v[j - 1]) * ((x - s) / (e - s))
                tot += 0.5 * (f(lo) + f(hi)) * (hi - lo) / HOUR
        # the label lies in a stretch without timestamps that is longer than allowed
        k = int(np.searchsorted(t, b))
        void = k < len(t) and k > 0 and (t[k] - t[k - 1]) > maxgap
        out.append(tot if any_part and not void else np.nan)
    return np.array(labels), np.array(out)


@st.composite
def cases(draw):
    base = draw(st.sampled_from([1, 5, 10, 15, 30, 60]))
    n = draw(st.integers(2, 24))
    mode = draw(st.sampled_from(['regular', 'gappy', 'jitter', 'mixed']))
    steps = []
    for _ in range(n - 1):
        if mode == 'regular':
            steps.append(base)
        elif mode == 'gappy':
            steps.append(base * draw(st.sampled_from([1, 1, 1, 1, 2, 3, 7])))
        elif mode == 'jitter':
            steps.append(base + draw(st.sampled_from([0, 0, 0, 1, -base // 3])))
        else:
            steps.append(draw(st.integers(1, 3 * base)))
    steps = [max(1, int(s)) for s in steps]
    vals = draw(st.lists(gen.maybe_nan(gen.value(-5, 4000), 7), min_size=n, max_size=n))
    rel = draw(st.sampled_from(['default', 'finer', 'coarser', 'coarser', 'equal']))
    freq = {'default': st.none(), 'equal': st.just(base),
            'finer': st.sampled_from([max(1, base // 5), max(1, base // 2), max(1, base // 3)]),
            'coarser': st.sampled_from([2 * base, 4 * base, 3 * base, 60, 120, 7 * base, base + 1,
                                        1440])}[rel]
    freq = draw(freq)
    maxgap = draw(st.one_of(st.none(), st.sampled_from([1, 2, 3, 4, 1.5])))
    return dict(steps=steps, vals=vals, freq=freq, maxgap=maxgap, tz=draw(gen.tz),
                start=draw(gen.start), kind=draw(st.sampled_from(['right_labeled',
                                                                  'instantaneous'])),
                kind_default=draw(st.booleans()), freq_form=draw(st.booleans()),
                tick=draw(st.sampled_from([60000, 60000, 60000, 60000, 1000, 2500, 500, 100])))


def check(c, ctx):
    tick = c.get('tick', 60000)  # milliseconds
    ticks = np.concatenate([[0], np.cumsum(c['steps'])])
    idx = gen.index_from_minutes(c['start'], [0], c['tz'])[[0] * len(ticks)] + pd.to_timedelta(ticks * tick, 'ms')
    v = gen.arr(c['vals'])
    power = pd.Series(v, index=idx, name='p')
    t = gen.ns(idx)
    med = float(np.median(np.diff(t)))
    kw = {}
    kind = c['kind']
    if not (kind == 'right_labeled' and c['kind_default']):
        kw['power_type'] = kind
    if c['freq'] is None:
        freq = int(med)
    else:
        freq = int(c['freq'] * tick) * 10 ** 6
        if c['freq'] == 1440 and tick == 60000 and c['tz'] not in (None, 'UTC', 'Etc/GMT+7', 'Asia/Kathmandu'):
            freq = int(720 * 60e9)
        if tick == 60000:
            mn = freq // int(60e9)
            kw['target_frequency'] = (f'{mn}min' if c['freq_form']
                                      else pd.tseries.offsets.Minute(mn))
        else:
            ms = freq // 10 ** 6
            kw['target_frequency'] = f'{ms}ms' if c['freq_form'] else pd.tseries.offsets.Milli(ms)
            ctx.label('below a minute')
    if c['maxgap'] is None:
        maxgap = med
    else:
        maxgap = float(int(med * c['maxgap']))
        kw['max_timedelta'] = pd.Timedelta(int(maxgap), 'ns')
    got = ctx.call('energy_from_power', rdtools.energy_from_power, power, **kw)
    labels, want = reference(t, v, freq, maxgap, kind)
    widx = pd.DatetimeIndex(labels)
    if c['tz'] is not None:
        widx = widx.tz_localize('UTC').tz_convert(c['tz'])
    scale = np.nanmax(np.abs(np.append(v, 0.0))) * max(freq, 1) / HOUR
    ctx.label(kind, 'finer' if freq < med else 'equal' if freq == med else 'coarser')
    gaps = (np.diff(t[~np.isnan(v)]) > maxgap).any()
    if gaps:
        ctx.label('long gap')
    if np.isnan(v).any():
        ctx.label('nan power')
    if np.isfinite(want).any():
        ctx.nontrivial(gaps or freq != med or np.isnan(v).any())
    ctx.require(got.name == 'energy_Wh', f'name is {got.name!r}')
    ctx.same_index('energy labels', got.index, widx)
    # timestamps around 1.5e18 ns are only told apart to 256 ns in floating point
    eps = 1e-9 if tick == 60000 else 1024 / (tick * 1e6)
    ctx.close('energy', got.to_numpy(float), want, rtol=eps, atol=eps * scale + 1e-12)


@st.composite
def single_cases(draw):
    return dict(v=draw(gen.value(-5, 5000)), idx_freq=draw(st.sampled_from([None, 1, 15, 60, 120])),
                freq=draw(st.sampled_from([None, 1, 5, 15, 60, 90])), tz=draw(gen.tz),
                kind=draw(st.sampled_from([None, 'right_labeled', 'instantaneous'])),
                maxgap=draw(st.sampled_from([None, 1, 100])))


def check_single(c, ctx):
    idx = pd.date_range('2019-05-05 03:00', periods=1, freq=f"{c['idx_freq'] or 15}min", tz=c['tz'])
    if c['idx_freq'] is None:
        idx = pd.DatetimeIndex(list(idx))
    p = pd.Series([c['v']], index=idx)
    kw = {}
    if c['freq']:
        kw['target_frequency'] = f"{c['freq']}min"
    if c['maxgap']:
        kw['max_timedelta'] = pd.Timedelta(minutes=c['maxgap'])
    if c['kind']:
        kw['power_type'] = c['kind']
    if c['kind'] == 'instantaneous' or (c['freq'] is None and c['idx_freq'] is None):
        ctx.label('must reject')
        ctx.raises('single element', ValueError, rdtools.energy_from_power, p, **kw)
        ctx.nontrivial()
        return
    got = ctx.call('energy_from_power(1 element)', rdtools.energy_from_power, p, **kw)
    mins = c['freq'] or c['idx_freq']
    ctx.nontrivial()
    ctx.same_index('single', got.index, p.index)
    ctx.close('single', got.to_numpy(), [c['v'] * mins / 60.0])
    ctx.require(got.name == 'energy_Wh', f'name is {got.name!r}')


@st.composite
def month_cases(draw):
    n = draw(st.integers(5, 90))
    return dict(start=draw(st.sampled_from(['2016-01-01', '2015-02-01', '2019-12-01'])),
                step=draw(st.sampled_from([1440, 1440, 1440 * 3])),
                vals=draw(st.lists(gen.maybe_nan(gen.value(0, 4000), 9), min_size=n, max_size=n)),
                freq=draw(st.sampled_from(['MS', 'QS'])), tz=draw(gen.fixed_tz),
                kind=draw(st.sampled_from(['right_labeled', 'instantaneous'])),
                maxgap=draw(st.sampled_from([None, 2, 4])))


def check_month(c, ctx):
    """Calendar (variable-length) target frequencies."""
    idx = pd.date_range(c['start'], periods=len(c['vals']), freq=f"{c['step']}min", tz=c['tz'])
    if c['freq'] == 'QS' and idx[0].month not in (1, 4, 7, 10):
        idx = idx + pd.Timedelta(days=0)
        c['freq'] = 'MS'
    v = gen.arr(c['vals'])
    med = c['step'] * 60e9
    kw = {} if c['maxgap'] is None else dict(max_timedelta=pd.Timedelta(int(med * c['maxgap'])))
    maxgap = med * (c['maxgap'] or 1)
    if idx[-1] < pd.date_range(idx[0], periods=2, freq=c['freq'])[1]:
        return
    got = ctx.call('energy_from_power', rdtools.energy_from_power, pd.Series(v, index=idx),
                   c['freq'], power_type=c['kind'], **kw)
    labels = [x for x in pd.date_range(idx[0], periods=40, freq=c['freq'])[1:]]
    k = next(i for i, x in enumerate(labels) if x >= idx[-1])
    widx = pd.DatetimeIndex(labels[:k + 1])
    _, want = reference(gen.ns(idx), v, 1e18, maxgap, c['kind'], list(gen.ns(widx)))
    ctx.nontrivial(np.isfinite(want).any())
    # pandas may append empty bins after the last label; it must carry no energy
    ctx.require(got.iloc[len(widx):].isna().all(),
                'energy reported after the end of the data')
    got = got.iloc[:len(widx)]
    ctx.same_index('labels', got.index, widx)
    ctx.close('energy', got.to_numpy(float), want, atol=1e-5)


@st.composite
def split_cases(draw):
    base = draw(st.sampled_from([5, 15, 30]))
    k = draw(st.sampled_from([2, 4, 6]))
    n = k * draw(st.integers(2, 6))
    vals = draw(st.lists(gen.value(0, 4000), min_size=n + 1, max_size=n + 1))
    return dict(base=base, k=k, vals=vals, tz=draw(gen.tz), start=draw(gen.start),
                kind=draw(st.sampled_from(['right_labeled', 'instantaneous'])),
                lam=draw(st.sampled_from([0.25, 3.0, -2.0, 1000.0])))


def check_split(c, ctx):
    """Conservation (coarse = sum of fine) and linearity on gap-free data."""
    idx = gen.regular_index(c['start'], c['base'], len(c['vals']), c['tz'])
    p = pd.Series(c['vals'], index=idx, dtype=float)
    f = lambda x, m: ctx.call('energy_from_power', rdtools.energy_from_power, x, f'{m}min',
                              power_type=c['kind'])
    fine = f(p, c['base']).to_numpy()
    coarse = f(p, c['base'] * c['k']).to_numpy()
    ctx.nontrivial()
    sc = max(1.0, np.abs(fine).max() * c['k'])
    ctx.close('coarse energy is the sum of the fine energies', coarse,
              fine.reshape(-1, c['k']).sum(axis=1), atol=1e-10 * sc)
    ctx.close('linearity', f(p * c['lam'], c['base']).to_numpy(), c['lam'] * fine,
              atol=1e-10 * sc * abs(c['lam']))


FACETS = [
    Facet('integral', cases, check, 4000, 60000,
          'non-trivial: result has a finite value and the case has a long gap, NaN power or a '
          'frequency change'),
    Facet('single', single_cases, check_single, 300, 1500, 'all cases'),
    Facet('calendar', month_cases, check_month, 400, 4000, 'a finite energy is expected'),
    Facet('conservation', split_cases, check_split, 800, 6000, 'all cases'),
]
