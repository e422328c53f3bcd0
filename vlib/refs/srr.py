"""SRR soiling: generated daily histories and a reference for the interval analysis."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import theilslopes

from .. import gen
from .clip import qtl


class Tie(Exception):
    pass


@st.composite
def history(draw, zones=gen.TZS, max_len=420):
    n = draw(st.integers(60, max_len))
    seg = st.fixed_dictionaries(dict(
        length=st.sampled_from([8, 15, 25, 40, 60, 90]),
        rate=st.sampled_from([-0.0005, -0.002, -0.004, -0.001, 0.0, 0.0008]),
        clean=st.sampled_from([1.0, 1.0, 0.98, 0.9, 0.5]),
        step=st.sampled_from([0.0, 0.0, 0.0, 0.0, -0.03, -0.1]),
        hole=st.sampled_from([0, 0, 0, 3, 13, 14, 20])))
    return dict(n=n, segs=draw(st.lists(seg, min_size=2, max_size=12)), seed=draw(gen.seed32),
                noise=draw(st.sampled_from([0.0005, 0.002, 0.01])),
                level=draw(st.sampled_from([1.0, 0.8, 250.0, 0.01])),
                nan=draw(st.sampled_from([0.0, 0.0, 0.02, 0.1])),
                zero=draw(st.sampled_from([0.0, 0.0, 0.02])),
                start=draw(st.sampled_from(['2015-01-01', '2016-02-10', '2019-09-20', '2014-12-31', '2015-03-10'])),
                tz=draw(st.sampled_from(zones)), wet=draw(st.sampled_from([0.0, 0.02, 0.1])),
                rain_day=draw(st.sampled_from([0, 0, 1, -1, 2, -2])),
                insol_nan=draw(st.sampled_from([0.0, 0.0, 0.03])),
                edge=draw(st.sampled_from([0, 0, 3, 20])))


def build(c):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n = c['n']
    idx = pd.date_range(c['start'], periods=n, freq='D', tz=c['tz'])
    v = np.empty(n)
    rain = np.zeros(n)
    level, i, k = 1.0, 0, 0
    missing = np.zeros(n, bool)
    while i < n:
        s = c['segs'][k % len(c['segs'])]
        m = min(s['length'], n - i)
        seg = level + s['rate'] * np.arange(m)
        if s['step'] and m > 4:
            seg[m // 2:] += s['step']
        v[i:i + m] = seg
        if s['hole'] and m > 3:
            missing[i + m // 3:i + m // 3 + s['hole']] = True
        level = seg[-1] + (1 - seg[-1]) * s['clean']
        if i and r.random() < 0.7:
            rain[min(n - 1, max(0, i + c.get('rain_day', 0)))] = 0.5
        i += m
        k += 1
    v = v + c['noise'] * r.standard_normal(n)
    v[r.random(n) < c['nan']] = np.nan
    v[r.random(n) < c['zero']] = 0.0
    if c['edge']:
        missing[:c['edge']] = True
    if np.isfinite(v[~missing]).any():
        v[missing] = np.nan     # there has to be something to analyse
    rain[r.random(n) < c['wet']] = 0.2
    rain[r.random(n) < 0.03] = 0.005
    insol = 4000 + 2500 * np.sin(np.arange(n) / 58.0) + 500 * r.standard_normal(n)
    insol = np.clip(insol, 100, None)
    insol[r.random(n) < c['insol_nan']] = np.nan
    return (pd.Series(v * c['level'], index=idx, name='energy'),
            pd.Series(insol, index=idx, name='insol'), pd.Series(rain, index=idx, name='rain'))


def near(a, b, tol=1e-11):
    a = np.asarray(a, float)
    with np.errstate(invalid='ignore'):
        return bool((np.abs(a - b) <= tol * max(1.0, abs(b) if np.isfinite(b) else 1.0)).any())


def intervals(pm, rain, day_scale=13, threshold='infer', recenter=True, criterion='shift',
              precip_threshold=0.01, outlier_factor=1.5, trim=False, max_err=500.0,
              max_step=0.05, min_len=7):
    """The soiling intervals, computed day by day.  Raises Tie when too close to call."""
    v = pm.to_numpy(float)
    ok = np.flatnonzero(~np.isnan(v))
    a, b = ok[0], ok[-1]
    v = v[a:b + 1]
    wet = np.zeros(len(v)) if rain is None else rain.to_numpy(float)[a:b + 1]
    n = len(v)
    first = v[:365]
    renorm = float(np.median(first[~np.isnan(first)])) if recenter else 1.0
    x = v / renorm
    event = np.zeros(n, bool)
    # long outages: the day before and the day after start an interval
    for p in np.flatnonzero(~np.isnan(x)):
        nxt = p + 1
        while nxt < n and np.isnan(x[nxt]):
            nxt += 1
        if nxt < n and nxt - p - 1 > day_scale:
            event[p] = True
            event[nxt] = True
    # forward filled copy, rolling median, steps
    f = x.copy()
    last = -1
    for i in range(n):
        if not np.isnan(x[i]):
            last = i
        elif last >= 0 and i - last <= day_scale:
            f[i] = x[last]
    med = np.full(n, np.nan)
    off = (day_scale - 1) // 2
    for i in range(n):
        lo, hi = i + off - day_scale + 1, i + off + 1
        if lo >= 0 and hi <= n and not np.isnan(f[lo:hi]).any():
            med[i] = np.median(f[lo:hi])
    delta = np.full(n, np.nan)
    delta[1:] = med[1:] - med[:-1]
    d = np.abs(delta[~np.isnan(delta)])
    if threshold == 'infer':
        if len(d) == 0:
            thr = np.nan
        else:
            q3, q1 = qtl(d, 0.75), qtl(d, 0.25)
            thr = q3 + outlier_factor * (q3 - q1)
    else:
        thr = threshold
    if len(d) and 'shift' in criterion and near(delta, thr):
        raise Tie()
    with np.errstate(invalid='ignore'):
        shift = delta > thr
        raining = wet > precip_threshold
    if criterion == 'precip_and_shift':
        nearby = np.array([raining[max(0, i - 1):i + 2].any() for i in range(n)])
        event |= shift & nearby
    elif criterion == 'precip_or_shift':
        event |= shift | raining
    elif criterion == 'precip':
        event |= raining
    else:
        event |= shift
    starts = [0] + [i for i in range(1, n) if event[i]]
    runs = [(s, (starts[k + 1] if k + 1 < len(starts) else n) - 1) for k, s in enumerate(starts)]
    if trim:
        runs = runs[1:-1]
    out = []
    x0 = np.where(np.isnan(x), 0.0, x)
    d0 = np.where(np.isnan(delta), 0.0, delta)
    for s, e in runs:
        days = np.arange(s, e + 1)
        good = days[x0[s:e + 1] > 0]
        use = good if len(good) else days
        row = dict(s=s, e=e, length=e - s, rate=0.0, low=0.0, high=0.0, valid=False,
                   start=x0[use].mean(), end=x0[use].mean())
        if len(use) > min_len and x0[use].sum() > 0:
            sl, ic, lo, hi = theilslopes(x0[use], use)
            row.update(rate=sl, low=lo, high=min(0.0, hi), start=ic + sl * s, end=ic + sl * e,
                       valid=True)
            bad = sl > 0
            if sl != 0:
                err = (row['high'] - lo) / abs(sl)
                if near(err, max_err / 100):
                    raise Tie()
                bad |= err >= max_err / 100
            elif row['high'] - lo > 0:
                bad = True
            if abs(sl) < 1e-13 and sl != 0:
                raise Tie()
            neg = d0[use].min()
            if near(neg, -max_step):
                raise Tie()
            bad |= neg <= -max_step
            if bad:
                row.update(rate=0.0, low=0.0, high=0.0, valid=False)
        out.append(row)
    return dict(first=a, renorm=renorm, rows=out, x=x)


OPTIONS = st.fixed_dictionaries({}, optional=dict(
    day_scale=st.sampled_from([13, 7, 5, 9, 14]),
    clean_threshold=st.sampled_from(['infer', 0.01, 0.03]),
    clean_criterion=st.sampled_from(['shift', 'precip_and_shift', 'precip_and_shift', 'precip_or_shift', 'precip']),
    precip_threshold=st.sampled_from([0.01, 0.1, 0.3, 0.001]),
    min_interval_length=st.sampled_from([7, 2, 14, 20]),
    max_relative_slope_error=st.sampled_from([500.0, 50.0, 5000.0, 150.0]),
    max_negative_step=st.sampled_from([0.05, 0.01, 0.5]),
    outlier_factor=st.sampled_from([1.5, 0.5, 4.0]),
    recenter=st.booleans(), trim=st.booleans()))


def ref_args(o):
    names = dict(day_scale='day_scale', clean_threshold='threshold', clean_criterion='criterion',
                 precip_threshold='precip_threshold', min_interval_length='min_len',
                 max_relative_slope_error='max_err', max_negative_step='max_step',
                 outlier_factor='outlier_factor', recenter='recenter', trim='trim')
    return {names[k]: v for k, v in o.items()}
