"""Clipping filters: shared generator and independent reference implementations."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen

STEPS = [1, 2, 5, 9, 10, 15, 15, 20, 30, 60]

STARTS = ['2019-05-01 00:00', '2019-05-01 08:00', '2018-11-20 13:07']
# the day before the clock changes
CHANGES = {'America/Denver': ['2019-11-02 00:00', '2019-03-09 05:00', '2019-11-02 08:00'],
           'Australia/Sydney': ['2019-04-05 08:00', '2019-10-04 08:00', '2019-04-05 00:00'],
           'Europe/Berlin': ['2019-03-29 08:00', '2019-10-25 08:00', '2019-10-26 00:00', '2019-03-30 00:00'] * 2}


@st.composite
def plant(draw, steps=tuple(STEPS), max_days=5):
    step = draw(st.sampled_from(steps))
    zone = draw(st.sampled_from(gen.TZS + ['Europe/Berlin']))
    days = draw(st.integers(1 if step < 60 else 2, 3 if step < 5 else max_days))
    day = st.fixed_dictionaries(dict(
        kind=st.sampled_from(['clip', 'clip', 'clip', 'clip2', 'clear', 'cloudy', 'frozen', 'nan',
                              'low', 'dim']),
        level=st.sampled_from([0.7, 0.7, 0.7, 0.72, 0.69, 0.5, 0.3]),
        wob=st.sampled_from([0.0, 0.0, 0.0005, 0.002, 0.01]),
        cloud=st.sampled_from([0.0, 0.0, 0.05, 0.2])))
    return dict(step=step, days=draw(st.lists(day, min_size=days, max_size=days)),
                seed=draw(gen.seed32), tz=zone, scale=draw(st.sampled_from(
                    [1.0, 1000.0, 5.5e6, 0.003])),
                wide=draw(st.booleans()), start=draw(st.sampled_from(STARTS + CHANGES.get(zone, []))),
                night=draw(st.sampled_from(['zero', 'nan', 'drop', 'neg'])),
                drop=draw(st.sampled_from([0.0, 0.0, 0.02, 0.2])),
                jitter=draw(st.sampled_from([0, 0, 0, 1])))


def build(c):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n = len(c['days']) * 1440 // c['step']
    idx = gen.regular_index(c['start'], c['step'], n, None)
    if c['tz'] is not None:
        idx = idx.tz_localize('Etc/GMT+7').tz_convert(c['tz'])
    mins = np.arange(n) * c['step'] + int(c['start'][11:13]) * 60 + int(c['start'][14:])
    d0 = mins // 1440
    h = (mins % 1440) / 60.0
    elev = np.clip(np.cos((h - 12.3) / 12 * np.pi), 0, None)
    base = np.clip(elev * 1.9, 0, 1) * (1 - 0.06 * ((h - 12.3) / 4) ** 2) if c['wide'] else elev
    base = np.clip(base, 0, None)
    v = np.zeros(n)
    for k in range(int(d0.max()) + 1):
        spec = c['days'][k % len(c['days'])]
        m = d0 == k
        x = base[m].copy()
        cl = r.random(m.sum()) < spec['cloud']
        x[cl] *= r.uniform(0.2, 0.95, cl.sum())
        kind = spec['kind']
        if kind in ('clip', 'clip2'):
            lev = np.full(m.sum(), spec['level'])
            if kind == 'clip2':
                lev[h[m] > 12] *= r.choice([0.99, 0.97, 0.9])
            lev = lev * (1 + spec['wob'] * (r.random(m.sum()) - 0.5))
            x = np.minimum(x, lev)
        elif kind == 'cloudy':
            x *= r.uniform(0.1, 1.0, m.sum())
        elif kind == 'frozen':
            x[:] = spec['level']
        elif kind == 'nan':
            x[r.random(m.sum()) < 0.7] = np.nan
        elif kind == 'low':
            x *= 0.3
        elif kind == 'dim':
            x = np.minimum(x, spec['level']) * 0.06
        v[m] = x
    night = base <= 0.0
    keep = np.ones(n, bool)
    if c['night'] == 'nan':
        v[night & (r.random(n) < 0.9)] = np.nan
    elif c['night'] == 'drop':
        keep &= ~night | (r.random(n) < 0.02)
    elif c['night'] == 'neg':
        v = np.where(night, -0.001, v)
    keep &= r.random(n) >= c['drop']
    idx, v = idx[keep], v[keep]
    if c['jitter']:
        j = r.integers(0, 20, len(idx))
        idx = idx + pd.to_timedelta(np.where(r.random(len(idx)) < 0.1, j, 0), unit='s')
    return pd.Series(v * c['scale'], index=idx, name='pw')


def days_of(idx):
    """Integer number of the local calendar day of every timestamp."""
    loc = idx.tz_localize(None) if idx.tz is not None else idx
    return (loc.as_unit('ns').to_numpy().astype('int64') // 86400_000_000_000)


def mode_step(idx):
    """Most common step in minutes (the smallest of equally common ones)."""
    d = np.diff(gen.ns(idx))
    vals, cnt = np.unique(d, return_counts=True)
    return float(vals[np.argmax(cnt)] / 60e9)


def qtl(x, q):
    x = np.sort(x)
    if not len(x):
        return np.nan
    p = q * (len(x) - 1)
    lo = int(np.floor(p))
    hi = min(lo + 1, len(x) - 1)
    return x[lo] + (x[hi] - x[lo]) * (p - lo)


def robust_q(x, q):
    small = qtl(np.where(np.isnan(x), 0.0, x), q) / 1000
    return qtl(x[~np.isnan(x) & (x > small)], q)


def grid_interp(t, v, step_ns, max_gap=None):
    good = ~np.isnan(v)
    gt, gv = t[good], v[good]
    grid = np.arange(t[0], t[-1] + 1, step_ns)
    out = np.full(len(grid), np.nan)
    if len(gt) == 0:
        return grid, out
    mg = 2 * np.median(np.diff(gt)) if len(gt) > 1 else np.nan
    j = np.searchsorted(gt, grid)
    for i, g in enumerate(grid):
        k = j[i]
        if k < len(gt) and gt[k] == g:
            out[i] = gv[k]
        elif 0 < k < len(gt) and gt[k] - gt[k - 1] <= mg:
            w = (g - gt[k - 1]) / (gt[k] - gt[k - 1])
            out[i] = gv[k - 1] + (gv[k] - gv[k - 1]) * w
    return grid, out


class Tie(Exception):
    pass


def near(a, b, tol=1e-10):
    """Comparison too close to call (relative)?  Exact equality is fine and not near."""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    with np.errstate(invalid='ignore'):
        d = np.abs(a - b)
        return bool(np.any((d > 0) & (d <= tol * np.maximum(np.abs(a), np.abs(b)))))


def logic_reference(s, mounting, cutoff, rolls):
    t, v = gen.ns(s.index), s.to_numpy(float)
    day = days_of(s.index)
    step = mode_step(s.index)
    # 1. days that are mostly frozen carry no information
    clean = v.copy()
    for d in np.unique(day):
        x = v[(day == d)]
        x = x[~np.isnan(x)]
        if len(x) > 1 and np.mean(x) != 0:
            rel = np.std(x, ddof=1) / np.mean(x)
            if near(rel, 0.1):
                raise Tie()
            if rel < 0.1:
                clean[day == d] = np.nan
        elif len(x) > 1:
            raise Tie()
    # 2. working grid
    if step >= 10:
        grid, w = grid_interp(t, clean, int(round(step * 60e9)))
        wstep = step
    else:
        q = 15 * 60 * 10**9
        loc = s.index.tz_localize(None) if s.index.tz is not None else s.index
        off = loc.as_unit('ns').to_numpy().astype('int64') - t
        if len(np.unique(off)) > 1:
            raise Tie()
        b = (t + off[0]) // q
        grid = np.arange(b.min(), b.max() + 1)
        w = np.full(len(grid), np.nan)
        for k, g in enumerate(grid):
            x = clean[b == g]
            x = x[~np.isnan(x)]
            if len(x):
                w[k] = np.median(x)
        grid = grid * q - off[0]
        wstep = 15
    if rolls is None:
        rolls = 5 if (mounting == 'single_axis_tracking' and wstep < 30) else 3
    # 3. lower tenth of each day
    gidx = pd.DatetimeIndex(grid, tz='UTC')
    gidx = gidx.tz_convert(s.index.tz) if s.index.tz is not None else gidx.tz_localize(None)
    gday = days_of(gidx)
    for d in np.unique(gday):
        m = gday == d
        if np.all(np.isnan(w[m])):
            continue
        lim = 0.1 * np.nanmax(w[m])
        if near(w[m], lim):
            raise Tie()
        w[m & (w < lim)] = np.nan
    # 4. flat windows
    n = len(w)
    flat = np.zeros(n, bool)
    for i in range(n - rolls + 1):
        x = w[i:i + rolls]
        if np.isnan(x).any():
            continue
        hi, lo = x.max(), x.min()
        if hi + lo == 0:
            continue
        rel = (hi - lo) / ((hi + lo) / 2) * 100
        if hi > lo and near(rel, cutoff, 1e-6):
            raise Tie()
        if rel < cutoff:
            flat[i] = True
    clip = np.zeros(n, bool)
    for i in range(rolls - 1, n):
        clip[i] = flat[i - rolls + 1:i + 1].any()
    # 5. back on the original stamps; daily levels
    pos = np.searchsorted(grid, t, side='right') - 1
    c0 = clip[pos]
    final = np.zeros(len(v), bool)
    for d in np.unique(day):
        m = day == d
        x = v[m & c0]
        if step < 10:
            full = np.where(c0[m], v[m], np.nan)
            hi, lo = robust_q(full, 0.99), robust_q(full, 0.075)
        else:
            x = x[~np.isnan(x)]
            if not len(x):
                continue
            hi, lo = x.max(), x.min()
        if np.isnan(hi) or np.isnan(lo):
            continue
        if near((hi - lo) / hi, 0.025, 1e-9):
            raise Tie()
        if step < 10 and (near(v[m], hi) or near(v[m], lo)):
            raise Tie()
        if (hi - lo) / hi <= 0.025:
            final[m] = (lo <= v[m]) & (v[m] <= hi)
        elif (hi - lo) / hi > 0.025:
            for lev in (hi, lo):
                if near(v[m], lev * 1.0025) or near(v[m], lev * 0.9975):
                    raise Tie()
                final[m] |= (v[m] <= lev * 1.0025) & (v[m] >= lev * 0.9975)
    # 6. overall threshold
    cp = v[final]
    overall = False
    if len(cp):
        qa, qc = robust_q(clean, 0.99), robust_q(cp, 0.99)
        p = abs((qa - qc) / ((qa + qc) / 2))
        if near(p, 0.005, 1e-9) or near(clean, qa):
            raise Tie()
        if p < 0.005 and len(cp) / len(v) * 100 > 4:
            overall = True
            final |= clean >= qa
    return final, dict(step=step, overall=overall, found=bool(c0.any()))
