"""Availability analysis: generated plants and a plain numpy reference."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen


@st.composite
def plant(draw, outages=True):
    step = draw(st.sampled_from([15, 30, 60, 60]))
    days = draw(st.integers(3, 9))
    if draw(st.integers(0, 13)) == 13:
        # long enough for outages of hundreds of daylight intervals
        step, days = 60, draw(st.sampled_from([55, 80, 110]))
    n = days * 1440 // step
    nsub = draw(st.sampled_from([2, 3, 4, 5, 1]))
    per = 1440 // step
    ev = st.fixed_dictionaries(dict(
        day=st.integers(0, days - 1), hour=st.sampled_from([-3, 0, 2, 4, -5, -7, -12, 6, 8]),
        length=st.one_of(st.integers(1, 8), st.integers(per // 8, per // 2),
                         st.integers(1, (3 if days < 10 else days // 2) * per)),
        kind=st.sampled_from(['sub', 'sub', 'sub', 'subnan', 'comms', 'real', 'real',
                              'mixed', 'quiet'] if outages else ['sub', 'sub', 'subnan', 'quiet']),
        who=st.integers(1, 2 ** nsub - 1), frac=st.sampled_from([0.0, 0.3, 0.5, 0.9]),
        cum=st.sampled_from([True, True, False])))
    return dict(step=step, n=n, nsub=nsub,
                sizes=draw(st.lists(st.sampled_from([1.0, 1.0, 2.0, 0.5, 3.0]), min_size=nsub,
                                    max_size=nsub)),
                events=draw(st.lists(ev, min_size=draw(st.sampled_from([1, 2, 0])), max_size=5)), seed=draw(gen.seed32),
                tz=draw(gen.tz), noise=draw(st.sampled_from([0.0, 0.01, 0.05])),
                model=draw(st.sampled_from([1.0, 1.3, 0.8])),
                scale=draw(st.sampled_from([1.0, 100.0, 0.01])),
                phase=draw(st.sampled_from([12, 12, 2])), start=draw(st.sampled_from(
                    ['2019-05-01 00:00', '2019-01-28 00:00', '2019-05-01 09:00'])),
                freqd=draw(st.booleans()), night=draw(st.sampled_from(['zero', 'tare', 'nan'])),
                meter_neg=draw(st.sampled_from([0.0, 0.0, 0.01])), meter_nan=draw(st.sampled_from([0.0, 0.0, 0.02])),
                exp_nan=draw(st.sampled_from([0.0, 0.0, 0.0, 0.01])))


def build(c):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n = c['n']
    idx = pd.date_range(c['start'], periods=n, freq=f"{c['step']}min")
    if c['tz'] is not None:
        idx = idx.tz_localize('UTC').tz_convert(c['tz'])
    if not c['freqd']:
        idx = pd.DatetimeIndex(list(idx), name='when')
    h = (np.arange(n) * c['step'] / 60 + int(c['start'][11:13])) % 24
    elev = np.clip(np.cos((h - c['phase']) / 12 * np.pi), 0, None)
    elev[elev < 0.02] = 0
    weather = np.repeat(r.uniform(0.4, 1.0, n // 4 + 1), 4)[:n]
    sizes = np.array(c['sizes'])
    unit = elev * weather
    expected = unit * sizes.sum() * c['model'] * (1 + c['noise'] * r.standard_normal(n))
    expected[elev == 0] = 0
    expected = np.clip(expected, 0, None)
    sub = unit[:, None] * sizes * (1 + c['noise'] * 0.3 * r.standard_normal((n, len(sizes))))
    sub = np.clip(sub, 0, None)
    comm_sub = np.zeros((n, len(sizes)), bool)
    comm_meter = np.zeros(n, bool)
    comm_cum = np.zeros(n, bool)
    for e in c['events']:
        at = e['day'] * (1440 // c['step']) + (c['phase'] + e['hour'] - int(c['start'][11:13])) \
            * 60 // c['step']
        at = min(max(at, 0), n - 1)
        sl = slice(at, min(n, at + e['length']))
        m = sl.stop - sl.start
        who = np.array([(e['who'] >> k) & 1 for k in range(len(sizes))], bool)
        if e['kind'] == 'sub':
            sub[sl, who] = 0.0
        elif e['kind'] == 'subnan':
            comm_sub[sl, who] = True           # data lost, production goes on
        elif e['kind'] == 'comms':
            comm_sub[sl] = True
            comm_meter[sl] = True
            comm_cum[sl] |= not e['cum']
        elif e['kind'] == 'real':
            sub[sl] = 0.0
        elif e['kind'] == 'mixed':
            k = sl.start + int(m * e['frac'])
            sub[k:sl.stop] = 0.0
            comm_sub[sl] = True
            comm_meter[sl] = True
            comm_cum[sl] |= not e['cum']
        elif e['kind'] == 'quiet':
            sub[sl] *= 1e-5
    meter = sub.sum(axis=1)
    if c['night'] == 'tare':
        meter = np.where(elev == 0, meter - 0.002 * sizes.sum(), meter)
    cum = 1234.5 + np.cumsum(meter * c['step'] / 60)
    meter_obs = meter.copy()
    cum_obs = cum.copy()
    meter_obs[comm_meter] = np.nan
    cum_obs[comm_cum] = np.nan
    sub_obs = sub.copy()
    sub_obs[comm_sub] = np.nan
    if c['night'] == 'nan':
        sub_obs[elev == 0] = np.nan
    meter_obs[r.random(n) < c['meter_nan']] = np.nan
    if c.get('meter_neg'):
        # a meter that briefly reads reversed power
        meter_obs = np.where(r.random(n) < c['meter_neg'], -np.abs(meter_obs) - 0.01 * sizes.sum(), meter_obs)
    expected[r.random(n) < c['exp_nan']] = np.nan
    k = c['scale']
    return (pd.Series(meter_obs * k, index=idx, name='meter'),
            pd.DataFrame(sub_obs * k, index=idx, columns=[f'inv{j}' for j in range(len(sizes))]),
            pd.Series(cum_obs * k, index=idx, name='cum'),
            pd.Series(expected * k, index=idx, name='exp'))


class Tie(Exception):
    pass


def near(a, b, tol=1e-9):
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    with np.errstate(invalid='ignore'):
        d = np.abs(a - b)
        return (d <= tol * np.maximum(np.abs(a), np.abs(b))) & (np.abs(a) + np.abs(b) > 0)


def q_lin(x, q):
    x = np.sort(x[~np.isnan(x)])
    if not len(x):
        return np.nan
    p = q * (len(x) - 1)
    lo = int(np.floor(p))
    hi = min(lo + 1, len(x) - 1)
    return x[lo] + (x[hi] - x[lo]) * (p - lo)


def subsystem(meter, sub, low=None, sizes=None, limit=None):
    """Returns loss, online mask, judged mask."""
    n, k = sub.shape
    s = np.where(np.isnan(sub), 0.0, sub)
    p = np.where(meter < 0, 0.0, meter)
    low = np.array([q_lin(s[:, j], 0.99) / 1000 for j in range(k)]) if low is None \
        else np.broadcast_to(np.asarray(low, float), (k,))
    online = s > low
    judged = ~near(s, low).any(axis=1)
    if sizes is None:
        norm = np.full((n, k), np.nan)
        for i in range(n):
            if online[i].any():
                norm[i, online[i]] = s[i, online[i]] / s[i, online[i]].mean()
        sizes = np.array([np.nanmedian(norm[:, j]) if online[:, j].any() else np.nan
                          for j in range(k)])
    sizes = np.asarray(sizes, float)
    if np.isnan(sizes).any():
        raise Tie()        # a subsystem that never produces has no size
    frac = sizes / sizes.sum()
    loss = np.zeros(n)
    lim = None if limit is None else np.broadcast_to(np.asarray(limit, float), (n,))
    for i in range(n):
        on = online[i]
        if not on.any() or np.isnan(p[i]):
            continue
        full = (s[i, on] / sizes[on]).mean() * k
        share = p[i] / full
        if not on.all():
            small = frac[~on].min()
            if abs((1 - share) - 0.75 * small) < 1e-9:
                judged[i] = False
            if 1 - share > 0.75 * small:
                f = min(max(share, frac[on].sum()), 1.0)
                loss[i] = (1 - f) / f * p[i]
        if lim is not None and loss[i] + p[i] > lim[i]:
            loss[i] = max(lim[i] - p[i], 0)
    return loss, online, judged, sizes


def hours(idx):
    return np.median(np.diff(gen.ns(idx))) / 3600e9


def interval_energy(p, dt):
    """Right-labelled energy; none for the first stamp nor next to a missing sample (a gap)."""
    e = p * dt
    e[0] = np.nan
    e[1:][np.isnan(p[:-1])] = np.nan
    return e


def errors(meter, expected, loss_sub, dt, quantiles):
    """Rescaled expected power, its interval energy, and error quantiles per window length."""
    with np.errstate(invalid='ignore'):
        normal = (loss_sub == 0) & (meter > 0) & (expected > 0)
    if normal.sum() < 4:
        raise Tie()
    factor = expected[normal].sum() / meter[normal].sum()
    resc = expected / factor
    e_exp, e_act = interval_energy(resc.copy(), dt), interval_energy(meter.copy(), dt)
    a, b = e_act[normal], e_exp[normal]
    out = {}
    rows = {}
    w = 2
    while w < 2 ** int(np.log2(normal.sum())):
        ea, ee = [], []
        for i in range(len(a) - w + 1):
            ea.append(a[i:i + w].sum())
            ee.append(b[i:i + w].sum())
        ea, ee = np.array(ea), np.array(ee)
        ok = ~np.isnan(ea) & ~np.isnan(ee)
        err = ea[ok] / ee[ok] - 1
        rows[w] = err
        out[w] = (q_lin(err, quantiles[0]), q_lin(err, quantiles[1])) if len(err) else None
        w *= 2
    return factor, resc, e_exp, out, rows


def bound(table, n, which):
    ws = sorted(table)
    return float(np.interp(n, ws, [table[w][which] for w in ws]))


def outages(expected, online):
    """List of (first, last) positions of the system outages."""
    with np.errstate(invalid='ignore'):
        day = expected > 0
    off = ~online.any(axis=1)
    n = len(off)
    prev = nxt = False
    before, after = np.zeros(n, bool), np.zeros(n, bool)
    for i in range(n):
        prev = off[i] if day[i] else prev
        before[i] = prev
    for i in reversed(range(n)):
        nxt = off[i] if day[i] else nxt
        after[i] = nxt
    full = before | after
    runs, i = [], 0
    while i < n:
        if full[i]:
            j = i
            while j + 1 < n and full[j + 1]:
                j += 1
            runs.append((i, j))
            i = j + 1
        else:
            i += 1
    return runs
