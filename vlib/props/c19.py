"""C19: system outages - detection, classification and energy accounting."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools.availability import AvailabilityAnalysis
from ..core import Facet
from .. import gen
from ..refs import avail

RULE = ('plants with real, communication and mixed outages across nights and at the data ends; '
        'outages, error bounds, energy accounting and loss time series recomputed by loops')
ASSUMPTIONS = ['at least four normal daylight intervals', 'an outage that starts with the data '
               'has more than one stamp', 'verdicts within 1e-9 of a bound are not judged']


@st.composite
def cases(draw):
    return dict(p=draw(avail.plant()), q=draw(st.sampled_from([None, None, [0.01, 0.99],
                                                              [0.1, 0.9], [0.25, 0.6]])),
                glitch=draw(st.sampled_from([None, None, None, 'reset', 'dip'])))


def glitch(c, cum):
    """Cumulative meters that lose count: the outage cannot be classified."""
    if c['glitch'] is None:
        return cum
    k = len(cum) // 2
    out = cum.copy()
    drop = 0.5 if c['glitch'] == 'reset' else 1e-4
    out.iloc[k:] -= drop * (cum.max() - cum.min())
    return out


def check(c, ctx):
    meter, sub, cum, exp = avail.build(c['p'])
    cum = glitch(c, cum)
    m, s, e, cu = (x.to_numpy(float) for x in (meter, sub, exp, cum))
    dt = c['p']['step'] / 60
    q = c['q'] or [0.01, 0.99]
    try:
        loss_sub, online, judged, sizes = avail.subsystem(m, s)
        factor, resc, e_resc, table, rows = avail.errors(m, e, loss_sub, dt, q)
    except avail.Tie:
        ctx.label('not enough data')
        return
    if not judged.all() or any(v is None for v in table.values()) or not table:
        ctx.label('tie')
        return
    runs = avail.outages(e, online)
    if any(a == 0 and b == 0 for a, b in runs):
        ctx.label('one-stamp outage at the start')
        return
    if any(a == 0 and b == len(m) - 1 for a, b in runs):
        return
    a = AvailabilityAnalysis(meter, sub, cum, exp)
    ctx.call('run', a.run, **({} if c['q'] is None else dict(quantiles=tuple(q))))
    unit = sizes.sum() * c['p']['scale']
    ctx.series('rescaled expected power', a.power_expected_rescaled, pd.Series(resc, index=exp.index), 1e-9)
    ctx.series('rescaled expected energy', a.energy_expected_rescaled, pd.Series(e_resc, index=exp.index), 1e-9)
    got_err = a.error_info
    for w in table:
        g = np.sort(got_err.loc[got_err['window length'] == w, 'error'].dropna().to_numpy())
        ctx.require(len(g) == len(rows[w]) and np.allclose(g, np.sort(rows[w]), rtol=1e-6, atol=1e-8),
                    f'errors of windows of {w} intervals differ')
    ctx.require(sorted(got_err['window length'].unique()) == sorted(table), 'window lengths differ')
    info = a.outage_info
    ctx.require(len(info) == len(runs), f'{len(info)} outages found, expected {len(runs)}')
    ctx.nontrivial(len(runs) > 0)
    e_raw = avail.interval_energy(e.copy(), dt)
    want_loss = np.zeros(len(m))
    want_cum = cu.copy()
    cum_open = np.zeros(len(m), bool)
    for (i, j), (_, row) in zip(runs, info.iterrows()):
        ctx.require(row['start'] == meter.index[i] and row['end'] == meter.index[j],
                    f"outage {row['start']}..{row['end']}, expected {meter.index[i]}..{meter.index[j]}")
        with np.errstate(invalid='ignore'):
            day = int((e[i:j + 1] > 0).sum())
        ctx.require(row['intervals'] == j - i + 1 and row['daylight_intervals'] == day
                    and row['duration'] == meter.index[j] - meter.index[i], 'outage size wrong')
        energy = np.nansum(e_resc[i:j + 1])
        lo, hi = avail.bound(table, day, 0), avail.bound(table, day, 1)
        before = cu[max(i - 1, 0)]
        actual = cu[j] - before
        ctx.close('expected energy of the outage', row['energy_expected'], energy, 1e-9, 1e-9 * unit)
        ctx.close('error bound', [row['error_lower'], row['error_upper']], [lo, hi], 1e-6, 1e-8)
        ctx.close('energy bounds', [row['ci_lower'], row['ci_upper']],
                  [(1 + lo) * energy, (1 + hi) * energy], 1e-6, 1e-7 * unit)
        ctx.close('energy at the ends', [row['energy_start'], row['energy_end']], [before, cu[j]],
                  1e-12, 0)
        tie = False
        if np.isnan(actual) or actual < -0.05 * energy:
            kind, lossv, actual_v = 'unknown', np.nan, np.nan
            tie = abs(actual + 0.05 * energy) < 1e-9 * unit if not np.isnan(actual) else False
        else:
            tie = abs(actual - (1 + lo) * energy) < 1e-7 * max(energy, unit) \
                or abs(actual + 0.05 * energy) < 1e-9 * unit
            kind = 'real' if actual < (1 + lo) * energy else 'comms'
            lossv, actual_v = (energy - actual if kind == 'real' else 0.0), actual
        if tie:
            ctx.label('classification tie')
            return
        ctx.label(kind)
        ctx.require(row['type'] == kind, f"outage is {row['type']}, expected {kind} "
                    f'(actual {actual}, lower bound {(1 + lo) * energy})')
        ctx.close('outage loss', row['loss'], lossv, 1e-9, 1e-9 * unit)
        ctx.close('outage production', row['energy_actual'], actual_v, 1e-9, 1e-9 * unit)
        tot = np.nansum(e_raw[i:j + 1])
        if tot == 0:
            return
        want_loss[i:j + 1] = e[i:j + 1] * lossv / tot
        want_cum[i:j + 1] = before + np.cumsum(np.where(np.isnan(e_raw[i:j + 1]), 0,
                                                        e_raw[i:j + 1])) * actual_v / tot
        cum_open[i:j + 1] = np.isnan(e_raw[i:j + 1])
        if kind == 'real' and not np.isnan(e[i:j + 1]).any() and i > 0 and not np.isnan(e[i - 1]):
            g = np.nansum(a.loss_system.to_numpy()[i:j + 1]) * dt
            ctx.close('lost energy of the outage as a time series', g, lossv, 1e-9, 1e-9 * unit)
    ctx.series('loss time series', a.loss_system, pd.Series(want_loss, index=meter.index), 1e-9, 1e-9 * unit)
    gc = a.energy_cumulative_corrected
    ctx.same_index('corrected cumulative energy', gc.index, meter.index)
    keep = ~cum_open
    ctx.close('corrected cumulative energy', gc.to_numpy()[keep], want_cum[keep], 1e-9, 1e-8 * unit)


FACETS = [Facet('outages', cases, check, 800, 10000, 'a system outage occurs')]
