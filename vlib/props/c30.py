"""C30: figures show exactly the data and results they are given."""
import warnings

import matplotlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

matplotlib.use('Agg')
import matplotlib.dates as mdates                                        # noqa: E402
import matplotlib.pyplot as plt                                          # noqa: E402
from matplotlib.colors import to_hex                                     # noqa: E402

from rdtools import TrendAnalysis, degradation, plotting                 # noqa: E402
from ..core import Facet                                                 # noqa: E402
from ..refs import avail, chain, chainrun                                # noqa: E402
from .. import gen                                                       # noqa: E402

RULE = ('generated analysis results (from the library or made up) and display options; the artists of the '
        'figure are read back and compared with the data')
ASSUMPTIONS = ['matplotlib and plotly render what their artists hold']


def num(x):
    """Plot coordinates of time stamps."""
    x = np.asarray(x)
    if x.dtype.kind in 'fi':
        return x.astype(float)
    return np.asarray(mdates.date2num(pd.DatetimeIndex(x) if x.dtype.kind in 'MO' else x), float)


def stamps(index):
    return np.asarray(mdates.date2num(index), float)


def line(ctx, what, ln, x, y, tol=1e-9):
    ctx.close(what + ' (x)', np.asarray(ln.get_xdata(orig=False), float), x, 1e-12, 1e-6)
    ctx.close(what + ' (y)', np.asarray(ln.get_ydata(orig=False), float), np.asarray(y, float), tol)


def offsets(c):
    return np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)


def draw_fig(ctx, what, fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fig = ctx.call(what, fn, *a, **k)
    fig.canvas.draw()
    return fig


@st.composite
def series(draw, freqs=('D', 'W', 'MS', 'D')):
    f = draw(st.sampled_from(list(freqs)))
    n = draw(st.integers(*dict(D=(740, 1100), W=(106, 160), MS=(25, 40))[f]))
    return dict(freq=f, n=n, seed=draw(gen.seed32), tz=draw(st.sampled_from([None, 'UTC', 'America/Denver'])),
                nan=draw(st.sampled_from([0.0, 0.05])), level=draw(st.sampled_from([1.0, 0.8, 40.0])),
                drop=draw(st.sampled_from([0.0, 0.03])))


def build(c):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    idx = pd.date_range('2014-11-03', periods=c['n'], freq=c['freq'], tz=c['tz'])
    v = c['level'] * (1 - 0.005 * np.arange(c['n']) / c['n'] * 3 + 0.02 * r.standard_normal(c['n']))
    v[r.random(c['n']) < c['nan']] = np.nan
    keep = r.random(c['n']) >= c['drop']
    keep[0] = keep[-1] = True
    return pd.Series(v, index=idx)[keep]


def opts(**kw):
    return st.fixed_dictionaries({}, optional=kw)


@st.composite
def summary_cases(draw):
    return dict(s=draw(series()), recenter=draw(st.booleans()), o=draw(opts(
        hist_xmin=st.sampled_from([-20.0, -3.0]), hist_xmax=st.sampled_from([5.0, 20.0]),
        bins=st.sampled_from([1, 7, 30, 10**6]), scatter_ymin=st.just(0.2), scatter_ymax=st.just(1.7),
        plot_color=st.sampled_from(['C3', 'purple']), summary_title=st.just('My plant'),
        scatter_alpha=st.sampled_from([0.1, 1.0]), detailed=st.booleans())), via=draw(st.booleans()))


def check_summary(c, ctx):
    s, o = build(c['s']), c['o']
    status, out = ctx.outcome(degradation.degradation_year_on_year, s, recenter=c['recenter'])
    if status == 'err':
        ctx.label('not analysed')
        return
    rd, ci, info = out
    v = info['YoY_values']
    fig = draw_fig(ctx, 'degradation_summary_plots', plotting.degradation_summary_plots, rd, ci, info, s, **o)
    ax1, ax2 = fig.axes
    y = s / info['renormalizing_factor']
    pts, sc = offsets(ax1.collections[0]), ax1.collections[0]
    ctx.require(len(ax1.collections) == 1 and len(ax1.lines) == 1 and len(ax2.lines) == 1, 'unexpected artists')
    ctx.close('points (x)', pts[y.notna().to_numpy(), 0], stamps(y.index)[y.notna().to_numpy()], 1e-12, 1e-6)
    ctx.close('points (y)', pts[:, 1], y.to_numpy(), 1e-9)
    ctx.require(sc.get_alpha() == o.get('scatter_alpha', 0.5), f'transparency {sc.get_alpha()}')
    color = o.get('plot_color', 'C0')
    have = [to_hex(x) for x in sc.get_facecolors()]
    if o.get('detailed'):
        use = info['usage_of_points'].reindex(s.index)
        want = [to_hex({0: 'red', 1: 'green', 2: color}[int(u)]) for u in use]
        if len(have) == 1:
            have = have * len(want)
        ctx.require([h for h, k in zip(have, y.notna()) if k] == [w for w, k in zip(want, y.notna()) if k],
                    'colours do not show how often points were used')
    else:
        ctx.require(set(have) == {to_hex(color)}, f'colour {set(have)}')
    years = (s.index[-1] - s.index[0]) / pd.Timedelta(days=365.25)
    ln = ax1.lines[0]
    ctx.close('trend line (x)', np.asarray(ln.get_xdata(orig=False), float), stamps(s.index[[0, -1]]), 1e-12, 1e-6)
    ctx.close('trend line (y)', np.asarray(ln.get_ydata(orig=False), float),
              np.array([1, 1 + rd * years / 100]), 1e-9, abs(rd) / 100 / 365 + 1e-12)
    ctx.close('rate line', np.asarray(ax2.lines[0].get_xdata(), float), np.array([rd, rd]), 1e-12)
    bars = [p for p in ax2.patches if hasattr(p, 'get_height')]
    ctx.require(all(to_hex(b.get_facecolor()) == to_hex(color) for b in bars), 'colour of the histogram')
    n = min(int(o['bins']), len(v)) if 'bins' in o else None
    if n is not None:
        ctx.require(len(bars) == n, f'{len(bars)} bars instead of {n}')
    elif len(v) >= 40:
        ctx.require(len(bars) == len(v) // 40, f'{len(bars)} bars for {len(v)} slopes')
    counts, edges = np.histogram(v, bins=len(bars))
    ctx.close('histogram counts', np.array([b.get_height() for b in bars], float), counts.astype(float), 0)
    ctx.close('histogram edges', np.array([b.get_x() for b in bars]), edges[:-1], 1e-9, 1e-9)
    text = ' '.join(t.get_text() for t in ax2.texts)
    for value in (rd, ci[0], ci[1]):
        ctx.require(f'{value:.2f}' in text, f'{value:.2f} is missing in {text!r}')
    ctx.require((f'n = {len(v)}' in text) == bool(o.get('detailed')), f'number of slopes in {text!r}')
    lim = (ax2.get_xlim(), ax1.get_ylim())
    for k, have in (('hist_xmin', lim[0][0]), ('hist_xmax', lim[0][1]), ('scatter_ymin', lim[1][0]),
                    ('scatter_ymax', lim[1][1])):
        if k in o:
            ctx.close(k, have, o[k], 1e-12)
    title = fig._suptitle.get_text() if fig._suptitle is not None else None
    ctx.require(title == o.get('summary_title'), f'title {title}')
    ctx.nontrivial(len(v) > 1)
    plt.close('all')


@st.composite
def rolling_cases(draw):
    return dict(s=draw(series(('D', 'D', 'W'))), days=draw(st.sampled_from([30, 60, 365, 7, None, None])),
                ci=draw(st.booleans()), given=draw(st.booleans()), color=draw(st.sampled_from([None, 'purple'])),
                width=draw(st.sampled_from([None, 3.0])))


def check_rolling(c, ctx):
    s = build(c['s'])
    status, out = ctx.outcome(degradation.degradation_year_on_year, s)
    if status == 'err':
        ctx.label('not analysed')
        return
    v = out[2]['YoY_values']
    kw = {}
    other = None
    if c['given']:
        kw['fig'], _ = plt.subplots()
        other = plt.figure()
        other.add_subplot(111)
        plt.figure(other.number)
    if c['color']:
        kw['plot_color'] = c['color']
    if c['width']:
        kw['linewidth'] = c['width']
    if c['days'] is not None:
        kw['rolling_days'] = c['days']
    fig = draw_fig(ctx, 'degradation_timeseries_plot', plotting.degradation_timeseries_plot, dict(YoY_values=v),
                   include_ci=c['ci'], **kw)
    days = c['days'] or 365
    if c['given']:
        ctx.require(fig is kw['fig'], 'does not draw into the given figure')
        ctx.require(not other.axes[0].lines and not other.axes[0].get_ylabel(), 'drew into another figure')
    ax = fig.axes[0]
    ctx.require('egradation' in ax.get_ylabel(), f'axis label {ax.get_ylabel()!r}')
    t, x = gen.ns(v.index), v.to_numpy()
    win = days * 86400 * 10**9
    med, lo, hi = (np.full(len(x), np.nan) for _ in range(3))
    for i in range(len(x)):
        a = np.searchsorted(t, t[i] - win, 'right')
        w = x[a:i + 1]
        if len(w) >= max(days // 2, 0) and len(w):
            med[i], lo[i], hi[i] = np.median(w), w.min(), w.max()
    ctx.require(len(ax.lines) == 2, f'{len(ax.lines)} lines')
    line(ctx, 'rolling median', ax.lines[0], stamps(v.index), med)
    ctx.close('overall median', np.asarray(ax.lines[1].get_ydata(), float), np.full(2, np.median(x)), 1e-12)
    if c['color']:
        ctx.require(ax.lines[0].get_color() == c['color'], 'colour')
    if c['width']:
        ctx.require(ax.lines[0].get_linewidth() == c['width'], 'line width')
    ctx.require(len(ax.collections) == int(c['ci']), f'{len(ax.collections)} bands')
    ok = np.isfinite(med)
    if c['ci'] and ok.any():
        # the band encloses the rolling median and stays within the window's range
        verts = np.vstack([p.vertices for p in ax.collections[0].get_paths()]) if ax.collections[0].get_paths() \
            else np.empty((0, 2))
        # a band needs two neighbouring points
        wide = ok & (np.r_[ok[1:], False] | np.r_[False, ok[:-1]])
        if wide.any():
            ctx.require(len(verts) > 0, 'no confidence band')
            key = np.round(stamps(v.index) * 1e5).astype(np.int64)
            vk = np.round(verts[:, 0] * 1e5).astype(np.int64)
            order = np.argsort(key)
            pos = np.clip(np.searchsorted(key[order], vk), 0, len(key) - 1)
            pos = order[pos]
            good = (key[pos] == vk) & wide[pos]
            ctx.require(good.all(), 'band at times without a rolling median')
            low, high = np.full(len(x), np.inf), np.full(len(x), -np.inf)
            np.minimum.at(low, pos, verts[:, 1])
            np.maximum.at(high, pos, verts[:, 1])
            seen = np.unique(pos)
            ctx.require(set(seen) == set(np.flatnonzero(wide)), 'band does not cover all times')
            ctx.require((low[seen] <= med[seen] + 1e-9).all() and (high[seen] >= med[seen] - 1e-9).all(),
                        'band excludes the median')
            ctx.require((low[seen] >= lo[seen] - 1e-9).all() and (high[seen] <= hi[seen] + 1e-9).all(),
                        'band is wider than the data')
            if days >= 60 and len(seen) > 30:
                width(ctx, t, x, win, seen, low, high)
    ctx.nontrivial(ok.sum() > 10)
    plt.close('all')


def width(ctx, t, x, win, seen, low, high):
    """2.5 and 97.5 percentiles of bootstrapped medians, averaged over some windows."""
    r = np.random.Generator(np.random.PCG64(5))
    d, scale = [], []
    for i in seen[::max(1, len(seen) // 40)]:
        w = x[np.searchsorted(t, t[i] - win, 'right'):i + 1]
        m = np.median(r.choice(w, (len(w), 400)), axis=0)
        q = np.percentile(m, [2.5, 97.5])
        d.append([low[i] - q[0], high[i] - q[1]])
        scale.append(q[1] - q[0])
    d, scale = np.mean(d, axis=0), np.mean(scale)
    ctx.require(np.all(np.abs(d) < 0.12 * scale), f'confidence band is off by {d / scale} of its width')
    ctx.label('width')


@st.composite
def soiling_cases(draw):
    return dict(s=draw(series(('D',))), n=draw(st.integers(1, 8)), k=draw(st.sampled_from([None, 0, 1, 3, 50])),
                factor=draw(st.sampled_from([1.0, 0.9, 40.0])), bins=draw(st.sampled_from([None, 3, 12])),
                iv=draw(st.integers(1, 30)), o=draw(opts(ymin=st.just(0.3), ymax=st.just(1.5),
                                                         point_alpha=st.just(0.25), profile_alpha=st.just(0.4),
                                                         point_color=st.just('purple'),
                                                         profile_color=st.just('green'))))


def check_soiling(c, ctx):
    s = build(c['s'])
    r = np.random.Generator(np.random.PCG64(c['s']['seed'] ^ 77))
    profiles = [pd.Series(1 - 0.1 * r.random(200), index=s.index[:200]) for _ in range(c['n'])]
    ratio = pd.Series(1 - 0.1 * r.random(len(s)), index=s.index).where(r.random(len(s)) > 0.2)
    table = pd.DataFrame(dict(soiling_rate=-0.002 * r.random(c['iv']), valid=r.random(c['iv']) < 0.7))
    table.loc[0, 'valid'] = True
    info = dict(renormalizing_factor=c['factor'], stochastic_soiling_profiles=profiles,
                soiling_ratio_perfect_clean=ratio, soiling_interval_summary=table)
    o, y = c['o'], s / c['factor']
    kw = {} if c['k'] is None else dict(profiles=c['k'])
    fig = draw_fig(ctx, 'soiling_monte_carlo_plot', plotting.soiling_monte_carlo_plot, info, s, **o, **kw)
    ax = fig.axes[0]
    want = profiles[:c['k']] if c['k'] is not None else profiles
    ctx.require(len(ax.lines) == 1 + len(want), f'{len(ax.lines) - 1} profiles instead of {len(want)}')
    line(ctx, 'points', ax.lines[0], stamps(s.index), y)
    for i, p in enumerate(want):
        line(ctx, f'profile {i}', ax.lines[1 + i], stamps(p.index), p)
    looks(ctx, ax, o, ax.lines[1:], 'C1', 0.05)
    fig = draw_fig(ctx, 'soiling_interval_plot', plotting.soiling_interval_plot, info, s, **o)
    ax = fig.axes[0]
    ctx.require(len(ax.lines) == 2, 'unexpected artists')
    line(ctx, 'points', ax.lines[0], stamps(s.index), y)
    line(ctx, 'soiling ratio', ax.lines[1], stamps(ratio.index), ratio)
    looks(ctx, ax, o, ax.lines[1:], None, 1)
    fig = draw_fig(ctx, 'soiling_rate_histogram', plotting.soiling_rate_histogram, info, c['bins'])
    ax = fig.axes[0]
    v = 100 * table.soiling_rate[table.valid]
    if c['bins']:
        ctx.require(len(ax.patches) == c['bins'], f'{len(ax.patches)} bars')
    counts, edges = np.histogram(v, bins=len(ax.patches))
    ctx.close('histogram counts', np.array([b.get_height() for b in ax.patches], float), counts.astype(float), 0)
    ctx.close('histogram edges', np.array([b.get_x() for b in ax.patches]), edges[:-1], 1e-9, 1e-9)
    ctx.nontrivial()
    plt.close('all')


def looks(ctx, ax, o, profiles, color, alpha):
    lim = ax.get_ylim()
    for k, have in (('ymin', lim[0]), ('ymax', lim[1])):
        if k in o:
            ctx.close(k, have, o[k], 1e-12)
    ctx.require(ax.lines[0].get_alpha() == o.get('point_alpha', 0.5), 'transparency of the points')
    ctx.require(all(p.get_alpha() == o.get('profile_alpha', alpha) for p in profiles), 'transparency of profiles')
    if 'point_color' in o:
        ctx.require(ax.lines[0].get_color() == o['point_color'], 'colour of the points')
    color = o.get('profile_color', color)
    if color is not None:
        ctx.require(all(to_hex(p.get_color()) == to_hex(color) for p in profiles), 'colour of profiles')


@st.composite
def tune_cases(draw):
    return dict(n=draw(st.integers(1, 80)), seed=draw(gen.seed32), p=draw(st.sampled_from([0.0, 0.3, 0.7, 1.0])),
                name=draw(st.sampled_from([None, 'power', 'pv [W]'])), iname=draw(st.sampled_from([None, 'when'])),
                nan=draw(st.sampled_from([0.0, 0.2])), tz=draw(st.sampled_from([None, 'UTC', 'America/Denver'])),
                shuffle=draw(st.booleans()))


def check_tune(c, ctx):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    idx = pd.date_range('2019-03-01', periods=c['n'], freq='15min', tz=c['tz'], name=c['iname'])
    v = r.random(c['n'])
    v[r.random(c['n']) < c['nan']] = np.nan
    s = pd.Series(v, index=idx, name=c['name'])
    mask = pd.Series(r.random(c['n']) < c['p'], index=idx)
    given = mask.iloc[r.permutation(c['n'])] if c['shuffle'] else mask
    fig = ctx.call('tune_filter_plot', plotting.tune_filter_plot, s, given)
    want = {str(b): s[mask == b] for b in (True, False) if (mask == b).any()}
    have = {t.name: t for t in fig.data}
    ctx.require(set(have) == set(want) and len(fig.data) == len(want), f'traces {sorted(have)}')
    for k, w in want.items():
        t = have[k]
        ctx.require(t.marker.color == dict(True_='blue', False_='goldenrod')[k + '_'], f'{k} is {t.marker.color}')
        ctx.close(f'{k} values', np.asarray(t.y, float), w.to_numpy(), 0)
        x = pd.DatetimeIndex(t.x)
        x = x.tz_localize(None) if x.tz is not None and c['tz'] is None else x
        y = w.index
        if x.tz is None and y.tz is not None:
            ctx.require((x == y.tz_localize(None)).all() or (x == y.tz_convert('UTC').tz_localize(None)).all(),
                        f'{k}: times differ')
        else:
            ctx.require((gen.ns(x) == gen.ns(y)).all(), f'{k}: times differ')
    ctx.nontrivial(len(want) == 2)


def check_availability(c, ctx):
    from rdtools.availability import AvailabilityAnalysis
    b = avail.build(c)
    data = b[:4] if isinstance(b, tuple) else None
    aa = AvailabilityAnalysis(*data)
    ctx.raises('plot before run', TypeError, aa.plot)
    status, out = ctx.outcome(aa.run)
    if status == 'err':
        ctx.label('not analysed')
        return
    fig = draw_fig(ctx, 'AvailabilityAnalysis.plot', aa.plot)
    ax1, ax2, ax3, ax4 = fig.axes
    line(ctx, 'system power', ax1.lines[0], stamps(aa.power_system.index), aa.power_system)
    ctx.require(len(ax2.lines) == aa.power_subsystem.shape[1], 'number of subsystem lines')
    for i in range(aa.power_subsystem.shape[1]):
        line(ctx, f'subsystem {i}', ax2.lines[i], stamps(aa.power_subsystem.index), aa.power_subsystem.iloc[:, i])
    line(ctx, 'lost power', ax3.lines[0], stamps(aa.loss_total.index), aa.loss_total)
    line(ctx, 'cumulative energy', ax4.lines[0], stamps(aa.energy_cumulative.index), aa.energy_cumulative)
    curves = [x for x in ax4.lines if x.get_color() == 'tab:orange']
    bars = [x for x in ax4.collections]
    info = aa.outage_info
    ctx.require(len(curves) == len(info) and len(bars) == len(info), f'{len(curves)} curves for {len(info)} outages')
    e = aa.energy_expected_rescaled
    for k, (_, row) in enumerate(info.iterrows()):
        part = e[(e.index >= row['start']) & (e.index <= row['end'])]
        want = row['energy_start'] + part.cumsum()
        line(ctx, f'expected production in outage {k}', curves[k], stamps(part.index), want, 1e-7)
        seg = bars[k].get_segments()[0]
        if np.isfinite([row['ci_lower'], row['ci_upper']]).all() and np.isfinite(want.iloc[-1]):
            end = want.iloc[-1]
            ctx.close(f'error bar of outage {k}', np.sort(np.asarray(seg)[:, 1]), np.array(
                [end - abs(row['energy_expected'] - row['ci_lower']),
                 end + abs(row['energy_expected'] - row['ci_upper'])]), 1e-7, 1e-9)
            ctx.close(f'place of error bar {k}', np.asarray(seg)[:, 0], np.full(2, stamps(pd.DatetimeIndex(
                [row['end']]))[0]), 1e-9)
    names = [t.get_text() for t in ax4.get_legend().get_texts()]
    ctx.require(len(names) == len(set(names)) == (1 if info.empty else 3), f'legend {names}')
    ctx.nontrivial(len(info) > 0)
    plt.close('all')


@st.composite
def object_cases(draw):
    return dict(seed=draw(gen.seed32), freq=draw(st.sampled_from(['D', 'D', 'W'])),
                order=draw(st.sampled_from([['sensor', 'clearsky'], ['clearsky', 'sensor'], ['sensor'], ['clearsky']])),
                days=draw(st.integers(780, 900)))


def check_object(c, ctx):
    """The plot methods show the results of the analysis asked for."""
    d = chain.build(dict(days=c['days'], step=180, seed=c['seed'], tz='UTC', start='2015-01-01', rate=-0.5, cloud=0.3,
                         nan=0.0, drop=0.0, clip=False, scale=1.0, gamma=-0.004))
    ta = TrendAnalysis(d['pv'], poa_global=d['poa'], temperature_cell=d['tcell'], gamma_pdc=-0.004,
                       aggregation_freq=c['freq'])
    ta.set_clearsky(poa_global_clearsky=d['clear'] * 1.02, temperature_cell_clearsky=d['tcell_cs'])
    chainrun.quiet(setattr, ta, 'filter_params', dict(normalized_filter={}, poa_filter={}, clearsky_filter=dict(
        model='csi', threshold=0.3)))
    analyses = ['yoy_degradation'] + (['srr_soiling'] if c['freq'] == 'D' else [])
    for case in c['order']:
        status, out = ctx.outcome(chainrun.run, ta, case, analyses=analyses, srr_kwargs=dict(reps=3))
        if status == 'err':
            ctx.label('not analysed')
            return
    for case in c['order']:
        res = ta.results[case]
        perf = getattr(ta, f'{case}_aggregated_performance')
        poa = ta.poa_global if case == 'sensor' else ta.poa_global_clearsky
        y = res['yoy_degradation']
        same(ctx, 'plot_degradation_summary', ta.plot_degradation_summary, (case,), plotting.degradation_summary_plots,
             (y['p50_rd'], y['rd_confidence_interval'], y['calc_info'], perf), dict(bins=9))
        same(ctx, 'plot_degradation_timeseries', ta.plot_degradation_timeseries, (case,),
             plotting.degradation_timeseries_plot, (y['calc_info'],), dict(rolling_days=50, include_ci=False))
        if c['freq'] == 'D':
            i = res['srr_soiling']['calc_info']
            same(ctx, 'plot_soiling_monte_carlo', ta.plot_soiling_monte_carlo, (case,),
                 plotting.soiling_monte_carlo_plot, (i, perf), dict(profiles=2))
            same(ctx, 'plot_soiling_interval', ta.plot_soiling_interval, (case,), plotting.soiling_interval_plot,
                 (i, perf), dict(ymin=0.5))
            same(ctx, 'plot_soiling_rate_histogram', ta.plot_soiling_rate_histogram, (case,),
                 plotting.soiling_rate_histogram, (i,), dict(bins=4))
        fig = draw_fig(ctx, 'plot_pv_vs_irradiance', ta.plot_pv_vs_irradiance, case, alpha=0.3)
        ln = fig.axes[0].lines[0]
        e = ta.pv_energy
        common = poa.index.intersection(e.index)
        ctx.close('irradiance', np.asarray(ln.get_xdata(), float), poa.reindex(common).to_numpy(), 1e-12)
        ctx.close('energy', np.asarray(ln.get_ydata(), float), e.reindex(common).to_numpy(), 1e-12)
        ctx.require(ln.get_alpha() == 0.3, 'transparency')
    for f in (ta.plot_degradation_summary, ta.plot_degradation_timeseries, ta.plot_soiling_monte_carlo,
              ta.plot_soiling_interval, ta.plot_soiling_rate_histogram, ta.plot_pv_vs_irradiance):
        ctx.raises(f.__name__, ValueError, f, 'nonsense')
        plt.close('all')
    ctx.nontrivial()


def same(ctx, what, method, ma, fn, fa, kw):
    from ..refs import calls
    a, b = draw_fig(ctx, what, method, *ma, **kw), draw_fig(ctx, what, fn, *fa, **kw)
    r = calls.difference(calls.figure_data(b), calls.figure_data(a))
    ctx.require(r is None, f'{what} {ma[0]} differs from plotting its results: {r}')
    plt.close('all')


FACETS = [
    Facet('summary', summary_cases, check_summary, 120, 1500, 'slopes to show'),
    Facet('rolling', rolling_cases, check_rolling, 64, 600, 'ten or more rolling medians'),
    Facet('soiling', soiling_cases, check_soiling, 64, 600, 'all cases'),
    Facet('tune', tune_cases, check_tune, 120, 1500, 'both kinds of points'),
    Facet('availability', avail.plant, check_availability, 64, 800, 'outages to show'),
    Facet('analysis', object_cases, check_object, 16, 160, 'analyses succeed'),
]
