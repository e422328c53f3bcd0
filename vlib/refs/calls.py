"""A pool of calls of every public function on generated data, and bit-exact snapshots."""
import contextlib
import io
import warnings

import matplotlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

matplotlib.use('Agg')
import matplotlib.pyplot as plt                                             # noqa: E402

import rdtools                                                              # noqa: E402
from rdtools import (aggregation, availability, clearsky_temperature, degradation, filtering,  # noqa: E402
                     normalization, plotting, soiling, utilities)
from .. import gen                                                          # noqa: E402
from . import chain                                                         # noqa: E402


@st.composite
def worlds(draw):
    return dict(seed=draw(st.integers(0, 9)), nan=draw(st.sampled_from([0.0, 0.03])),
                named=draw(st.booleans()), tz=draw(st.sampled_from(['UTC', 'Etc/GMT+7', 'America/Denver'])),
                step=draw(st.sampled_from([15, 30, 30, 60])), freq=draw(st.booleans()),
                kind=draw(st.sampled_from(['float', 'float', 'int', 'float32'])))


class World:
    """Input data; every property returns new objects."""

    def __init__(self, w):
        self.w = w

    def _finish(self, values, idx, name, holes=True, kind=None):
        w = self.w
        v = np.array(values, float)
        kind = kind or w['kind']
        r = np.random.Generator(np.random.PCG64(w['seed'] + len(name)))
        if not w['freq']:
            idx = pd.DatetimeIndex(list(idx))
        if w['named']:
            idx = idx.rename('when')
        if kind == 'int' and name not in ('norm', 'daily', 'expected_norm'):
            return pd.Series(np.round(v).astype('int64'), index=idx, name=name)
        if holes:
            v[r.random(len(v)) < w['nan']] = np.nan
        return pd.Series(v.astype('float32' if kind == 'float32' else float), index=idx, name=name)

    def plant(self):
        w = self.w
        d = chain.build(dict(days=6, step=w['step'], seed=w['seed'], tz=w['tz'], start='2016-03-10', rate=0.0,
                             cloud=0.3, nan=0.0, drop=0.0, clip=w['seed'] % 2 == 1, scale=5000.0, gamma=-0.004))
        return {k: self._finish(s.to_numpy(), s.index, k) for k, s in d.items()}

    def norm(self):
        d = self.plant()
        r = np.random.Generator(np.random.PCG64(self.w['seed']))
        return self._finish(0.9 + 0.2 * r.random(len(d['pv'])), d['pv'].index, 'norm')

    def daily(self, days=800, holes=True):
        """Daily performance with soiling, daily insolation and rain."""
        r = np.random.Generator(np.random.PCG64(self.w['seed']))
        idx = pd.date_range('2015-01-01', periods=days, freq='D', tz=self.w['tz'])
        t = np.arange(days)
        v = (1 - 0.005 * t / 365.25) * (1 - 0.002 * (t % 50)) + 0.005 * r.standard_normal(days)
        insol = 5000 + 2000 * np.sin(t / 58.0) + 200 * r.standard_normal(days)
        rain = np.where(t % 50 == 0, 5.0, 0.0)
        return (self._finish(v, idx, 'daily', holes, 'float'), self._finish(insol, idx, 'insolation', False),
                self._finish(rain, idx, 'rain', False))

    def yoy(self):
        p = self.daily()[0]
        np.random.seed(self.w['seed'])
        return p, degradation.degradation_year_on_year(p)

    def srr(self, holes=True):
        p, i, _ = self.daily(400, holes)
        np.random.seed(self.w['seed'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return p, i, soiling.soiling_srr(p, i, reps=5)

    def inverters(self):
        w = self.w
        r = np.random.Generator(np.random.PCG64(w['seed']))
        n = 20 * 24
        idx = pd.date_range('2019-05-01', periods=n, freq='h', tz=w['tz'])
        h = np.arange(n) % 24
        sun = np.clip(np.cos((h - 12) / 12 * np.pi), 0, None) * np.repeat(r.uniform(0.5, 1, n // 4), 4)
        sub = np.vstack([sun * k for k in (1.0, 2.0, 1.5)]).T
        sub[100:120, 0] = 0
        meter = sub.sum(1)
        cum = meter.cumsum()
        meter2 = meter.copy()
        meter2[200:260] = 0
        sub[200:260] = 0
        cum[200:260] = cum[199]
        if w['named']:
            idx = idx.rename('when')
        return (pd.Series(meter2, idx, name='meter'), pd.DataFrame(sub, idx, columns=['a', 'b', 'c']),
                pd.Series(cum, idx, name='cum'), pd.Series(sun * 5, idx, name='exp'))


def _availability(power, sub, cum, exp, **kw):
    aa = availability.AvailabilityAnalysis(power, sub, cum, exp)
    aa.run(**kw)
    return dict(results=aa.results, outages=aa.outage_info, loss=aa.loss_total, sub=aa.loss_subsystem,
                system=aa.loss_system, expected=aa.energy_expected_rescaled)


def _availability_plot(power, sub, cum, exp):
    aa = availability.AvailabilityAnalysis(power, sub, cum, exp)
    aa.run()
    return aa.plot()


def _srr(e, i, rain, **kw):
    a = soiling.SRRAnalysis(e, i, rain)
    sr, ci, info = a.run(reps=5, **kw)
    return dict(sr=sr, ci=ci, info=info, daily=a.daily_df, intervals=a.result_df)


def _yoy_block(e):
    # the circular block bootstrap draws from fresh entropy (documented): only the estimate is definite
    rd, _, info = degradation.degradation_year_on_year(e, uncertainty_method='circular_block')
    return dict(rd=rd, slopes=info['YoY_values'], usage=info['usage_of_points'])


def _cods(e, **kw):
    a = soiling.CODSAnalysis(e)
    df, res = a.iterative_signal_decomposition(**kw)
    return dict(df=df, **res)


def _trend(pv, sensor, clearsky, fp, fpa, cs, which, plots, analyses):
    ta = rdtools.TrendAnalysis(pv, **sensor)
    if cs is not None:
        ta.set_clearsky(**cs)
    ta.filter_params = fp
    ta.filter_params_aggregated = fpa
    out = {}
    kw = dict(analyses=analyses, yoy_kwargs=clearsky['yoy'], srr_kwargs=clearsky['srr'])
    for case in which:
        getattr(ta, f'{case}_analysis')(**kw)
        out[case] = dict(results=ta.results[case], perf=getattr(ta, f'{case}_aggregated_performance'),
                         keep=getattr(ta, f'{case}_filter'))
        if plots:
            if 'yoy_degradation' in analyses:
                out[case]['plot'] = ta.plot_degradation_summary(case, bins=10)
            out[case]['pv'] = ta.plot_pv_vs_irradiance(case)
    return out


def recipes(name, p, world):
    """(function, args, kwargs) of a call of the named function; p selects a variant."""
    x = World(world)

    def d():
        return x.plant()
    n = normalization
    if name == 'normalize_with_expected_power':
        q = d()
        return n.normalize_with_expected_power, (q['pv'], q['expected'], q['poa']), dict(
            pv_input=['power', 'energy'][p % 2])
    if name == 'pvwatts_dc_power':
        q = d()
        return n.pvwatts_dc_power, (q['poa'], 5000.0), [{}, dict(temperature_cell=q['tcell'], gamma_pdc=-0.004)][p % 2]
    if name == 'normalize_with_pvwatts':
        q = d()
        kws = dict(poa_global=q['poa'], power_dc_rated=5000.0)
        if p % 2:
            kws.update(temperature_cell=q['tcell'], gamma_pdc=-0.004)
        return n.normalize_with_pvwatts, (q['pv'], kws), {}
    if name == 'irradiance_rescale':
        q = d()
        return n.irradiance_rescale, (q['poa'], q['clear']), dict(method=['iterative', 'single_opt'][p % 2])
    if name == 'energy_from_power':
        q = d()
        return n.energy_from_power, (q['pv'],), [{}, dict(target_frequency='h'), dict(target_frequency='10min'), dict(
            target_frequency='45min', power_type='instantaneous'), dict(max_timedelta=pd.Timedelta('2h'))][p % 5]
    if name == 'interpolate':
        q = d()
        s = q['pv'] if p % 2 else pd.DataFrame(dict(a=q['poa'], b=q['tamb']))
        return n.interpolate, (s, ['20min', q['tcell'].index[::2]][p // 2 % 2]), {}
    if name == 'aggregation_insol':
        return aggregation.aggregation_insol, (x.norm(), d()['poa'], ['D', '2D'][p % 2]), {}
    if name in ('poa_filter', 'tcell_filter'):
        return getattr(filtering, name), (d()['poa' if name == 'poa_filter' else 'tcell'],), {}
    if name == 'normalized_filter':
        return filtering.normalized_filter, (x.norm(),), {}
    if name == 'csi_filter':
        q = d()
        return filtering.csi_filter, (q['poa'], q['clear']), {}
    if name == 'clearsky_filter':
        q = d()
        return filtering.clearsky_filter, (q['poa'], q['clear']), dict(model=['csi', 'pvlib'][p % 2])
    if name == 'clip_filter':
        return filtering.clip_filter, (d()['pv'],), dict(model=['quantile', 'logic'][p % 2])
    if name == 'logic_clip_filter':
        return filtering.logic_clip_filter, (d()['pv'],), dict(
            mounting_type=['fixed', 'single_axis_tracking'][p % 2])
    if name == 'xgboost_clip_filter':
        return filtering.xgboost_clip_filter, (d()['pv'],), dict(
            mounting_type=['fixed', 'single_axis_tracking'][p % 2])
    if name in ('two_way_window_filter', 'hampel_filter', 'directional_tukey_filter'):
        return getattr(filtering, name), (x.daily(60)[0],), {}
    if name == 'insolation_filter':
        return filtering.insolation_filter, (x.daily(60)[1],), {}
    if name == 'hour_angle_filter':
        return filtering.hour_angle_filter, (d()['pv'], 39.7, -105.2), {}
    if name == 'degradation_ols':
        return degradation.degradation_ols, (x.daily()[0],), {}
    if name == 'degradation_classical_decomposition':
        v, i, _ = World(dict(x.w, nan=0.0)).daily()
        m = v.resample('MS').mean()
        return degradation.degradation_classical_decomposition, (m,), {}
    if name == 'degradation_year_on_year':
        if p % 12 == 11:
            return _yoy_block, (x.daily()[0],), {}
        return degradation.degradation_year_on_year, (x.daily()[0],), [{}, dict(
            recenter=False), dict(uncertainty_method="none"), dict(exceedance_prob=90, confidence_level=95)][p % 4]
    if name == 'soiling_srr':
        e, i, rain = x.daily(400)
        return soiling.soiling_srr, (e, i), [dict(reps=5), dict(
            reps=5, precipitation_daily=rain, clean_criterion='precip_and_shift'), dict(
            reps=5, method='random_clean'), dict(reps=5, method='perfect_clean', trim=True)][p % 4]
    if name == 'SRRAnalysis':
        return _srr, x.daily(400), [{}, dict(method='random_clean')][p % 2]
    if name == 'annual_soiling_ratios':
        _, i, (_, _, info) = x.srr()
        return soiling.annual_soiling_ratios, (info['stochastic_soiling_profiles'], i), {}
    if name == 'monthly_soiling_rates':
        _, i, (_, _, info) = x.srr()
        return soiling.monthly_soiling_rates, (info['soiling_interval_summary'],), dict(reps=50)
    if name == 'CODSAnalysis':
        return _cods, (World(dict(x.w, freq=True)).daily(800)[0],), [{}, dict(order=('SR', 'Rd', 'SC'))][p % 2]
    if name == 'soiling_cods':
        return soiling.soiling_cods, (World(dict(x.w, nan=0.0, freq=True)).daily(731)[0],), dict(reps=16, bootstrap_seed=3)
    if name == 'AvailabilityAnalysis':
        kw = [{}, dict(low_threshold=pd.Series(0.01, index=['a', 'b', 'c'])),
              dict(relative_sizes=pd.Series([0.7, 1.3, 1.0], index=['a', 'b', 'c']), rollup_period='W'),
              dict(power_system_limit=4.0, quantiles=(0.05, 0.95))][p % 4]
        return _availability, x.inverters(), kw
    if name == 'AvailabilityAnalysis.plot':
        return _availability_plot, x.inverters(), {}
    if name in ('robust_quantile', 'robust_median', 'robust_mean'):
        return getattr(utilities, name), (d()['pv'], [0.95, 0.5, 0.99][p % 3]), {}
    if name == 'get_clearsky_tamb':
        return clearsky_temperature.get_clearsky_tamb, (
            d()['pv'].index, [39.7, 50.0, -20.0][p % 3], [-105.2, 10.0, 30.0][p // 3 % 3]), {}
    if name == 'degradation_summary_plots':
        v, (rd, ci, info) = x.yoy()
        return plotting.degradation_summary_plots, (rd, ci, info, v), [{}, dict(detailed=True), dict(bins=7)][p % 3]
    if name == 'degradation_timeseries_plot':
        v, (rd, ci, info) = x.yoy()
        return plotting.degradation_timeseries_plot, (info,), dict(rolling_days=[30, 60][p % 2])
    if name in ('soiling_monte_carlo_plot', 'soiling_interval_plot'):
        v, i, (_, _, info) = x.srr()
        return getattr(plotting, name), (info, v), {}
    if name == 'soiling_rate_histogram':
        v, i, (_, _, info) = x.srr()
        return plotting.soiling_rate_histogram, (info,), dict(bins=5)
    if name == 'tune_filter_plot':
        q = d()
        pv = q['pv'] if p % 2 else q['pv'].rename(None)
        return plotting.tune_filter_plot, (pv, q['poa'] > 300), {}
    if name == 'TrendAnalysis':
        q = d()
        pv = q['pv']
        ad = pd.Series(np.arange(len(pv)) % 7 > 0, index=pv.index).astype(object)
        ad.iloc[::11] = np.nan
        sensor = dict(poa_global=q['poa'], gamma_pdc=-0.004, windspeed=q['wind'])
        sensor.update([dict(temperature_ambient=q['tamb'], temperature_model=dict(a=-3.5, b=-0.06, deltaT=3.0)),
                       dict(temperature_cell=q['tcell']), dict(power_expected=q['expected'])][p % 3])
        fp = dict(normalized_filter={}, poa_filter=dict(poa_global_low=50), clearsky_filter=dict(model='csi'),
                  hour_angle_filter={}, ad_hoc_filter=ad[::2] if p % 2 else ad)
        days = pd.date_range(pv.index[0].normalize(), periods=5, freq='D')
        fpa = dict(two_way_window_filter={}, ad_hoc_filter=pd.Series([True, True, np.nan, True, True], index=days))
        cs = dict(pvlib_location=chain.LOC, pv_tilt=20, pv_azimuth=180, poa_global_clearsky=q['clear'],
                  temperature_ambient_clearsky=q['tamb_cs'])
        if p % 4 == 1:
            cs['pv_tilt'] = pd.Series(20.0, index=pv.index)
            del cs['poa_global_clearsky']
        which = [['sensor'], ['clearsky'], ['sensor', 'clearsky'], ['clearsky', 'sensor']][p % 4]
        return _trend, (pv, sensor, dict(yoy={}, srr={}), fp, fpa, cs, which, True, []), {}
    if name == 'TrendAnalysis long':
        dd = chain.build(dict(days=790, step=120, seed=x.w['seed'], tz=x.w['tz'], start='2016-03-10', rate=-0.5,
                              cloud=0.3, nan=0.0, drop=0.0, clip=False, scale=5000.0, gamma=-0.004))
        q = {k: x._finish(s.to_numpy(), s.index, k, False) for k, s in dd.items()}
        fp = dict(normalized_filter={}, poa_filter=dict(poa_global_low=50), clearsky_filter=dict(model='csi'))
        cs = dict(pvlib_location=chain.LOC, poa_global_clearsky=q['clear'],
                  temperature_cell_clearsky=q['tcell_cs'])
        which = [['sensor'], ['clearsky']][p % 2]
        return _trend, (q['pv'], dict(poa_global=q['poa'], temperature_cell=q['tcell'], gamma_pdc=-0.004),
                        dict(yoy=dict(recenter=True), srr=dict(reps=4)), fp, dict(two_way_window_filter={}), cs,
                        which, True, ['yoy_degradation', 'srr_soiling']), {}
    raise KeyError(name)


FAST = ['normalize_with_expected_power', 'pvwatts_dc_power', 'normalize_with_pvwatts', 'irradiance_rescale',
        'energy_from_power', 'interpolate', 'aggregation_insol', 'poa_filter', 'tcell_filter', 'normalized_filter',
        'csi_filter', 'clearsky_filter', 'clip_filter', 'logic_clip_filter', 'two_way_window_filter',
        'hampel_filter', 'directional_tukey_filter', 'insolation_filter', 'hour_angle_filter', 'degradation_ols',
        'degradation_classical_decomposition', 'degradation_year_on_year', 'soiling_srr', 'SRRAnalysis',
        'annual_soiling_ratios', 'monthly_soiling_rates', 'AvailabilityAnalysis', 'robust_quantile',
        'robust_median', 'robust_mean', 'get_clearsky_tamb']
CHAIN = ['TrendAnalysis', 'TrendAnalysis', 'TrendAnalysis', 'TrendAnalysis long']
PLOTS = ['degradation_summary_plots', 'degradation_timeseries_plot', 'soiling_monte_carlo_plot',
         'soiling_interval_plot', 'soiling_rate_histogram', 'tune_filter_plot', 'AvailabilityAnalysis.plot']
SLOW = ['xgboost_clip_filter', 'CODSAnalysis']
RANDOM = {'degradation_year_on_year', 'soiling_srr', 'SRRAnalysis', 'annual_soiling_ratios',
          'monthly_soiling_rates', 'degradation_timeseries_plot', 'TrendAnalysis long', 'CODSAnalysis', 'soiling_cods',
          'degradation_classical_decomposition', 'degradation_ols'}


def execute(fn, args, kwargs):
    """('ok', result) or ('err', exception), silently."""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            return 'ok', fn(*args, **kwargs)
        except Exception as e:
            return 'err', e
        finally:
            plt.close('all')


def frozen(x):
    """Comparable deep snapshot of data (bytes, dtypes, names, frequencies, attributes)."""
    if isinstance(x, pd.Series):
        return ('series', x.name, str(x.dtype), _bytes(x), frozen(x.index), frozen(dict(x.attrs)))
    if isinstance(x, pd.DataFrame):
        return ('frame', frozen(x.columns), [frozen(x.iloc[:, i]) for i in range(x.shape[1])], frozen(x.index),
                frozen(dict(x.attrs)))
    if isinstance(x, pd.DatetimeIndex):
        return ('dti', x.name, str(x.tz), gen.ns(x).tobytes(), str(x.freq))
    if isinstance(x, pd.Index):
        return ('index', x.name, str(x.dtype), [repr(v) for v in x])
    if isinstance(x, np.ndarray):
        return ('array', str(x.dtype), x.shape, [repr(v) for v in x.ravel()] if x.dtype == object else x.tobytes())
    if isinstance(x, dict):
        return (type(x).__name__, [(repr(k), frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    if isinstance(x, plt.Figure):
        return ('figure', figure_data(x))
    if hasattr(x, 'to_plotly_json'):
        return ('plotly', [(t.name, frozen(np.asarray(t.y, dtype=float)), len(t.x)) for t in x.data])
    if isinstance(x, (int, float, str, bool, type(None), np.generic, pd.Timestamp, pd.Timedelta)):
        return repr(x)
    return type(x).__name__


def _bytes(s):
    v = s.to_numpy()
    if v.dtype == object:
        return [repr(i) for i in v]
    if v.dtype.kind == 'M':
        return gen.ns(pd.DatetimeIndex(s)).tobytes()
    return np.ascontiguousarray(v).tobytes()


def figure_data(fig):
    out = []
    for ax in fig.axes:
        out.append([np.asarray(matplotlib.dates.date2num(np.asarray(a)) if np.asarray(a).dtype.kind in 'MO'
                               and len(a) and not isinstance(np.asarray(a).ravel()[0], (int, float))
                               else a, float).tobytes() for ln in ax.lines for a in ln.get_data(orig=False)])
        out.append([np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan).tobytes() for c in ax.collections
                    if hasattr(c, 'get_offsets')])
        out.append([(p.get_x(), p.get_height()) for p in ax.patches if hasattr(p, 'get_height')])
        out.append([t.get_text() for t in ax.texts])
        out.append((ax.get_xlabel(), ax.get_ylabel()))
    return out


def difference(a, b, path=''):
    """Where two snapshots differ, or None."""
    if type(a) is not type(b):
        return f'{path}: {str(a)[:60]} / {str(b)[:60]}'
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f'{path}: lengths {len(a)} / {len(b)}'
        for i, (u, v) in enumerate(zip(a, b)):
            r = difference(u, v, f'{path}/{u[0] if isinstance(u, tuple) and u and isinstance(u[0], str) else i}')
            if r:
                return r
        return None
    return None if a == b else f'{path}: {str(a)[:60]} / {str(b)[:60]}'
