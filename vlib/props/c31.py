"""C31: requests that make no sense are refused, and well-formed ones are not."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import TrendAnalysis, availability, degradation, filtering, normalization, soiling
from ..core import Facet
from ..refs import calls, chainrun
from .. import gen

RULE = ('well-formed generated calls that must be answered, and the same calls with one option or one input '
        'corrupted at a generated place, which must be refused with the documented kind of error')
ASSUMPTIONS = ['kinds of errors: those documented or raised on purpose by the pinned code']

CHOICES = dict(
    pv_input=('power', 'energy'), rescale=('iterative', 'single_opt'),
    clearsky=('pvlib', 'csi'), clip=('quantile', 'logic', 'xgboost'),
    mounting=('fixed', 'single_axis_tracking'), criterion=('shift', 'precip_and_shift', 'precip_or_shift', 'precip'),
    method=('half_norm_clean', 'random_clean', 'perfect_clean'), analysis_input=('power', 'energy'))


@st.composite
def choice_cases(draw):
    what = draw(st.sampled_from(sorted(CHOICES)))
    good = CHOICES[what]
    near = draw(st.sampled_from([g for k in CHOICES.values() for g in k]))
    text = draw(st.one_of(st.just(near), st.just(near.upper()), st.just(near + ' '), st.just(near[:-1]),
                          st.just(near.replace('_', '-')), st.text(max_size=6), st.sampled_from(['', 'default', 'auto'])))
    value = draw(st.sampled_from(['good', 'text', 'text', 'text', 'none']))
    return dict(what=what, value=draw(st.sampled_from(good)) if value == 'good' else None if value == 'none' else text,
                world=draw(calls.worlds()))


def check_choice(c, ctx):
    """Options with a fixed set of values accept exactly those."""
    x, v, what = calls.World(dict(c['world'], nan=0.0, kind='float')), c['value'], c['what']
    exc = ValueError
    if what == 'pv_input':
        d = x.plant()
        fn, args = normalization.normalize_with_expected_power, (d['pv'], d['expected'], d['poa'], v)
    elif what == 'rescale':
        d = x.plant()
        fn, args = (lambda: normalization.irradiance_rescale(d['poa'], d['clear'], method=v)), ()
    elif what == 'clearsky':
        d = calls.World(dict(x.w, step=30)).plant()
        fn, args = filtering.clearsky_filter, (d['poa'], d['clear'], v)
    elif what == 'clip':
        d = x.plant()
        fn, args = filtering.clip_filter, (d['pv'], v)
        if v == 'xgboost':
            return
    elif what == 'mounting':
        d = x.plant()
        fn, args = filtering.logic_clip_filter, (d['pv'], v)
    elif what == 'criterion':
        e, i, rain = x.daily(300)
        fn, args = (lambda: soiling.soiling_srr(e, i, reps=2, precipitation_daily=rain, clean_criterion=v)), ()
    elif what == 'method':
        e, i, rain = x.daily(300)
        fn, args = (lambda: soiling.soiling_srr(e, i, reps=2, method=v)), ()
    else:
        d = x.plant()
        exc = (ValueError, AttributeError)

        def fn():
            ta = TrendAnalysis(d['pv'], poa_global=d['poa'], temperature_cell=d['tcell'], pv_input=v)
            ta.filter_params.pop('clip_filter')
            chainrun.run(ta, 'sensor', analyses=[])
        args = ()
    ctx.nontrivial()
    if v in CHOICES[what]:
        ctx.label('accepted')
        ctx.call(f'{what}={v!r}', fn, *args)
    else:
        ctx.label('refused')
        ctx.raises(f'{what}={v!r}', exc, fn, *args)


BROKEN = ['availability index', 'interpolate zone', 'interpolate type', 'energy index', 'energy single',
          'clip index', 'clip order', 'clip short', 'decomposition gap', 'decomposition nan', 'yoy short',
          'yoy block', 'yoy irregular', 'srr daily', 'srr one level', 'cods daily', 'cods order', 'plot case']


@st.composite
def broken_cases(draw):
    return dict(what=draw(st.sampled_from(BROKEN)), at=draw(st.integers(0, 10**6)), which=draw(st.integers(0, 5)),
                how=draw(st.integers(0, 5)), ok=draw(st.booleans()), world=draw(calls.worlds()))


def corrupt(index, how, at):
    """An index of the same kind that differs from the given one."""
    i = at % len(index)
    if how == 0:
        return index.delete(i)
    if how == 1:
        return index + pd.Timedelta('1s')
    if how == 2:
        t = list(index)
        t[i] = t[i] + pd.Timedelta('1min')
        return pd.DatetimeIndex(t)
    if how == 3:
        return index.tz_localize(None)
    if how == 4:
        j = (i + 1) % len(index)
        t = list(index)
        t[i], t[j] = t[j], t[i]
        return pd.DatetimeIndex(t)
    return index.append(index[-1:] + pd.Timedelta('1h'))


def check_broken(c, ctx):
    """One input is corrupted; without the corruption the call works."""
    x = calls.World(dict(c['world'], nan=0.0, kind='float', freq=True))
    what, ok, how, at = c['what'], c['ok'], c['how'], c['at']
    exc = ValueError
    r = np.random.Generator(np.random.PCG64(at))
    if what == 'availability index':
        args = list(x.inverters())
        if not ok:
            k = c['which'] % 4
            new = corrupt(args[k].index, how, at)
            args[k] = args[k].reindex(args[k].index[:len(new)] if len(new) < len(args[k]) else args[k].index)
            if len(new) > len(args[k]):
                args[k] = pd.concat([args[k], args[k].iloc[-1:]])
            args[k].index = new

        def fn():
            availability.AvailabilityAnalysis(*args).run()
    elif what == 'interpolate zone':
        d = x.plant()['pv']
        target = d.index[::2]
        a = d if ok or how % 2 else d.tz_localize(None)
        b = target if ok or not how % 2 else target.tz_localize(None)
        if c['which'] % 2:
            a = a.to_frame()

        def fn():
            normalization.interpolate(a, b)
    elif what == 'interpolate type':
        d = x.plant()['pv']

        class Odd:
            index, values = d.index, d.to_numpy()

        def fn():
            normalization.interpolate(d if ok else Odd(), d.index[::2])
    elif what == 'energy index':
        d = x.plant()['pv']
        if not ok:
            d = [d.reset_index(drop=True), d.set_axis(d.index.astype(str)),
                 d.set_axis(np.arange(len(d)) * 1.0)][how % 3]

        def fn():
            normalization.energy_from_power(d)
    elif what == 'energy single':
        d = x.plant()['pv'].iloc[:1 if not ok else 5]
        if not ok and how % 2:
            d = pd.Series(d.to_numpy(), index=pd.DatetimeIndex(list(d.index)))

            def fn():
                normalization.energy_from_power(d)
        else:
            def fn():
                normalization.energy_from_power(d, power_type='instantaneous')
    elif what == 'clip index':
        d = x.plant()['pv']
        exc = TypeError
        if not ok:
            d = [d.reset_index(drop=True), d.set_axis(d.index.astype(str))][how % 2]

        def fn():
            filtering.logic_clip_filter(d)
    elif what == 'clip order':
        d = x.plant()['pv']
        exc = IndexError
        if not ok:
            i = at % (len(d) - 1)
            order = np.arange(len(d))
            order[i], order[i + 1] = i + 1, i
            d = d.iloc[order]

        def fn():
            filtering.logic_clip_filter(d)
    elif what == 'clip short':
        d = x.plant()['pv']
        exc = Exception
        if not ok:
            d = d.iloc[30:30 + at % 11]

        def fn():
            filtering.logic_clip_filter(d)
    elif what.startswith('decomposition'):
        d = x.daily()[0].resample('MS').mean()
        if not ok:
            i = 1 + at % (len(d) - 2)
            if what.endswith('gap'):
                d = d.drop(d.index[i])
            else:
                d.iloc[i] = np.nan

        def fn():
            degradation.degradation_classical_decomposition(d)
    elif what == 'yoy short':
        days = 732 + at % 60 if ok else 40 + at % 688
        d = x.daily(days)[0]

        def fn():
            degradation.degradation_year_on_year(d)
    elif what == 'yoy block':
        d = x.daily(731)[0].resample('7D').mean()
        n = len(d)
        block = n // 3 - 1 if ok else n // 3 + 1 + at % 100

        def fn():
            degradation.degradation_year_on_year(d, uncertainty_method='circular_block', block_length=block)
    elif what == 'yoy irregular':
        d = x.daily(740 + 100 * c['which'])[0]
        if how > 2 or ok:
            d = d.resample('7D').mean()
        if not ok:
            i = 2 + at % (len(d) - 4)
            if at % 2:
                d = d.drop(d.index[i])
            else:
                t = list(d.index)
                t[i] += pd.Timedelta('1h')
                d.index = pd.DatetimeIndex(t)

        def fn():
            degradation.degradation_year_on_year(d, uncertainty_method='circular_block', block_length=10)
    elif what == 'srr daily':
        args = list(x.daily(300))
        if not ok:
            k = c['which'] % 3
            s = args[k]
            args[k] = [s.drop(s.index[1 + at % 298]), s.resample('2D').mean(), s.resample('12h').mean(),
                       s.iloc[r.permutation(300)]][how % 4]

        def fn():
            soiling.SRRAnalysis(*args).run(reps=2)
    elif what == 'srr one level':
        e, i, rain = x.daily(300)
        exc = soiling.NoValidIntervalError
        if not ok:
            # every interval is shorter than the minimum
            def fn():
                soiling.SRRAnalysis(e, i, rain).run(reps=2, min_interval_length=301 + at % 100)
        else:
            def fn():
                soiling.SRRAnalysis(e, i, rain).run(reps=2)
    elif what == 'cods daily':
        d = x.daily(760)[0]
        if not ok:
            d = [d.drop(d.index[1 + at % 758]), d.resample('2D').mean(), d.resample('12h').mean()][how % 3]

        def fn():
            soiling.CODSAnalysis(d)
    elif what == 'cods order':
        d = x.daily(740)[0]
        order = ('SR', 'SC', 'Rd') if ok else [('SC', 'Rd'), ('Rd', 'SC'), ('SC',), ('Rd',)][how % 4]
        if ok and at % 4:
            return

        def fn():
            soiling.CODSAnalysis(d).iterative_signal_decomposition(order=order)
    else:
        d = x.plant()
        ta = TrendAnalysis(d['pv'], poa_global=d['poa'], temperature_cell=d['tcell'])
        exc = (ValueError, KeyError)
        if ok:
            def fn():
                ta.plot_pv_vs_irradiance('sensor')
                calls.plt.close('all')
        else:
            name = ['plot_degradation_summary', 'plot_soiling_monte_carlo', 'plot_soiling_interval',
                    'plot_soiling_rate_histogram', 'plot_pv_vs_irradiance', 'plot_degradation_timeseries'][how]
            case = ['Sensor', 'clear_sky', '', 'nonsense', 'SENSOR', 'clearsky '][c['which']]
            if at % 2 and name != 'plot_pv_vs_irradiance':
                case = ['sensor', 'clearsky'][at // 2 % 2]         # has not been run

            def fn():
                getattr(ta, name)(case)
    ctx.nontrivial()
    if ok:
        ctx.label('accepted')
        ctx.call(what, fn)
    else:
        ctx.label('refused')
        ctx.raises(f'{what} (corruption {how})', exc, fn)


FACETS = [
    Facet('choices', choice_cases, check_choice, 300, 6000, 'all cases'),
    Facet('corrupted', broken_cases, check_broken, 600, 9000, 'all cases'),
]
