"""C24: combined degradation and soiling (CODS) decomposition and its bootstrap."""
import contextlib
import inspect
import io
import itertools

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats
from statsmodels.tsa.stattools import adfuller

from rdtools import degradation, soiling
from ..core import Facet
from ..refs import cods

RULE = ('daily histories of two to four years with soiling, cleanings, seasonality, degradation, noise '
        'and gaps; the bootstrap aggregation is driven with generated component fits as well as real ones')
ASSUMPTIONS = ['the Kalman filter and STL steps are judged by the identities of their results and by '
               'recovery of known signals within wide limits, not re-implemented']


def rmse(pm, model):
    ok = model.notna() & pm.notna()
    return float(np.sqrt(((pm[ok] - model[ok]) ** 2).mean()))


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


@st.composite
def cases(draw):
    return dict(h=draw(cods.history()), o=draw(st.fixed_dictionaries({}, optional=dict(
        order=st.sampled_from([['SR', 'SC', 'Rd'], ['SC', 'SR', 'Rd'], ['SR', 'Rd'], ['SR'], ['Rd', 'SR'],
                               ['SR', 'SC']]),
        degradation_method=st.sampled_from(['YoY', 'YoY', 'STL']),
        max_iterations=st.sampled_from([18, 6, 3, 1]), clip_soiling=st.sampled_from([True, True, False]),
        soiling_significance=st.sampled_from([0.75, 0.2, 3.0]), ffill=st.booleans(),
        cleaning_sensitivity=st.sampled_from([0.5, 0.25, 1.5]), renormalize_SR=st.sampled_from([None, 0.7]),
        convergence_criterion=st.sampled_from([5e-3, 0.05, 1e-4]), clean_pruning_sensitivity=st.sampled_from([0.6, 1.5, 0.3]),
        pruning_iterations=st.sampled_from([1, 2]), process_noise=st.sampled_from([1e-4, 5e-5])))),
        talk=draw(st.sampled_from([False, False, False, True])))


def identities(ctx, pm, df, deg, shift, err, linear=True):
    """Relations between the columns that must hold for any fit."""
    ctx.same_index('result', df.index, pm.index)
    sr, sc = df['soiling_ratio'].astype(float), df['seasonal_component'].astype(float)
    rd = df['degradation_trend'].astype(float)
    product = sr * sc * rd
    ctx.series('residuals', df['residuals'], pm / product, 1e-10, 1e-12)
    ctx.close('residual shift', shift, (pm / product).mean(), 1e-10)
    ctx.series('total model', df['total_model'], product * (pm / product).mean(), 1e-10, 1e-12)
    ctx.close('RMSE', err, rmse(pm, product * (pm / product).mean()), 1e-9, 1e-12)
    if linear:
        ctx.close('degradation trend', rd, 1 + np.arange(len(pm)) * deg / 100 / 365, 1e-10)


def check(c, ctx):
    pm, sr = cods.build(c['h'])
    o = dict(c['o'])
    if 'order' in o:
        o['order'] = tuple(o['order'])
    keep = pm.copy()
    order = o.get('order', ('SR', 'SC', 'Rd'))
    stl = o.get('degradation_method') == 'STL'
    obj = ctx.call('CODSAnalysis', soiling.CODSAnalysis, pm)
    if order == ('Rd', 'SR') and stl:
        order = ('SR',)
    iters = o.get('max_iterations', 18)
    seen = [x for x in order if not (stl and x == 'Rd')]
    if 'SR' not in seen[:iters] and iters < len(seen):
        return                                  # never reaches the soiling step
    df, res = ctx.call('iterative_signal_decomposition', quiet, obj.iterative_signal_decomposition, **o)
    ctx.require(pm.equals(keep), 'the input series was modified')
    if c.get('talk'):
        ctx.label('verbose')
        df2, res2 = ctx.call('iterative_signal_decomposition, verbose', quiet, obj.iterative_signal_decomposition,
                             verbose=True, **o)
        ctx.require(df2.equals(df), 'verbose output changes the decomposition')
        for k in ('degradation', 'soiling_loss', 'residual_shift', 'RMSE'):
            ctx.require(res2[k] == res[k], f'verbose output changes {k}')
    pm = pm.loc[pm.first_valid_index():]
    ctx.nontrivial(c['h']['soil'] > 0 and len(order) > 1)
    ctx.label('STL' if stl else 'YoY')
    identities(ctx, pm, df, res['degradation'], res['residual_shift'], res['RMSE'], linear=not stl)
    s = df['soiling_ratio'].astype(float)
    ctx.close('soiling loss', res['soiling_loss'], 100 * (1 - s).mean(), 1e-10, 1e-12)
    if o.get('clip_soiling', True):
        ctx.require(((s >= 0) & (s <= 1)).all(), f'soiling ratio from {s.min()} to {s.max()}')
    ctx.require(s.notna().all(), 'soiling ratio is missing on some days')
    ctx.require(set(df['cleaning_events'].unique()) <= {True, False}, 'cleaning events are not boolean')
    ad = adfuller(df['residuals'].dropna(), regression='ctt', autolag=None)
    ctx.close('stationarity test', list(res['adf_res'][:2]), list(ad[:2]), 1e-6, 1e-12)
    amp = [np.diff(df[k].astype(float).quantile([.1, .9]))[0] for k in ('soiling_ratio', 'residuals')]
    limit = o.get('soiling_significance', .75)
    if abs(amp[0] / amp[1] - limit) > 1e-9:
        ctx.require(bool(res['small_soiling_signal']) == (amp[0] / amp[1] < limit), 'small-signal flag '
                    f"{res['small_soiling_signal']} for ratio {amp[0] / amp[1]:.3f}, limit {limit}")
    if stl and 'SC' in order and iters >= len(seen):
        t = df['degradation_trend'].astype(float)
        ctx.close('start of the trend', t.iloc[0], 1.0, 1e-10)
        ctx.close('degradation of the trend', res['degradation'],
                  degradation.degradation_year_on_year(t, uncertainty_method=None), 1e-8, 1e-10)
    sc = df['seasonal_component'].astype(float)
    if 'SC' not in order:
        ctx.close('seasonal component', sc, np.ones(len(sc)), 1e-12)
    else:
        spread = sc.groupby(sc.index.dayofyear).agg(lambda x: x.max() - x.min())
        ctx.require(not (spread > 1e-10).any(), 'the seasonal component is not periodic')
        ctx.label('seasonal')
    gone = df.index[sc.isna() | df['degradation_trend'].isna()]
    if len(gone):
        leap = all(d.month == 12 and d.day == 31 and d.is_leap_year for d in gone)
        ctx.fail('the model is missing on the last day of leap years only' if leap
                 else f'the model is missing on {len(gone)} days, first {gone[0]}')


@st.composite
def recover_cases(draw):
    h = draw(cods.history(soils=(0.0012, 0.002)))
    h.update(n=max(h['n'], 1100), noise=0.004, every=draw(st.sampled_from([20, 30])), clean=1.0, lead=0,
             gap=0, season=min(h['season'], 0.02), level=1.0)
    return dict(h=h)


def check_recover(c, ctx):
    """Known soiling and degradation are found within wide limits."""
    pm, sr = cods.build(c['h'])
    obj = soiling.CODSAnalysis(pm)
    df, res = ctx.call('iterative_signal_decomposition', quiet, obj.iterative_signal_decomposition)
    sr = sr[len(pm) - len(df):]             # leading gaps are dropped
    true = 100 * (1 - sr).mean()
    ctx.nontrivial()
    ctx.require(abs(res['soiling_loss'] - true) < 1 + 0.4 * true,
                f"soiling loss {res['soiling_loss']:.2f} %, true {true:.2f} %")
    ctx.require(abs(res['degradation'] - c['h']['deg']) < 2.5,
                f"degradation {res['degradation']:.2f}, true {c['h']['deg']}")
    r = np.corrcoef(df['soiling_ratio'].astype(float), sr)[0, 1]
    ctx.require(r > 0.6, f'estimated and true soiling ratio correlate by {r:.2f} only')
    ev = np.flatnonzero(df['cleaning_events'].astype(bool).to_numpy())
    big = np.flatnonzero(np.diff(sr) > 0.03) + 1
    if len(big) >= 8:
        hit = np.mean([len(ev) > 0 and np.abs(ev - b).min() <= 7 for b in big])
        ctx.require(hit > 0.4, f'{hit:.0%} of {len(big)} large cleanings detected')


# ---- bootstrap -------------------------------------------------------------------------------

@st.composite
def boot_cases(draw):
    return dict(n=draw(st.sampled_from([735, 800])), seed=draw(st.integers(0, 2**32 - 1)),
                reps=draw(st.sampled_from([16, 1, 20, 32])),
                level=draw(st.sampled_from([None, 68.2, 95.0, 50.0])),
                fail1=draw(st.sampled_from([0, 0, 0, 2])), fail2=draw(st.sampled_from([0.0, 0.0, 0.2])),
                unit1=draw(st.sampled_from([0.0, 0.0, 0.15, 0.3, 0.7])),
                unit2=draw(st.sampled_from([0.0, 0.0, 0.2])),
                small=draw(st.sampled_from([0.0, 0.0, 0.2, 0.5, 0.8])),
                one=draw(st.sampled_from([0.0, 0.5])), over=draw(st.sampled_from([0.0, 0.0, 0.04])), api=draw(st.booleans()),
                method=draw(st.sampled_from([None, 'YoY', 'STL'])), alt=draw(st.one_of(st.just({}), alternatives())),
                noise=draw(st.sampled_from([None, None, 3e-4])), extra=draw(st.sampled_from([None, None, 0.4])))


ORDERS = [('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd'), ('SR', 'Rd', 'SC')]
USUAL = dict(order_alternatives=(('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd')), cleaning_sensitivity_alternatives=(.25, .75),
             clean_pruning_sensitivity_alternatives=(1 / 1.5, 1.5), forward_fill_alternatives=(True, False))


@st.composite
def alternatives(draw):
    def some(values, most):
        return st.lists(st.sampled_from(values), min_size=1, max_size=most, unique=True).map(tuple)
    return draw(st.fixed_dictionaries({}, optional=dict(
        order_alternatives=some(ORDERS, 3), cleaning_sensitivity_alternatives=some([.2, .5, .9, 1.4], 3),
        clean_pruning_sensitivity_alternatives=some([.4, .6, 1.2], 2), forward_fill_alternatives=some([True, False], 2))))


def models(c):
    a = dict(USUAL, **{k: tuple(tuple(x) if isinstance(x, list) else x for x in v)
                       for k, v in c.get('alt', {}).items()})
    return a, list(itertools.product(*(a[k] for k in USUAL)))


class Recorder:
    """Stands in for (or wraps) the fit of a single model and records what it returned."""

    def __init__(self, c, real=None):
        self.c, self.real, self.calls = c, real, []
        self.rng = np.random.Generator(np.random.PCG64(c['seed']))
        self.count = len(models(c)[1])
        self.signature = inspect.signature(soiling.CODSAnalysis.__dict__['iterative_signal_decomposition'])

    def fit(self, obj, *a, **kw):
        given = self.signature.bind(obj, *a, **kw)
        given.apply_defaults()
        call = dict(kw=given.arguments, pm=obj.pm, first=len(self.calls) < self.count)
        self.calls.append(call)
        if self.real is not None:
            df, res = self.real(obj, *a, **kw)
        else:
            df, res = self.fake(obj.pm, call['first'], len(self.calls) - 1)
        # the caller may go on to write into what it gets
        call['df'], call['res'] = df.copy(), dict(res)
        return df, res

    def fake(self, pm, first, k):
        c, r, n = self.c, self.rng, len(pm)
        if (first and k < c['fail1']) or (not first and r.random() < c['fail2']):
            raise ValueError('generated failure of a fit')
        sr = 1 + c.get('over', 0.0) - 0.1 * r.random(n)
        sr[r.random(n) < c['one'] * r.random()] = 1.0
        df = pd.DataFrame(index=pm.index)
        df['soiling_ratio'] = sr
        df['soiling_rates'] = -0.001 * r.random(n)
        df['cleaning_events'] = r.random(n) < 0.02
        phase, a = r.uniform(0, 6), r.uniform(0, 0.05)
        df['seasonal_component'] = 1 + a * np.sin(2 * np.pi * pm.index.dayofyear / 365 + phase)
        deg = r.uniform(-2, 1)
        df['degradation_trend'] = 1 + np.arange(n) * deg / 100 / 365
        df['total_model'] = df.soiling_ratio * df.seasonal_component * df.degradation_trend
        df['residuals'] = pm / df.total_model
        if not first:
            df = df.iloc[r.choice([0, 0, 0, 5]):]
        unit = r.random() < (c['unit1'] if first else c['unit2'])
        return df, dict(degradation=deg, soiling_loss=100 * (1 - sr).mean(), residual_shift=0.96 + 0.01 * (k * 5 % 9),
                        RMSE=r.uniform(0.005, 0.03),
                        small_soiling_signal=k % 2 == 0 if c['small'] == 0.5 else bool(r.random() < c['small']),
                        adf_res=[-2.0 if unit else -r.uniform(4, 9), 0.3 if unit else 0.001])


def weights(fits):
    w = np.array([1 / f['res']['RMSE'] / (1 + (f['df']['soiling_ratio'] == 1).mean()) for f in fits])
    return w / w.sum()


def drive(c, ctx, pm, rec, api, kw):
    cls = soiling.CODSAnalysis
    saved = cls.__dict__['iterative_signal_decomposition']
    held = {}

    def fit(self, *a, **k):
        return rec.fit(self, *a, **k)

    def run():
        if api:
            return soiling.soiling_cods(pm, **kw)
        held['obj'] = cls(pm)
        return held['obj'].run_bootstrap(**kw)
    cls.iterative_signal_decomposition = fit
    try:
        ctx.reseed(c['seed'])
        status, out = ctx.outcome(quiet, run)
    finally:
        cls.iterative_signal_decomposition = saved
    return status, out, held.get('obj')


def check_boot(c, ctx, real=False):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    if real:
        pm, _ = cods.build(c['h'])
        pm = pm.loc[pm.first_valid_index():]
    else:
        pm = pd.Series(1 + 0.02 * r.standard_normal(c['n']),
                       index=pd.date_range('2013-02-01', periods=c['n'], freq='D'))
    rec = Recorder(c, soiling.CODSAnalysis.__dict__['iterative_signal_decomposition'] if real else None)
    kw = dict(reps=c['reps'])
    if c['seed'] % 4 == 1:
        kw['verbose'] = True
    if c['level'] is not None:
        kw['confidence_level'] = c['level']
    if c['method'] is not None:
        kw['degradation_method'] = c['method']
    alt, combos = models(c)
    N = len(combos)
    kw.update({k: alt[k] for k in c.get('alt', {})})
    if c.get('noise') is not None:
        kw['process_noise'] = c['noise']
    if c.get('extra') is not None:
        kw['soiling_significance'] = c['extra']
    status, out, obj = drive(c, ctx, pm, rec, c['api'], kw)
    if len(rec.calls) == 0:
        ctx.label('fits not observable')
        return
    first = [f for f in rec.calls if f['first'] and 'res' in f]
    boot = [f for f in rec.calls if not f['first'] and 'res' in f]

    def key(order, clean, prune, fill):
        return tuple(order), round(clean, 9), round(prune, 9), bool(fill)
    tried = sorted(key(*(f['kw'][k] for k in ('order', 'cleaning_sensitivity', 'clean_pruning_sensitivity', 'ffill')))
                   for f in rec.calls if f['first'])
    want = sorted(key(*x) for x in combos)
    ctx.require(tried == want, f'the initial fits do not cover the {N} combinations of model alternatives '
                f'({len(rec.calls)} fits; {status}: {str(out)[:100]})')
    if c.get('alt'):
        ctx.label('other alternatives')
    pn = 1e-4 if c.get('noise') is None else c['noise']
    for f in rec.calls:
        k = f['kw']
        ctx.require(k['degradation_method'] == (c['method'] or 'YoY'), 'a fit with another degradation method')
        ctx.require(k['soiling_significance'] == (0.75 if c.get('extra') is None else c['extra']),
                    'an option of the decomposition does not reach every fit')
        if f['first']:
            ctx.close('process noise of an initial fit', k['process_noise'], pn, 1e-12)
            continue
        ctx.require(pn / 1.5000001 <= k['process_noise'] <= pn * 1.5000001, f"process noise {k['process_noise']} "
                    f'of a bootstrap fit, {pn} was given')
        for what in ('cleaning_sensitivity', 'clean_pruning_sensitivity'):
            v = alt[what + '_alternatives']
            ctx.require(min(v[0], v[-1]) - 1e-12 <= k[what] <= max(v[0], v[-1]) + 1e-12,
                        f'{what} {k[what]} of a bootstrap fit outside {v[0]} to {v[-1]}')
    later = [f['kw'] for f in rec.calls if not f['first']]
    if len(later) >= 15:
        for what, lo, hi in [(k, alt[k + '_alternatives'][0], alt[k + '_alternatives'][-1]) for k in (
                'cleaning_sensitivity', 'clean_pruning_sensitivity')] + [('process_noise', pn / 1.5, pn * 1.5)]:
            if lo != hi:
                p = stats.kstest([(k[what] - lo) / (hi - lo) for k in later], 'uniform').pvalue
                ctx.require(p > 1e-9, f'{what} of the bootstrap fits is not drawn between {lo} and {hi}: p={p:.1g}')
    unit = sum(f['res']['adf_res'][1] >= 0.05 for f in first)
    if unit > N / 2:
        ctx.label('not decomposable')
        ctx.require(status == 'err' and isinstance(out, RuntimeError),
                    f'{unit} of {N} fits with non-stationary residuals, but {out!r:.150}')
        return
    if len(first) == unit:
        ctx.label('no usable fit')
        return
    ctx.require(status == 'ok', f'raised {out!r:.200}; {len(first)} of {N} initial fits succeeded, '
                f'{unit} not stationary')
    best = first[int(np.argmax(weights(first)))]
    lev = (c['level'] or 68.2) / 200
    small = sum(f['res']['small_soiling_signal'] for f in first) > N / 2
    if small:
        ctx.label('small signal')
        y, ci, _ = degradation.degradation_year_on_year(pm)
        loss = [0, 0, 100 * (1 - best['df']['soiling_ratio']).mean()]
    else:
        used = [f for f in boot if f['res']['adf_res'][1] < 0.05]
        if not used:
            return
        ctx.require(len([f for f in rec.calls if not f['first']]) >= c['reps'], 'too few repetitions')
        w = weights(used)
        deg, los = ([f['res'][k] for f in used] for k in ('degradation', 'soiling_loss'))
        y, ci = np.dot(deg, w), np.quantile(deg, [.5 - lev, .5 + lev])
        loss = [np.dot(los, w)] + list(np.quantile(los, [.5 - lev, .5 + lev]))
        ctx.nontrivial(len(used) > 1)
    if c['api']:
        got_loss = [100 * (1 - out[0])] + list(100 * (1 - np.asarray(out[1])))
        got_deg, df = [out[2]] + list(out[3]), out[4]
    else:
        df, got_deg, got_loss = out
        ctx.require(obj.result_df is df or obj.result_df.equals(df), 'result_df attribute differs')
        ctx.close('attributes', list(obj.degradation) + list(obj.soiling_loss),
                  list(got_deg) + list(got_loss), 1e-12)
        ctx.require(bool(obj.small_soiling_signal) == small, 'small_soiling_signal attribute')
    ctx.close('soiling loss', got_loss, loss, 1e-9, 1e-10)
    ctx.close('degradation', got_deg, [y] + list(ci), *((0.02, 0.3) if small else (1e-9, 1e-12)))
    ratio = best['df']['soiling_ratio']
    if small:
        ctx.series('soiling ratio', df['soiling_ratio'], ratio, 1e-12)
        if not c['api']:
            ctx.close('residual shift', obj.residual_shift, best['res']['residual_shift'], 1e-12)
        return
    ratio = ratio.clip(0, 1)
    ctx.series('soiling ratio', df['soiling_ratio'], ratio, 1e-12)
    ctx.series('soiling rates', df['soiling_rates'].astype(float),
               best['df']['soiling_rates'].astype(float).where(ratio.diff() != 0, 0.0), 1e-12)
    for col, src, q in (('SR_low', 'soiling_ratio', -1), ('SR_high', 'soiling_ratio', 1),
                        ('rates_low', 'soiling_rates', -1), ('rates_high', 'soiling_rates', 1),
                        ('model_low', 'total_model', -1), ('model_high', 'total_model', 1),
                        ('bt_soiling_ratio', 'soiling_ratio', 0),
                        ('bt_soiling_rates', 'soiling_rates', 0),
                        ('cleaning_events', 'cleaning_events', 0)):
        # a sample that begins with missing days yields a shorter fit
        v = np.array([f['df'][src].astype(float).reindex(df.index).to_numpy() for f in used])
        ok = ~np.isnan(v).all(axis=0)
        v, g = v[:, ok], df[col].to_numpy(float)[ok]
        if q == 0:
            want = np.nansum(v * w[:, None], axis=0) / (~np.isnan(v) * w[:, None]).sum(axis=0)
        else:
            want = np.nanquantile(v, .5 + q * lev, axis=0)
        ctx.close(col, g, want, 1e-9, 1e-12)
    if not c['api']:
        identities(ctx, pm, df, got_deg[0], obj.residual_shift, obj.RMSE)
    sc = df['seasonal_component'].astype(float)
    amp = max(np.nanmax(np.abs(f['df']['seasonal_component'] - f['df']['seasonal_component'].mean()))
              for f in first) * 1.75 + 1e-9
    for col in ('seasonal_component', 'seasonal_low', 'seasonal_high'):
        x = df[col].astype(float).dropna()
        ctx.require(((x - 1).abs() <= amp).all(), f'{col} exceeds the perturbed seasonal amplitude')
    ctx.require(not (df['seasonal_low'] > df['seasonal_high']).any(), 'seasonal limits out of order')
    del sc


@st.composite
def real_cases(draw):
    h = draw(cods.history(soils=(0.0012, 0.002)))
    h.update(n=min(h['n'], 900), noise=0.004, start='2013-03-01', every=25, clean=1.0)
    return dict(h=h, seed=h['seed'], reps=16, level=draw(st.sampled_from([None, 95.0])),
                api=draw(st.booleans()), method=None)


def check_real(c, ctx):
    check_boot(c, ctx, real=True)


@st.composite
def bad(draw):
    return dict(n=draw(st.integers(30, 60)), freq=draw(st.sampled_from(['2D', 'h', None])),
                order=draw(st.sampled_from([['SC', 'Rd'], ['Rd'], ['SC']])))


def check_bad(c, ctx):
    idx = pd.date_range('2015-01-01', periods=c['n'], freq=c['freq'] or 'D')
    if c['freq'] is None:
        idx = idx.delete(c['n'] // 2)
    ctx.nontrivial()
    ctx.raises('frequency', ValueError, soiling.CODSAnalysis, pd.Series(1.0, index=idx))
    good = pd.Series(1.0, index=pd.date_range('2015-01-01', periods=c['n'], freq='D'))
    ctx.raises('order without SR', ValueError, soiling.CODSAnalysis(good).iterative_signal_decomposition,
               order=tuple(c['order']))


FACETS = [
    Facet('rejects', bad, check_bad, 20, 200, 'all cases'),
    Facet('decomposition', cases, check, 72, 2500, 'soiling present, several components'),
    Facet('bootstrap', boot_cases, check_boot, 120, 3000, 'several bootstrap fits used'),
    Facet('recovery', recover_cases, check_recover, 32, 800, 'all cases'),
    Facet('real bootstrap', real_cases, check_real, 16, 120, 'several bootstrap fits used'),
]
