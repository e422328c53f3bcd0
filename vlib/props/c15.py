"""C15: clear-sky filters."""
import numpy as np
import pandas as pd
import pvlib
from hypothesis import strategies as st

from rdtools import filtering
from ..core import Facet
from .. import gen

RULE = ('measured/clear-sky irradiance with clouds and NaNs; csi judged pointwise, the pvlib '
        'wrapper judged against a direct pvlib call with independently looked-up parameters')
ASSUMPTIONS = ["pvlib's detect_clearsky is trusted", 'csi verdicts within 1e-9 of the threshold '
               'are not judged']


@st.composite
def csi_cases(draw):
    n = draw(st.integers(1, 20))
    thr = draw(st.sampled_from([None, 0.15, 0.05, 0.25, 0.5]))
    t = 0.15 if thr is None else thr
    clear = st.one_of(st.integers(0, 1200).map(float), st.just(0.0), st.none())
    ratio = st.one_of(st.floats(0.3, 1.8), st.sampled_from([1.0, 1 - t + 1e-6, 1 + t - 1e-6,
                                                           1 - t - 1e-6, 1 + t + 1e-6]), st.none())
    return dict(clear=draw(st.lists(clear, min_size=n, max_size=n)),
                ratio=draw(st.lists(ratio, min_size=n, max_size=n)), thr=thr,
                wrapper=draw(st.booleans()), tz=draw(gen.tz))


def check_csi(c, ctx):
    clear = gen.arr(c['clear'])
    r = gen.arr(c['ratio'])
    idx = gen.regular_index('2019-01-01', 15, len(clear), c['tz'])
    meas = np.where(clear == 0, np.where(np.nan_to_num(r) > 1, 5.0, 0.0), clear * r)
    m, cs = pd.Series(meas, index=idx), pd.Series(clear, index=idx)
    kw = {} if c['thr'] is None else dict(threshold=c['thr'])
    if c['wrapper']:
        got = ctx.call('clearsky_filter csi', filtering.clearsky_filter, m, cs, model='csi', **kw)
    else:
        got = ctx.call('csi_filter', filtering.csi_filter, m, cs, **kw)
    t = 0.15 if c['thr'] is None else c['thr']
    want, amb = [], []
    for a, b in zip(meas, clear):
        if np.isnan(a) or np.isnan(b) or b == 0:
            want.append(False)
            amb.append(False)
            continue
        k = a / b
        want.append(abs(k - 1) <= t)
        amb.append(abs(abs(k - 1) - t) < 1e-9)
    ctx.nontrivial(any(want) and not all(want))
    ctx.mask('csi', got, idx, want, amb)


@st.composite
def pv_cases(draw):
    step = draw(st.sampled_from([0.5, 1, 2, 5, 7, 10, 15, 20, 30, 35, 40, 60]))
    return dict(step=step, n=draw(st.integers(30, 90)) * (6 if step < 5 else 2), seed=draw(gen.seed32),
                cloud=draw(st.sampled_from([0.02, 0.1, 0.3])), tz=draw(gen.tz),
                scale=draw(st.sampled_from([1.0, 1.04, 0.93])),
                noise=draw(st.sampled_from([0.0, 0.01])),
                ramp=draw(st.sampled_from([False, False, True])), bumps=draw(st.sampled_from([0.0, 0.0, 0.04, 0.1])),
                lookup=draw(st.sampled_from([None, False, True, True])), freqd=draw(st.booleans()),
                kw=draw(st.fixed_dictionaries({}, optional={
                    'window_length': st.sampled_from([60, 120, 180]),
                    'mean_diff': st.sampled_from([20, 75, 150]),
                    'max_diff': st.sampled_from([20, 60, 120]),
                    'lower_line_length': st.sampled_from([-10, -45, -90]),
                    'upper_line_length': st.sampled_from([10, 80, 160]),
                    'var_diff': st.sampled_from([0.005, 0.02, 0.1]),
                    'slope_dev': st.sampled_from([20, 75, 150]),
                    'max_iterations': st.sampled_from([1, 5])})),
                wrapper=draw(st.sampled_from(['direct', 'wrapper', 'default model'])),
                cut=draw(st.sampled_from([None, None, [3, 0, 0, 5], [0, 4, 6, 0], [0, 0, 2, 2], [5, 5, 0, 0]])),
                parts=draw(st.sampled_from([None, None, None, True, False])))


def check_pv(c, ctx):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n = c['n']
    idx = gen.regular_index('2019-06-01 09:00', c['step'], n, c['tz'])
    h = np.arange(n) * c['step'] / 60.0
    clear = 950 * np.clip(np.cos((h % 24 - 4) / 12 * np.pi), 0.0, None) + 5
    meas = clear * c['scale'] * (1 + c['noise'] * r.standard_normal(n))
    k = r.random(n) < c['cloud']
    meas[k] *= r.uniform(0.2, 0.9, k.sum())
    k = r.random(n) < c['bumps']      # isolated deviations of the size of the thresholds
    meas[k] += r.uniform(-140, 140, k.sum())
    if c.get('ramp'):
        # an offset that slowly passes all the thresholds of the looked up maximum difference
        meas = clear * c['scale'] + r.permutation(np.arange(40))[0] / 20 + np.linspace(50, 105, n)
        c = dict(c, kw=dict(mean_diff=1000, lower_line_length=-1e4, upper_line_length=1e4))
    m, cs = pd.Series(meas, index=idx, name='a'), pd.Series(clear, index=idx, name='b')
    if not c['freqd']:
        m.index = pd.DatetimeIndex(list(idx))
        cs.index = m.index
    kw = dict(c['kw'])
    user = dict(kw)
    if 'window_length' in kw:
        kw['window_length'] = user['window_length'] = max(kw['window_length'], 4 * c['step'])
    elif 90 < 4 * c['step']:
        kw['window_length'] = user['window_length'] = 4 * c['step']
    p = dict(window_length=90, mean_diff=75, max_diff=75, lower_line_length=-45,
             upper_line_length=80, var_diff=0.032, slope_dev=75)
    p.update(user)
    if c['lookup'] is not None:
        kw['lookup_parameters'] = c['lookup']
    if c['lookup'] and c['freqd']:
        f = [1, 5, 15, 30]
        if c['step'] > 30 and 120 / c['step'] < 3:
            return
        p['window_length'] = float(np.interp(c['step'], f, [50, 60, 90, 120]))
        p['max_diff'] = float(np.interp(c['step'], f, [60, 65, 75, 90]))
        p['var_diff'] = float(np.interp(c['step'], f, [0.005, 0.01, 0.032, 0.07]))
        p['slope_dev'] = float(np.interp(c['step'], f, [50, 60, 75, 96]))
        ctx.label('looked up')
    if c.get('parts') is not None:
        kw['return_components'] = c['parts']            # documented to be without effect
    if c.get('cut'):
        # stamps that only one of the two has: judged like missing values
        a, b, d, e = c['cut']
        m, cs = m.iloc[a:n - b], cs.iloc[d:n - e]
        ctx.label('different stamps')
    both = m.index.union(cs.index)
    st_, want = ctx.outcome(pvlib.clearsky.detect_clearsky, m.reindex(both), cs.reindex(both), **p)
    if st_ == 'err':
        ctx.label('pvlib refuses')
        return
    if c['wrapper'] == 'direct':
        got = ctx.call('pvlib_clearsky_filter', filtering.pvlib_clearsky_filter, m, cs, **kw)
    elif c['wrapper'] == 'wrapper':
        got = ctx.call('clearsky_filter', filtering.clearsky_filter, m, cs, model='pvlib', **kw)
    else:
        got = ctx.call('clearsky_filter', filtering.clearsky_filter, m, cs, **kw)
    want = want.to_numpy().astype(bool)
    ctx.nontrivial(want.any() and not want.all())
    ctx.label(f'step {c["step"]}')
    ctx.mask('pvlib clear sky', got, both, want)


@st.composite
def bad(draw):
    return dict(model=draw(st.sampled_from(['', 'CSI', 'reno', 'pv', 'Pvlib', 'csi '])),
                n=draw(st.integers(5, 30)))


def check_bad(c, ctx):
    s = pd.Series(500.0, index=pd.date_range('2019-01-01', periods=c['n'], freq='15min', tz='UTC'))
    ctx.nontrivial()
    ctx.raises('unknown model', ValueError, filtering.clearsky_filter, s, s, model=c['model'])
    ctx.raises('unknown clip model', ValueError, filtering.clip_filter, s, model=c['model'])


FACETS = [
    Facet('csi', csi_cases, check_csi, 1600, 20000, 'some points kept, some rejected'),
    Facet('pvlib', pv_cases, check_pv, 1200, 12000, 'some points kept, some rejected'),
    Facet('rejects', bad, check_bad, 60, 200, 'all cases'),
]
