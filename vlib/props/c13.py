"""C13: model-based clipping filter."""
import os

import numpy as np
import pandas as pd
import xgboost
from hypothesis import strategies as st

import rdtools
from rdtools import filtering
from ..core import Facet
from .. import gen
from ..refs import clip

RULE = ('multi-day power as in C12; features recomputed window by window, verdicts of the shipped '
        'classifier on them turned into daily bands')
ASSUMPTIONS = ['the shipped classifier file and xgboost itself are trusted', 'whole-minute most '
               'common step', 'a day is not judged when a prediction that affects it changes under '
               '1e-9 perturbations of the features']
_model = None


def model():
    global _model
    if _model is None:
        _model = xgboost.XGBClassifier()
        _model.load_model(os.path.join(os.path.dirname(rdtools.__file__), 'models',
                                       'xgboost_clipping_model.json'))
        _model.set_params(n_jobs=1)
    return _model


def centred(x, k, f):
    """Centred window of k values (for even k the later half is the shorter one)."""
    out = np.full(len(x), np.nan)
    off = (k - 1) // 2
    for i in range(len(x)):
        lo, hi = i + off - k + 1, i + off + 1
        if lo < 0 or hi > len(x):
            continue
        w = x[lo:hi]
        if not np.isnan(w).any():
            out[i] = f(w)
    return out


def diff(x):
    return np.concatenate([[np.nan], x[1:] - x[:-1]])


def shift_diff(x):
    d = np.full(len(x), np.nan)
    d[1:-1] = x[2:] - x[1:-1]
    return d


def scaled(v):
    lo, hi = np.nanmin(v), np.nanmax(v)
    return (v - lo) / (hi - lo)


def features(v, day, step):
    k = 5 if step < 10 else 3 if step < 60 else 2
    s = scaled(v)
    avg = centred(s, k, np.mean)
    back = diff(s)
    rng = np.full(len(s), np.nan)
    for i in range(len(s) - k + 1):
        w = s[i:i + k]
        if not np.isnan(w).any() and w.max() + w.min() != 0:
            rng[i] = (w.max() - w.min()) / ((w.max() + w.min()) / 2) * 100
    dmax = np.full(len(s), np.nan)
    for d in np.unique(day):
        m = day == d
        if not np.isnan(s[m]).all():
            dmax[m] = np.nanmax(s[m])
    pct = s / (dmax + 0.00001)
    return dict(
        first_order_derivative_backward=back,
        first_order_derivative_forward=shift_diff(s),
        first_order_derivative_backward_rolling_avg=diff(avg),
        first_order_derivative_forward_rolling_avg=shift_diff(avg),
        sampling_frequency=None, mounting_config_bool=None,
        scaled_value=s, rolling_average=avg, daily_max=dmax, percent_daily_max=pct,
        deriv_max=rng,
        deriv_backward_rolling_stdev=centred(back, k, lambda w: np.std(w, ddof=1)),
        deriv_backward_rolling_mean=centred(back, k, np.mean),
        deriv_backward_rolling_median=centred(back, k, np.median),
        deriv_backward_rolling_min=centred(back, k, np.min),
        deriv_backward_rolling_max=centred(back, k, np.max))


def reference(s, mount, seed):
    t, v = gen.ns(s.index), s.to_numpy(float)
    day = clip.days_of(s.index)
    step = int(clip.mode_step(s.index))
    grid, w = clip.grid_interp(t, v, step * 60 * 10**9)
    loc = s.index.tz_localize(None) if s.index.tz is not None else s.index
    off = loc.as_unit('ns').to_numpy().astype('int64') - t
    if len(np.unique(off)) > 1:
        raise clip.Tie()
    fstep = step
    if step < 5:
        q = 5 * 60 * 10**9
        b = (grid + off[0]) // q
        lab = np.arange(b.min(), b.max() + 1)
        o = np.full(len(lab), np.nan)
        for i, g in enumerate(lab):
            x = w[b == g]
            x = x[~np.isnan(x)]
            if len(x):
                o[i] = x.mean()
        grid, w, fstep = lab * q - off[0], o, 5
    gday = (grid + off[0]) // 86400_000_000_000
    f = features(w, gday, step)
    f['sampling_frequency'] = np.full(len(w), float(fstep))
    f['mounting_config_bool'] = np.full(len(w), 1.0 if mount == 'single_axis_tracking' else 0.0)
    X = pd.DataFrame(f)
    ok = ~X.isna().any(axis=1).to_numpy()
    rows = X[ok]
    if len(rows) == 0:
        return None
    pred = model().predict(rows).astype(bool)
    r = np.random.Generator(np.random.PCG64(seed))
    shaky = np.zeros(len(rows), bool)
    for amp in (1e-9, 1e-9, 1e-12, 1e-15):
        noise = r.uniform(-1, 1, rows.shape) * amp
        noise[:, 4:6] = 0
        shaky |= model().predict(rows + noise).astype(bool) != pred
    gt = grid[ok]
    pos = np.searchsorted(gt, t, side='right') - 1
    flag = np.where(pos >= 0, pred[np.maximum(pos, 0)], False)
    unsure = np.where(pos >= 0, shaky[np.maximum(pos, 0)], False)
    sv = scaled(v)
    final, judged = np.zeros(len(v), bool), np.ones(len(v), bool)
    for d in np.unique(day):
        m = day == d
        if unsure[m].any():
            judged[m] = False
        x = sv[m & flag]
        x = x[~np.isnan(x)]
        if not len(x) or np.isnan(sv[m]).all():
            continue
        hi, lo = x.max(), x.min()
        pct = sv[m] / (np.nanmax(sv[m]) + 0.00001)
        if step < 5:
            lo = max(lo, hi * 0.96)
        bound = 0.9 if step < 5 else 0.95
        final[m] = (sv[m] >= lo) & (pct >= bound) & (sv[m] <= hi * 1.0025) & (sv[m] >= 0.1)
        for a, lev in ((sv[m], lo), (pct, bound), (sv[m], hi * 1.0025), (sv[m], 0.1)):
            with np.errstate(invalid='ignore'):
                judged[m] &= ~(np.abs(a - lev) <= 1e-10) | (a == lev)
    return final, judged, step


@st.composite
def cases(draw):
    return dict(p=draw(clip.plant(steps=(1, 2, 4, 5, 5, 10, 15, 15, 15, 30, 60))),
                mount=draw(st.sampled_from([None, 'fixed', 'single_axis_tracking'])),
                wrapper=draw(st.booleans()))


def check(c, ctx):
    s = clip.build(c['p'])
    if len(s) <= 10 or s.notna().sum() < 8 or not s.max() > s.min():
        ctx.label('too short')
        return
    try:
        ref = reference(s, c['mount'] or 'fixed', c['p']['seed'])
    except clip.Tie:
        ctx.label('tie')
        return
    if ref is None:
        ctx.label('no features')
        return
    want, judged, step = ref
    kw = {} if c['mount'] is None else dict(mounting_type=c['mount'])
    if c['wrapper']:
        got = ctx.call('clip_filter', filtering.clip_filter, s, model='xgboost', **kw)
    else:
        got = ctx.call('xgboost_clip_filter', filtering.xgboost_clip_filter, s, **kw)
    ctx.label(f'step {step}')
    if not judged.all():
        ctx.label('days not judged')
    ctx.nontrivial(want[judged].any() and not want[judged].all())
    ctx.mask('model clip', got, s.index, ~want, ~judged)


def check_units(c, ctx):
    """The verdict does not depend on the unit of power (exact factor) or an index name."""
    s = clip.build(c['p'])
    if len(s) <= 10 or s.notna().sum() < 8 or not s.max() > s.min():
        return
    ref = None
    try:
        ref = reference(s, c['mount'] or 'fixed', c['p']['seed'])
    except clip.Tie:
        pass
    if ref is None:
        return
    kw = {} if c['mount'] is None else dict(mounting_type=c['mount'])
    a = ctx.call('xgboost_clip_filter', filtering.xgboost_clip_filter, s, **kw)
    b = ctx.call('xgboost_clip_filter', filtering.xgboost_clip_filter,
                 (s * 256.0).rename('other').rename_axis('when'), **kw)
    ctx.nontrivial((~a).any())
    ctx.require(a.to_numpy().tolist() == b.to_numpy().tolist(),
                'verdict depends on the unit of power or on names')


FACETS = [
    Facet('flags', cases, check, 800, 8000, 'some judged points flagged, some not'),
    Facet('units', cases, check_units, 160, 1500, 'a point is flagged'),
]
