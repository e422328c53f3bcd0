"""Run TrendAnalysis on a generated plant and configuration, and compare with the reference."""
import contextlib
import io
import warnings

import numpy as np
import pandas as pd

from rdtools import TrendAnalysis
from . import chain


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def make(c, d):
    """TrendAnalysis object configured as the case says; returns it with its ad hoc filters."""
    kw, cs = chain.arguments(c, d)
    ta = TrendAnalysis(d['pv'], **kw)
    if cs is not None:
        ta.set_clearsky(**cs)
    f, a = chain.settings(c['flt'])
    ad = chain.adhoc_series(c['flt']['ad'], ta.pv_energy.index)
    bins = ta.pv_energy.resample(c['freq'], origin='start_day').sum().index
    ad_agg = chain.adhoc_series(c['flt']['ad_agg'], bins)
    if c['flt']['set']:
        f['ad_hoc_filter'], a['ad_hoc_filter'] = ad, ad_agg
        quiet(setattr, ta, 'filter_params', f)
        quiet(setattr, ta, 'filter_params_aggregated', a)
    else:
        for have, want in ((ta.filter_params, f), (ta.filter_params_aggregated, a)):
            for k in list(have):
                if k not in want and k != 'ad_hoc_filter':
                    del have[k]
            for k, v in want.items():
                if not (k == 'tcell_filter' and c['temp'] == 'expected'):
                    have[k] = v
        ta.filter_params['ad_hoc_filter'] = ad
        ta.filter_params_aggregated['ad_hoc_filter'] = ad_agg
    return ta, ad, ad_agg


def run(ta, case, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        quiet(getattr(ta, f'{case}_analysis'), **kw)
    return [str(x.message) for x in w]


def data(c):
    d = chain.build(c['plant'])
    if c['cfg']['pv_input'] == 'energy':
        d['pv'] = d['pv'] * (c['plant']['step'] / 60.0)
    d['gamma'] = c['plant']['gamma']
    return d


def compare(ctx, c, case):
    """Preprocess only; every intermediate result against the reference."""
    cfg, d = c['cfg'], data(c)
    keep = {k: v.copy() for k, v in d.items() if isinstance(v, pd.Series)}
    ta, ad, ad_agg = make(cfg, d)
    ad0 = None if ad is None else ad.copy()
    agg0 = None if ad_agg is None else ad_agg.copy()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ref = chain.reference(cfg, d, ad0, agg0, case)
    except chain.Expect as e:
        if e.args[0] is None:
            ctx.label(e.args[1])
            # there is no degradation rate to report, and the analysis says so
            ctx.raises(f'{case}_analysis with {e.args[1]}', ValueError, run, ta, case, analyses=['yoy_degradation'])
            return None
        ctx.label('rejected')
        ctx.raises(f'{case}_analysis', e.args[0], run, ta, case, analyses=[])
        return None
    except Exception as e:
        # a single step cannot handle the data: neither can the analysis
        ctx.label(f'step raises {type(e).__name__}')
        status, out = ctx.outcome(run, ta, case, analyses=[])
        ctx.require(status == 'err' and isinstance(out, type(e)), f'step by step raises {e!r:.100}, the '
                    f'analysis {"ends" if status == "ok" else repr(out)[:100]}')
        return None
    msgs = ctx.call(f'{case}_analysis', run, ta, case, analyses=[])
    ctx.nontrivial(len(ref['masks']) > 1 and ref['akeep'].sum() > 1)
    ctx.label(cfg['temp'])
    comp = getattr(ta, f'{case}_filter_components')
    ctx.same_index('filter components', comp.index, ref['stamps'])
    ctx.require(set(comp.columns) == set(ref['masks']), f'filters applied: {sorted(comp.columns)}, '
                f"expected {sorted(ref['masks'])}")
    for k, m in ref['masks'].items():
        ctx.mask(k, comp[k], ref['stamps'], m)
    # whether stamps without energy count as kept does not matter
    ctx.mask('combined filter', getattr(ta, f'{case}_filter'), ref['stamps'], ref['keep'],
             ~ref['stamps'].isin(ref['norm'].index))
    acomp = getattr(ta, f'{case}_filter_components_aggregated')
    ctx.require(set(acomp.columns) == set(ref['amasks']), f'aggregated filters: {sorted(acomp.columns)}, '
                f"expected {sorted(ref['amasks'])}")
    for k, m in ref['amasks'].items():
        ctx.mask(k + ' (aggregated)', acomp[k], ref['agg'].index, m)
    ctx.mask('combined aggregated filter', getattr(ta, f'{case}_filter_aggregated'), ref['agg'].index,
             ref['akeep'])
    for what, have, want in (('performance', getattr(ta, f'{case}_aggregated_performance'), ref['performance']),
                             ('insolation', getattr(ta, f'{case}_aggregated_insolation'), ref['insolation'])):
        ctx.series(f'aggregated {what}', have, want, 1e-9, 1e-12)
    for spec, series, index, text in ((ad, ad0, ref['stamps'], 'ad_hoc_filter'),
                                      (ad_agg, agg0, ref['agg'].index, 'ggregated ad_hoc_filter')):
        if series is None:
            continue
        mine = [m for m in msgs if text in m and ('ggregated' in m) == ('ggregated' in text)]
        nan = any('NaN' in m for m in mine)
        ctx.require(nan == bool(series.isnull().any()), f'{text}: warning about NaN {nan}')
        off = any('does not match' in m for m in mine)
        ctx.require(off == (not index.equals(series.index)), f'{text}: warning about the index {off}')
        ctx.label('ad hoc')
    if d['gamma'] is None and not cfg['temp'].startswith('expected'):
        ctx.require(any('emperature coefficient' in m for m in msgs), 'no warning without gamma_pdc')
    for k, v in keep.items():
        ctx.require(d[k].equals(v), f'input {k} was modified')
    for what, now, before in (('ad hoc filter', ad, ad0), ('aggregated ad hoc filter', ad_agg, agg0)):
        if before is not None:
            ctx.require(now.equals(before), f"the caller's {what} was modified")
    return ta, ref, d
