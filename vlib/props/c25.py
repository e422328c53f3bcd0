"""C25: sensor-based analysis is the documented composition of steps."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import degradation, soiling
from ..core import Facet
from ..refs import chain, chainrun

RULE = ('plants of days to years with irradiance, temperature, wind, gaps and clipping; input types, '
        'interpolation, models and filters drawn freely; the workflow is written out step by step')
ASSUMPTIONS = ['the single steps (normalization, filters, aggregation, degradation, soiling) are taken '
               'from the library; they are the subject of C01-C24', 'pvlib is trusted']


@st.composite
def cases(draw):
    return dict(plant=draw(chain.plant()), cfg=draw(chain.config()))


def check(c, ctx):
    chainrun.compare(ctx, c, 'sensor')


def plain(freq='D'):
    return dict(pv_input='power', temp='cell', wind=None, model=None, rated=None, interp=None, gap=None,
                freq=freq, location=False, given_cs=False, cs_temp=None,
                flt=dict(f=dict(normalized_filter=0, poa_filter=0, tcell_filter=0, clip_filter=0,
                                clearsky_filter=0), a=dict(two_way_window_filter=0), ad=None, ad_agg=None,
                         set=False))


@st.composite
def long_cases(draw, shortest=False):
    cfg = draw(chain.config(freqs=('D', 'D', 'D', 'W')))
    cfg['interp'] = None
    f = cfg['flt']['f']
    if cfg['pv_input'] == 'energy':
        f.pop('clip_filter', None)
    if cfg['temp'] == 'expected':
        f.pop('tcell_filter', None)
    if shortest:
        # around the least length, without filters that shorten it
        days = (730, 732)
        cfg.update(freq='D', gap=None, flt=dict(plain()['flt'], f=dict(normalized_filter=0), a={}, set=True))
    else:
        days = (760, 1200)
    return dict(plant=draw(chain.plant(days=days, steps=(120,))), cfg=cfg,
                analyses=draw(st.sampled_from([['yoy_degradation'], ['yoy_degradation', 'srr_soiling'],
                                               ['srr_soiling'], None])),
                yoy=draw(st.fixed_dictionaries({}, optional=dict(
                    recenter=st.booleans(), exceedance_prob=st.sampled_from([90, 95]),
                    confidence_level=st.sampled_from([68.2, 95]),
                    uncertainty_method=st.sampled_from(['simple', 'circular_block'])))),
                srr=draw(st.fixed_dictionaries(dict(reps=st.just(5)), optional=dict(
                    method=st.sampled_from(['perfect_clean', 'random_clean']),
                    day_scale=st.sampled_from([7, 13])))))


def check_long(c, ctx):
    """Degradation and soiling are computed from the aggregated data with the given options."""
    got = chainrun.compare(ctx, c, 'sensor')
    if got is None:
        return
    judge(ctx, c, got, 'sensor')


def check_shortest(c, ctx):
    ctx.nontrivial()
    check_long(c, ctx)


def judge(ctx, c, got, case):
    ta, ref, d = got
    perf = ref['performance']
    days = (perf.index[-1] - perf.index[0]) / pd.Timedelta(days=1)
    kw = dict(yoy_kwargs=c['yoy'], srr_kwargs=c['srr'])
    analyses = ['yoy_degradation']
    if c['analyses'] is not None:
        kw['analyses'] = analyses = c['analyses']
    seed = c['plant']['seed']
    ctx.reseed(seed)
    status, out = ctx.outcome(chainrun.run, ta, case, **kw)
    if 'yoy_degradation' in analyses and days < 730:
        ctx.label('too short')
        ctx.require(status == 'err' and isinstance(out, ValueError), 'less than two years after filtering '
                    f'({days:.1f} days) but {out!r:.100}')
        return
    if 'srr_soiling' in analyses and c['cfg']['freq'] != 'D':
        ctx.label('not daily')
        ctx.require(status == 'err' and isinstance(out, ValueError),
                    f'soiling analysis of weekly data: {out!r:.100}')
        return
    want = {}
    ctx.reseed(seed)
    try:
        # exactly the data the analysis used, so that random draws coincide
        p = getattr(ta, f'{case}_aggregated_performance')
        i = getattr(ta, f'{case}_aggregated_insolation')
        if 'yoy_degradation' in analyses:
            want['yoy_degradation'] = degradation.degradation_year_on_year(p, **c['yoy'])
        if 'srr_soiling' in analyses:
            want['srr_soiling'] = soiling.soiling_srr(p, i, **c['srr'])
    except Exception as e:
        ctx.label('step raises')
        ctx.require(status == 'err' and type(out) is type(e), f'step by step raises {e!r:.100}, '
                    f'analysis gives {out!r:.100}')
        return
    ctx.require(status == 'ok', f'raised {out!r:.200}')
    res = ta.results[case]
    ctx.require(set(res) == set(want), f'results {sorted(res)}, expected {sorted(want)}')
    if 'yoy_degradation' in want:
        rd, ci, info = want['yoy_degradation']
        r = res['yoy_degradation']
        ctx.close('degradation rate', r['p50_rd'], rd, 1e-12)
        ctx.close('degradation interval', r['rd_confidence_interval'], ci, 1e-12)
        if 'YoY_values' in info:
            ctx.series('year-on-year slopes', r['calc_info']['YoY_values'], info['YoY_values'], 1e-12)
        ctx.label('yoy')
        cfg = c['cfg']
        good = (cfg['temp'] in ('cell', 'expected+cell') and c['plant']['cloud'] == 0 and case == 'sensor'
                and not c['plant']['clip'] and cfg['freq'] == 'D' and cfg['flt']['ad'] is None
                and c['plant']['drop'] == 0 and c['plant']['nan'] == 0
                and cfg['flt']['ad_agg'] is None)
        if good:
            ctx.label('known rate')
            ctx.require(abs(rd - c['plant']['rate']) < 0.2, f"degradation {rd:.3f} %/yr of a plant that "
                        f"degrades by {c['plant']['rate']}")
    if 'srr_soiling' in want:
        sr, ci, info = want['srr_soiling']
        r = res['srr_soiling']
        ctx.close('soiling ratio', r['p50_sratio'], sr, 1e-12)
        ctx.close('soiling interval', r['sratio_confidence_interval'], ci, 1e-12)
        ctx.close('exceedance', r['calc_info']['exceedance_level'], info['exceedance_level'], 1e-12)
        ctx.label('srr')


@st.composite
def unit_cases(draw):
    c = dict(plant=draw(chain.plant(days=(3, 15))), cfg=draw(chain.config()),
             k=draw(st.sampled_from([1024.0, 1 / 8])))
    c['cfg']['flt']['f'].pop('clip_filter', None)
    c['cfg']['rated'] = None
    if c['cfg']['temp'].startswith('expected'):
        c['cfg']['temp'] = 'cell'
    return c


def check_units(c, ctx):
    """Without a rating, the unit of the PV data cancels out of everything."""
    d = chainrun.data(c)
    out = []
    for k in (1.0, c['k']):
        e = dict(d, pv=d['pv'] * k)
        ta, _, _ = chainrun.make(c['cfg'], e)
        out.append((ta, ctx.outcome(chainrun.run, ta, 'sensor', analyses=[])))
    (a, (s1, o1)), (b, (s2, o2)) = out
    ctx.require(s1 == s2, f'outcome depends on the unit: {o1!r:.100} / {o2!r:.100}')
    if s1 == 'err':
        return
    ctx.nontrivial(a.sensor_filter.sum() > 5)
    ctx.mask('combined filter', b.sensor_filter, a.sensor_filter.index, a.sensor_filter.to_numpy())
    ctx.series('performance', b.sensor_aggregated_performance, a.sensor_aggregated_performance, 1e-9)
    ctx.series('insolation', b.sensor_aggregated_insolation, a.sensor_aggregated_insolation, 1e-12)


@st.composite
def missing(draw):
    return dict(plant=draw(chain.plant(days=(3, 4), steps=(60,))),
                what=draw(st.sampled_from(['poa', 'temp', 'model', 'energy clip', 'clearsky', 'hour angle',
                                           'sensor clearsky', 'model dict',
                                           'measured irradiance'])))


def check_missing(c, ctx):
    """Analyses that lack an input they need are refused."""
    d = chain.build(c['plant'])
    from rdtools import TrendAnalysis
    base = dict(poa_global=d['poa'], temperature_cell=d['tcell'])
    exc, case = ValueError, 'sensor'
    w = c['what']
    if w == 'poa':
        base.pop('poa_global')
    elif w == 'temp':
        base.pop('temperature_cell')
    elif w in ('model', 'model dict'):
        base.pop('temperature_cell')
        base.update(temperature_ambient=d['tamb'], temperature_model='nonsense' if w == 'model' else dict(a=1))
        exc = KeyError if w == 'model' else ValueError
    elif w == 'energy clip':
        base['pv_input'] = 'energy'
    elif w == 'clearsky':
        exc, case = AttributeError, 'clearsky'
    elif w == 'measured irradiance':
        base.pop('poa_global')
        case = 'clearsky'
    ta = TrendAnalysis(d['pv'], **base)
    if w == 'measured irradiance':
        ta.set_clearsky(pvlib_location=chain.LOC, pv_tilt=20, pv_azimuth=180, poa_global_clearsky=d['clear'],
                        temperature_cell_clearsky=d['tcell_cs'])
    if w == 'hour angle':
        ta.filter_params['hour_angle_filter'] = {}
    if w == 'sensor clearsky':
        ta.filter_params['sensor_clearsky_filter'] = {}
        exc = AttributeError
    ctx.nontrivial()
    ctx.raises(f'{case}_analysis without {w}', exc, chainrun.run, ta, case, analyses=[])


FACETS = [
    Facet('composition', lambda: cases().map(chain.fit), check, 400, 8000, 'several filters, several bins kept'),
    Facet('results', lambda: long_cases().map(chain.fit), check_long, 48, 800, 'several filters, several bins kept'),
    Facet('shortest', lambda: long_cases(True).map(chain.fit), check_shortest, 24, 200, 'all cases'),
    Facet('units', lambda: unit_cases().map(chain.fit), check_units, 80, 1500, 'points kept'),
    Facet('requirements', missing, check_missing, 60, 400, 'all cases'),
]
