"""C26: clear-sky analysis is the documented composition of steps."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import TrendAnalysis
from ..core import Facet
from ..refs import chain, chainrun
from . import c25

RULE = ('plants of days to years; clear-sky irradiance and temperatures given or modelled; input types, '
        'models and filters drawn freely; the workflow is written out step by step')
ASSUMPTIONS = c25.ASSUMPTIONS + ['the temperature climatology file is a synthetic one of the same format']


@st.composite
def cases(draw):
    return dict(plant=draw(chain.plant(days=(3, 40))), cfg=draw(chain.config(clearsky=True)))


def check(c, ctx):
    got = chainrun.compare(ctx, c, 'clearsky')
    if got is None:
        return
    ta, ref, d = got
    ctx.label('irradiance given' if c['cfg']['given_cs'] else 'irradiance modelled')
    ctx.label(f"temperature: {c['cfg']['cs_temp']}")
    ctx.series('clear-sky irradiance', ta.poa_global_clearsky, ref['poa_cs'], 1e-9, 1e-9)
    ctx.series('clear-sky cell temperature', ta.temperature_cell_clearsky, ref['t'], 1e-9, 1e-9)


@st.composite
def long_cases(draw):
    cfg = draw(chain.config(clearsky=True, freqs=('D', 'D', 'D', 'W')))
    cfg.update(interp=None, given_cs=True)
    if cfg['pv_input'] == 'energy':
        cfg['flt']['f'].pop('clip_filter', None)
    cfg['flt']['f'].pop('hour_angle_filter', None)
    return dict(plant=draw(chain.plant(days=(760, 1000), steps=(120,))), cfg=cfg,
                analyses=draw(st.sampled_from([['yoy_degradation'], ['yoy_degradation', 'srr_soiling'], None])),
                yoy=draw(st.fixed_dictionaries({}, optional=dict(recenter=st.booleans()))),
                srr=draw(st.fixed_dictionaries(dict(reps=st.just(5)))))


def check_long(c, ctx):
    got = chainrun.compare(ctx, c, 'clearsky')
    if got is not None:
        c25.judge(ctx, c, got, 'clearsky')


@st.composite
def order_cases(draw):
    return dict(plant=draw(chain.plant(days=(4, 30))), cfg=draw(chain.config(clearsky=True)),
                plan=draw(st.lists(st.sampled_from(['sensor', 'clearsky']), min_size=1, max_size=3)),
                last=draw(st.sampled_from(['sensor', 'clearsky'])))


def snapshot(ta, case):
    out = {}
    for k in ('filter', 'filter_aggregated', 'aggregated_performance', 'aggregated_insolation'):
        out[k] = getattr(ta, f'{case}_{k}')
    return out


def check_order(c, ctx):
    """What was analysed before does not change an analysis."""
    d = chainrun.data(c)
    fresh, _, _ = chainrun.make(c['cfg'], d)
    s1, o1 = ctx.outcome(chainrun.run, fresh, c['last'], analyses=[])
    ta, _, _ = chainrun.make(c['cfg'], d)
    for case in c['plan']:
        ctx.outcome(chainrun.run, ta, case, analyses=[])
    s2, o2 = ctx.outcome(chainrun.run, ta, c['last'], analyses=[])
    ctx.require(s1 == s2, f"{c['last']} analysis after {c['plan']}: {o2!r:.100}, alone: {o1!r:.100}")
    if s1 == 'err':
        ctx.label('raises')
        ctx.require(type(o1) is type(o2), f'{o1!r:.100} / {o2!r:.100}')
        return
    ctx.nontrivial(c['plan'] != [c['last']] and fresh.pv_energy.notna().any())
    a, b = snapshot(fresh, c['last']), snapshot(ta, c['last'])
    for k in a:
        ctx.require(a[k].equals(b[k]), f"{c['last']} {k} differs after running {c['plan']} before")


@st.composite
def tracker_cases(draw):
    return dict(plant=draw(chain.plant(days=(3, 10), steps=(60, 30))), which=draw(st.lists(
        st.sampled_from(['pv_tilt', 'pv_azimuth', 'albedo']), min_size=1, max_size=3, unique=True)),
        tilt=draw(st.sampled_from([0, 20, 35.5])), azimuth=draw(st.sampled_from([180, 120.0, 270])),
        albedo=draw(st.sampled_from([0.25, 0.0, 0.6])))


def check_tracker(c, ctx):
    """A constant series of tilt, azimuth or albedo means the same as the number."""
    d = chain.build(c['plant'])
    out = []
    for series in (False, True):
        ta = TrendAnalysis(d['pv'], poa_global=d['poa'], temperature_cell=d['tcell'], gamma_pdc=-0.004)
        kw = dict(pv_tilt=c['tilt'], pv_azimuth=c['azimuth'], albedo=c['albedo'])
        if series:
            for k in c['which']:
                kw[k] = pd.Series(float(kw[k]), index=d['pv'].index)
        ta.set_clearsky(pvlib_location=chain.LOC, temperature_ambient_clearsky=d['tamb_cs'], **kw)
        ta.filter_params['clearsky_filter'] = dict(model='csi')
        status, value = ctx.outcome(chainrun.run, ta, 'clearsky', analyses=[])
        out.append((status, value if status == 'err' else ta.poa_global_clearsky))
    (s1, a), (s2, b) = out
    if s1 == 'err':
        ctx.label('raises')
        return
    ctx.require(s2 == 'ok', f"constant series for {c['which']}: {b!r:.150}")
    ctx.nontrivial(a.max() > 100)
    ctx.series('clear-sky irradiance', b, a, 1e-9, 1e-6)


FACETS = [
    Facet('composition', lambda: cases().map(chain.fit), check, 200, 4000, 'several filters, several bins kept'),
    Facet('results', lambda: long_cases().map(chain.fit), check_long, 32, 500, 'several filters, several bins kept'),
    Facet('series', tracker_cases, check_tracker, 60, 800, 'irradiance above 100 W/m2'),
    Facet('order', lambda: order_cases().map(chain.fit), check_order, 80, 1500, 'another analysis was run before'),
]
