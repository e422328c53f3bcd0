"""Generated plants for the end-to-end analysis, and the workflow written out step by step."""
import numpy as np
import pandas as pd
import pvlib
from hypothesis import strategies as st

from rdtools import (aggregation, clearsky_temperature, filtering, normalization, utilities)
from .. import gen


class Expect(Exception):
    """The reference says that the analysis must reject the configuration."""


@st.composite
def plant(draw, days=(3, 60), steps=(60, 30, 15, 120)):
    return dict(days=draw(st.integers(*days)), step=draw(st.sampled_from(list(steps))),
                seed=draw(gen.seed32), tz=draw(st.sampled_from(['UTC', 'America/Denver', 'Etc/GMT+7', None])),
                start=draw(st.sampled_from(['2015-01-01', '2016-03-10 13:30', '2018-11-01', '2019-06-15 00:15'])),
                rate=draw(st.sampled_from([0.0, -0.5, -1.0, 1.0])),
                cloud=draw(st.sampled_from([0.0, 0.3])), nan=draw(st.sampled_from([0.0, 0.0, 0.02])),
                drop=draw(st.sampled_from([0.0, 0.0, 0.02])), clip=draw(st.sampled_from([False, False, True])),
                scale=draw(st.sampled_from([1.0, 5e3, 2e6])), gamma=draw(st.sampled_from([-0.004, None, -0.0047])))


def build(c):
    """Power, irradiance, temperatures and wind of a small plant; right-labelled."""
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n = int(c['days'] * 1440 // c['step'])
    idx = pd.date_range(c['start'], periods=n, freq=f"{c['step']}min")
    if c['tz']:
        idx = idx.tz_localize('UTC').tz_convert(c['tz'])
        hour = idx.tz_convert('UTC')
    else:
        hour = idx
    h = hour.hour + hour.minute / 60.0
    doy = hour.dayofyear.to_numpy()
    noon = 19                                # 105 degrees west; naive stamps are UTC
    ha = ((h.to_numpy() - noon + 12) % 24 - 12) / 12 * np.pi
    elev = np.clip(np.cos(ha) * (0.8 + 0.2 * np.cos(2 * np.pi * (doy - 172) / 365.25)) - 0.15, 0, None)
    clear = 1100 * elev
    day = (np.arange(n) * c['step']) // 1440
    dull = 1 - c['cloud'] * r.random(day.max() + 1)[day] * (r.random(n) < 0.7)
    poa = clear * dull * (1 + 0.01 * r.standard_normal(n))
    tamb = 12 - 10 * np.cos(2 * np.pi * doy / 365.25) + 6 * np.cos(ha) + r.standard_normal(n)
    wind = np.abs(2 + r.standard_normal(n))
    tcell = tamb + poa / 1000 * 25
    years = np.arange(n) * c['step'] / 1440 / 365.25
    g = c['gamma'] or 0.0
    power = poa / 1000 * (1 + g * (tcell - 25)) * (1 + c['rate'] / 100 * years) * (
        1 + 0.005 * r.standard_normal(n)) * c['scale']
    if c['clip']:
        power = np.minimum(power, 0.75 * c['scale'])
    out = {}
    for k, v in dict(pv=power, poa=poa, tcell=tcell, tamb=tamb, wind=wind, clear=clear,
                     expected=np.maximum(poa, 0) / 1000 * (1 + g * (tcell - 25)) * c['scale'],
                     tcell_cs=tamb + clear / 1000 * 25, tamb_cs=tamb + 1).items():
        v = np.array(v, float)
        if k in ('pv', 'poa', 'tamb', 'tcell'):
            v[r.random(n) < c['nan']] = np.nan
        s = pd.Series(v, index=idx, name=k)
        if k in ('poa', 'tamb', 'wind'):
            keep = r.random(n) >= c['drop']
            keep[0] = keep[-1] = True
            s = s[keep]
        out[k] = s
    return out


F_PARAMS = dict(
    normalized_filter=[{}, dict(energy_normalized_low=0.3, energy_normalized_high=1.1)],
    poa_filter=[{}, dict(poa_global_low=100, poa_global_high=900)],
    tcell_filter=[{}, dict(temperature_cell_low=0, temperature_cell_high=40)],
    clip_filter=[{}, dict(model='quantile', quantile=0.9), dict(model='quantile'), dict(model='logic')],
    hour_angle_filter=[{}, dict(min_hour_angle=-20, max_hour_angle=45)],
    clearsky_filter=[dict(model='csi', threshold=0.3), dict(model='csi'), {}],
    sensor_clearsky_filter=[dict(model='csi', threshold=0.3), {}])
A_PARAMS = dict(
    two_way_window_filter=[{}, dict(roll_period=7, outlier_threshold=0.02)],
    insolation_filter=[{}, dict(quantile=0.4)],
    hampel_filter=[{}, dict(k='3d', t0=1)],
    directional_tukey_filter=[{}, dict(roll_period=pd.to_timedelta('5 Days'), k=0.5)])


@st.composite
def filters(draw, location):
    """Filter settings: name -> index into F_PARAMS/A_PARAMS, or absent."""
    f = {}
    for k in ('normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter'):
        if draw(st.sampled_from([True, True, True, False])):
            f[k] = draw(st.integers(0, len(F_PARAMS[k]) - 1))
    f['clearsky_filter'] = draw(st.integers(0, 2))
    if location:
        for k in ('hour_angle_filter', 'sensor_clearsky_filter'):
            if draw(st.sampled_from([True, False, False])):
                f[k] = draw(st.integers(0, len(F_PARAMS[k]) - 1))
    a = {}
    for k in A_PARAMS:
        if draw(st.sampled_from([True, False])):
            a[k] = draw(st.integers(0, len(A_PARAMS[k]) - 1))
    adhoc = st.one_of(st.none(), st.none(), st.fixed_dictionaries(dict(
        seed=gen.seed32, keep=st.sampled_from([0.9, 0.5, 0.1]), nan=st.sampled_from([0.0, 0.0, 0.1]),
        drop=st.sampled_from([0.0, 0.0, 0.2]))))
    return dict(f=f, a=a, ad=draw(adhoc), ad_agg=draw(adhoc), set=draw(st.booleans()))


def adhoc_series(spec, index):
    """A boolean keep mask, possibly with NaN entries and missing stamps."""
    if spec is None:
        return None
    r = np.random.Generator(np.random.PCG64(spec['seed']))
    v = (r.random(len(index)) < spec['keep']).astype(object)
    v[r.random(len(index)) < spec['nan']] = np.nan
    s = pd.Series(v, index=index)
    if not s.isnull().any():
        s = s.astype(bool)
    return s[r.random(len(index)) >= spec['drop']]


def adhoc_mask(s, index):
    """What an ad hoc filter means on an index: NaN excludes, absent keeps."""
    if s is None:
        return np.ones(len(index), bool)
    d = {k: (False if pd.isnull(v) else bool(v)) for k, v in s.items()}
    return np.array([d.get(k, True) for k in index])


def settings(flt):
    f = {k: dict(F_PARAMS[k][i]) for k, i in flt['f'].items()}
    a = {k: dict(A_PARAMS[k][i]) for k, i in flt['a'].items()}
    return f, a


@st.composite
def config(draw, clearsky=False, freqs=('D', 'D', '2D', 'W', '12h', '5h', '36h')):
    location = clearsky or draw(st.sampled_from([True, False, False]))
    c = dict(pv_input=draw(st.sampled_from(['power', 'power', 'energy'])),
                temp=draw(st.sampled_from(['cell', 'ambient', 'ambient', 'expected', 'expected+cell'])),
                wind=draw(st.sampled_from([None, 0.0, 3.5, 'series'])),
                model=draw(st.sampled_from([None, 'close_mount_glass_glass', 'open_rack_glass_glass',
                                            dict(a=-3.4712, b=-0.0573, deltaT=2.745),
                                            dict(a=-3.56, b=-0.075, deltaT=3.0, irrad_ref=950.0)])),
                rated=draw(st.sampled_from([None, None, 1.0, 4000.0])),
                interp=draw(st.sampled_from([None, None, '60min', '30min'])),
                gap=draw(st.sampled_from([None, None, '2h', '90min'])),
                freq=draw(st.sampled_from(list(freqs))), location=location,
                given_cs=draw(st.sampled_from([True, False])) if location else False,
                cs_temp=draw(st.sampled_from(['cell', 'ambient', None])) if location else None,
                flt=draw(filters(location)))
    if location:
        c['site'] = draw(sites())
    if draw(st.sampled_from([True, True, True, False])):
        if c['pv_input'] == 'energy':
            c['flt']['f'].pop('clip_filter', None)
        if c['temp'] == 'expected':
            c['flt']['f'].pop('tcell_filter', None)
    return c


@st.composite
def sites(draw):
    """Mostly the usual site; else other places, orientations and options."""
    if draw(st.booleans()):
        return {}
    return draw(st.fixed_dictionaries({}, optional=dict(
        place=st.sampled_from([(39.7, -105.2, 1800), (27.35, -101.8, 0), (48.1, -98.25, 450), (-25.6, -103.4, 2500)]),
        tilt=st.sampled_from([0, 12.5, 35, 60]), azimuth=st.sampled_from([90, 150.5, 270, 0]),
        albedo=st.sampled_from([0.0, 0.1, 0.6]), method=st.sampled_from(['nrel_numpy', 'ephemeris']))))


def place(c):
    if 'place' not in (c.get('site') or {}):
        return LOC
    lat, lon, alt = c['site']['place']
    return pvlib.location.Location(lat, lon, tz='Etc/GMT+7', altitude=alt)


LOC = pvlib.location.Location(39.7, -105.2, tz='Etc/GMT+7', altitude=1800)


def arguments(c, d):
    """Constructor and set_clearsky arguments for a configuration."""
    kw = dict(pv_input=c['pv_input'], aggregation_freq=c['freq'], gamma_pdc=d['gamma'],
              poa_global=d['poa'])
    if c['temp'] in ('cell', 'expected+cell'):
        kw['temperature_cell'] = d['tcell']
    if c['temp'] == 'ambient':
        kw['temperature_ambient'] = d['tamb']
    if c['temp'].startswith('expected'):
        kw['power_expected'] = d['expected']
    if c['wind'] is not None:
        kw['windspeed'] = d['wind'] if c['wind'] == 'series' else c['wind']
    if c['model'] is not None:
        kw['temperature_model'] = c['model']
    if c['rated'] is not None:
        kw['power_dc_rated'] = c['rated']
    if c['interp'] is not None:
        kw['interp_freq'] = c['interp']
    if c['gap'] is not None:
        kw['max_timedelta'] = pd.Timedelta(c['gap'])
    cs = None
    if c['location']:
        site = c.get('site') or {}
        cs = dict(pvlib_location=place(c), pv_tilt=site.get('tilt', 20), pv_azimuth=site.get('azimuth', 180))
        if 'albedo' in site:
            cs['albedo'] = site['albedo']
        if 'method' in site:
            cs['solar_position_method'] = site['method']
        if c['given_cs']:
            cs['poa_global_clearsky'] = d['clear']
        if c['cs_temp'] == 'cell':
            cs['temperature_cell_clearsky'] = d['tcell_cs']
        elif c['cs_temp'] == 'ambient':
            cs['temperature_ambient_clearsky'] = d['tamb_cs']
    return kw, cs


def clearsky_poa(poa, c):
    """Minute-by-minute clear-sky irradiance averaged over each right-labelled interval."""
    times = pd.date_range(poa.index[0], poa.index[-1], freq='1min')
    t, stamps = gen.ns(times), gen.ns(poa.index)
    site, loc = c.get('site') or {}, place(c)
    sun = loc.get_solarposition(times, method=site.get('method', 'nrel_numpy'))
    sky = loc.get_clearsky(times, solar_position=sun)

    def fine_values(x):
        # a series holds for the interval that ends at its stamp
        if not isinstance(x, pd.Series):
            return x
        k = np.searchsorted(gen.ns(x.index), t)
        return np.where(k < len(x), x.to_numpy()[np.minimum(k, len(x) - 1)], np.nan)
    fine = pvlib.irradiance.get_total_irradiance(
        fine_values(site.get('tilt', 20)), fine_values(site.get('azimuth', 180)), sun['apparent_zenith'], sun['azimuth'],
        sky['dni'], sky['ghi'], sky['dhi'], albedo=fine_values(site.get('albedo', 0.25)),
        model='isotropic')['poa_global'].to_numpy()
    out = np.full(len(stamps), np.nan)
    for i in range(1, len(stamps)):
        m = slice(np.searchsorted(t, stamps[i - 1], 'right'), np.searchsorted(t, stamps[i], 'right'))
        if m.stop > m.start:
            out[i] = np.nanmean(fine[m]) if not np.isnan(fine[m]).all() else np.nan
    return normalization.irradiance_rescale(poa, pd.Series(out, index=poa.index), method='iterative')


def reference(c, d, adhoc, adhoc_agg, case):
    """The documented workflow with the public functions.  Returns a dict of intermediate results."""
    kw, cs = arguments(c, d)
    gap = kw.get('max_timedelta')

    def onto(s, index):
        return None if s is None else normalization.interpolate(s, index, gap)
    pv = d['pv']
    if c['interp']:
        pv = normalization.interpolate(pv, c['interp'], gap)
    index = pv.index
    energy = pv if c['pv_input'] == 'energy' else normalization.energy_from_power(pv, max_timedelta=gap)
    poa = onto(kw['poa_global'], index)
    tcell, tamb = onto(kw.get('temperature_cell'), index), onto(kw.get('temperature_ambient'), index)
    expected = onto(kw.get('power_expected'), index)
    wind = kw.get('windspeed', 0)
    if isinstance(wind, pd.Series):
        wind = onto(wind, index)
    params = kw.get('temperature_model', 'open_rack_glass_polymer')
    if isinstance(params, str):
        params = pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS['sapm'][params]
    f, a = settings(c['flt'])
    if c['temp'] == 'expected' and not c['flt']['set']:
        f.pop('tcell_filter', None)
    poa_cs = None
    if cs is not None and (case == 'clearsky' or 'sensor_clearsky_filter' in f):
        given = cs.get('poa_global_clearsky')
        poa_cs = onto(given, energy.index) if given is not None else clearsky_poa(poa, c)
    if case == 'sensor':
        irr, t = poa, tcell
        if expected is None and t is None:
            t = pvlib.temperature.sapm_cell(poa, tamb, wind, **params)
    else:
        irr = poa_cs
        t = onto(cs.get('temperature_cell_clearsky'), energy.index)
        if t is None:
            amb = onto(cs.get('temperature_ambient_clearsky'), energy.index)
            if amb is None:
                amb = clearsky_temperature.get_clearsky_tamb(poa_cs.index, place(c).latitude, place(c).longitude)
            t = pvlib.temperature.sapm_cell(poa_cs, amb, 0, **params)
    if expected is not None:
        norm, insol = normalization.normalize_with_expected_power(energy, expected, irr, pv_input='energy')
    else:
        norm, insol = normalization.normalize_with_pvwatts(energy, dict(
            poa_global=irr, power_dc_rated=c['rated'] or 1.0, temperature_cell=t, poa_global_ref=1000,
            temperature_cell_ref=25, gamma_pdc=d['gamma']))
        if c['rated'] is None:
            norm = norm / utilities.robust_quantile(norm[np.isfinite(norm)], 0.95)
    parts = {}
    if 'normalized_filter' in f:
        parts['normalized_filter'] = filtering.normalized_filter(norm, **f['normalized_filter'])
    if 'poa_filter' in f:
        parts['poa_filter'] = filtering.poa_filter(irr, **f['poa_filter'])
    if 'tcell_filter' in f:
        if t is None:
            raise Expect(ValueError)
        parts['tcell_filter'] = filtering.tcell_filter(t, **f['tcell_filter'])
    if 'clip_filter' in f:
        if c['pv_input'] == 'energy':
            raise Expect(ValueError)
        parts['clip_filter'] = filtering.clip_filter(pv, **f['clip_filter'])
    if 'hour_angle_filter' in f:
        parts['hour_angle_filter'] = filtering.hour_angle_filter(
            norm, place(c).latitude, place(c).longitude, **f['hour_angle_filter'])
    if case == 'clearsky':
        parts['clearsky_filter'] = filtering.clearsky_filter(poa, poa_cs, **f['clearsky_filter'])
    if case == 'sensor' and 'sensor_clearsky_filter' in f:
        parts['sensor_clearsky_filter'] = filtering.clearsky_filter(poa, poa_cs, **f['sensor_clearsky_filter'])
    stamps = norm.index
    for p in parts.values():
        stamps = stamps.union(p.index)
    masks = {k: p.reindex(stamps).fillna(False).astype(bool).to_numpy() for k, p in parts.items()}
    if adhoc is not None:
        masks['ad_hoc_filter'] = adhoc_mask(adhoc, stamps)
    keep = np.ones(len(stamps), bool)
    for m in masks.values():
        keep &= m
    out = dict(energy=energy, norm=norm, insol=insol, stamps=stamps, masks=masks, keep=keep, t=t, irr=irr,
               poa_cs=poa_cs)
    chosen = pd.Series(keep, index=stamps).reindex(norm.index).to_numpy()
    n1, i1 = norm[chosen], insol[chosen]
    if not len(n1):
        raise Expect(None, 'nothing left')
    agg = aggregation.aggregation_insol(n1, i1, c['freq'])
    agg_insol = i1.resample(c['freq'], origin='start_day').sum()
    am = {}
    if 'two_way_window_filter' in a:
        am['two_way_window_filter'] = filtering.two_way_window_filter(agg, **a['two_way_window_filter'])
    if 'insolation_filter' in a:
        am['insolation_filter'] = filtering.insolation_filter(agg_insol, **a['insolation_filter'])
    if 'hampel_filter' in a:
        am['hampel_filter'] = filtering.hampel_filter(agg, **a['hampel_filter'])
    if 'directional_tukey_filter' in a:
        am['directional_tukey_filter'] = filtering.directional_tukey_filter(agg, **a['directional_tukey_filter'])
    amasks = {k: p.reindex(agg.index).fillna(False).astype(bool).to_numpy() for k, p in am.items()}
    if adhoc_agg is not None:
        amasks['ad_hoc_filter'] = adhoc_mask(adhoc_agg, agg.index)
    akeep = np.ones(len(agg), bool)
    for m in amasks.values():
        akeep &= m
    out.update(agg=agg, amasks=amasks, akeep=akeep)
    # kept bins from the first to the last kept one; what was filtered in between is missing
    where = np.flatnonzero(akeep)
    if not len(where):
        raise Expect(None, 'no bin left')
    bins = agg.index[where[0]:where[-1] + 1]
    inside = akeep[where[0]:where[-1] + 1]
    out['performance'] = agg.reindex(bins).where(inside)
    out['insolation'] = agg_insol.reindex(bins).where(inside)
    return out


def fit(c):
    """pvlib's clear-sky detection needs data at 30 minutes or less."""
    f = c['cfg']['flt']['f']
    for k in ('clearsky_filter', 'sensor_clearsky_filter'):
        if k in f and c['plant']['step'] > 30 and F_PARAMS[k][f[k]] == {}:
            f[k] = 0
    return c
