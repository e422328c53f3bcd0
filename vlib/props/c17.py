"""C17: modelled clear-sky ambient temperature."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools.clearsky_temperature import get_clearsky_tamb
from ..core import Facet
from .. import gen, tempdata

RULE = ('instants in ordinary and awkward zones, any coordinates (incl. poles and date line); '
        'pixel, smoothing, interpolation and daily wave recomputed from a synthetic climatology')
ASSUMPTIONS = ['synthetic climatology of the documented layout replaces the data file the pinned '
               'commit does not ship', 'localized times with a recognisable frequency (documented)',
               'places exactly half way between two pixels may use either']
DAYNS = 86400 * 10**9
_g = None


def grids():
    global _g
    if _g is None:
        _g = [g.astype(float) for g in tempdata.grids()]
    return _g


def pixels(lat, lon):
    """Admissible pixels (several only in a tie)."""
    x = (lon + 180) % 360 / 360 * tempdata.LONS
    y = (90 - lat) / 180 * tempdata.LATS

    def near(z):
        lo = int(np.floor(z))
        if abs(z - lo - 0.5) < 1e-9:
            return [lo, lo + 1]
        return [int(np.floor(z + 0.5))]
    return [(i % tempdata.LONS, min(j, tempdata.LATS - 1)) for i in near(x) for j in near(y)]


def smooth(monthly, months, window, std):
    """Gaussian-weighted mean over the window centred on each day."""
    v = np.array([monthly[m - 1] for m in months])
    k = np.arange(window) - (window - 1) / 2.0
    w = np.exp(-0.5 * (k / std) ** 2)
    off = (window - 1) // 2
    out = np.empty(len(v))
    for i in range(len(v)):
        lo = i + off - window + 1
        pos = np.arange(lo, lo + window)
        ok = (pos >= 0) & (pos < len(v))
        out[i] = (w[ok] * v[pos[ok]]).sum() / w[ok].sum()       # NaN as soon as one month is missing
    return out


@st.composite
def cases(draw):
    ocean = draw(st.integers(0, 19)) == 13
    partly = draw(st.integers(0, 9)) == 3
    tz = draw(st.sampled_from(['UTC', 'America/Denver', 'Asia/Kathmandu', 'Australia/Sydney',
                               'Etc/GMT+7', 'America/Santiago', 'Asia/Beirut', 'Asia/Shanghai',
                               'America/Havana']))
    window = draw(st.sampled_from([None, None, 40, 20, 5, 1, 7]))
    # clock changes at midnight (Beirut, Havana) at the edge of the smoothing window
    edge = st.sampled_from([87, 1403, 304, 66]).map(lambda d: d + (window or 40))
    freq = draw(st.sampled_from(['15min', 'h', '30min', '7min', 'D', '6h', '5min', '1min']))
    lat = st.one_of(st.floats(-90, 90), st.sampled_from([-90.0, 90.0, 0.0, -89.9]))
    lon = st.one_of(st.floats(-180, 180), st.sampled_from([-180.0, 180.0, 179.99, -179.99, 177.6,
                                                           0.0]))
    if ocean:
        lat, lon = st.floats(53, 67), st.floats(-132, -118)
    elif partly:
        lat, lon = st.floats(66, 79), st.floats(-29, -16)
        freq = draw(st.sampled_from(['D', '6h', freq]))
    return dict(tz=tz, freq=freq, drop=draw(st.sampled_from([0, 0, 0, 1, 3, 30])), n=draw(st.integers(1, 120)), freqd=draw(st.booleans()),
                day=draw(st.one_of(st.integers(0, 3000), edge, st.sampled_from([66, 304, 94, 276, 219,
                                                                         126, 86, 300, 304, 308, 1402]))),
                minute=draw(st.one_of(st.just(0), st.integers(0, 1439))),
                lat=draw(lat), lon=draw(lon),
                window=window,
                std=draw(st.sampled_from([None, None, 20, 3, 1])))


def check(c, ctx):
    t0 = pd.Timestamp('2015-01-01') + pd.Timedelta(days=c['day'], minutes=c['minute'])
    times = pd.date_range(t0, periods=max(c['n'], 3) if not c['freqd'] else c['n'], freq=c['freq'],
                          tz='UTC')
    if c['freq'] == 'D':
        times = pd.date_range(t0.normalize() + pd.Timedelta(hours=12), periods=len(times),
                              freq='D', tz='UTC')
    times = times.tz_convert(c['tz'])
    if not c['freqd']:
        if c.get('drop') and len(times) > 12:
            # irregular times: the frequency is that of the first ten
            r = np.random.Generator(np.random.PCG64(c['day'] + c['n']))
            times = times.delete(np.unique(r.integers(10, len(times) - 1, c['drop'])))
            ctx.label('irregular')
        times = pd.DatetimeIndex(list(times))
        if pd.infer_freq(times[:10]) is None:
            ctx.label('no frequency')
            return
    kw = {}
    if c['window'] is not None:
        kw['window_size'] = c['window']
    if c['std'] is not None:
        kw['gauss_std'] = c['std']
    got, warned = ctx.warned(get_clearsky_tamb, times, c['lat'], c['lon'], **kw)
    ctx.same_index('temperature', got.index, times)
    window, std = c['window'] or 40, c['std'] or 20
    days = pd.date_range(times[0].tz_localize(None).normalize() - pd.Timedelta(days=window),
                         times[-1].tz_localize(None).normalize() + pd.Timedelta(days=window),
                         freq='D')
    stamps = gen.ns(days.tz_localize(c['tz'], ambiguous=np.ones(len(days), bool),
                                     nonexistent='shift_forward'))
    t = gen.ns(times)
    wall = times.tz_localize(None)
    step = pd.Timedelta(pd.tseries.frequencies.to_offset(c['freq'])).value
    solar = (t % DAYNS) / 3600e9 + c['lon'] / 15.0     # local solar hour
    ctx.label(c['tz'])
    ctx.require(any('Lat/Lon' in w for w in warned) == bool(got.isna().any()),
                'the warning about missing temperatures must come exactly when there are any')
    land = [not np.isnan(grids()[0][p]).all() for p in pixels(c['lat'], c['lon'])]
    full = [not np.isnan([g[p] for g in grids()]).any() for p in pixels(c['lat'], c['lon'])]
    if not all(land):
        ctx.label('no data for the place')
        if not any(land):
            ctx.require(got.isna().all() and any('Lat/Lon' in w for w in warned),
                        'a place without data must give NaN and a warning')
        return
    if all(full):
        ctx.require(not any('Lat/Lon' in w for w in warned), 'warned about a place with data')
    else:
        ctx.label('months without data')
    best = None
    D, N = grids()
    for i, j in pixels(c['lat'], c['lon']):
        wave = []
        tol = 0.0
        for g in (D, N):
            s = smooth(g[i, j], days.month, window, std)
            wave.append(np.interp(t, stamps, s))
            tol += np.nanmax(np.append(np.abs(np.diff(s)), 0.0)) * (step / 2 / DAYNS + 1 / 23.0)
        day, night = wave
        want = (day + night) / 2 + 0.35 * (day - night) * np.cos((solar + 8) / 12 * np.pi)
        # seconds of the clock are not resolved
        tol += np.nanmax(np.append(np.abs(day - night), 0.0)) * 0.35 * np.pi / 12 / 60 + 1e-6
        # the months on either side of an instant are known, or it is not judged
        err = np.abs(got.to_numpy(float) - want)[np.isfinite(want) | all(full)]
        err = np.append(err, 0.0)
        worst = np.inf if np.isnan(err).any() else err.max()
        if best is None or worst - tol < best[0]:
            best = (worst - tol, worst, tol, want)
    ctx.nontrivial(len(times) > 3)
    # local days in which the clock changes are interpolated over 23 or 25 hours
    ctx.require(best[0] <= 0, f'temperature differs by {best[1]} (allowed {best[2]}) from the '
                f'climatology wave; got {got.iloc[0]} first, expected {best[3][0]}')
    aligned = (wall[0].hour * 60 + wall[0].minute) * 60 * 10**9 % step == 0 and c['freq'] in (
        '15min', 'h', '30min', '5min', '1min', '6h')
    if aligned and c['tz'] in ('UTC', 'Etc/GMT+7', 'Asia/Kathmandu', 'Asia/Shanghai') \
            and len(pixels(c['lat'], c['lon'])) == 1:
        ctx.label('exact')
        ctx.require(best[1] < 1e-6, f'temperature on the interpolation grid differs by {best[1]}')


FACETS = [Facet('wave', cases, check, 800, 10000, 'more than three instants')]
