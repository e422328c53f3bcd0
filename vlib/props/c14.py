"""C14: hour_angle_filter."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import filtering
from ..core import Facet
from .. import gen

RULE = ('time stamps in many zones (incl. daylight saving days), any longitude; the hour angle '
        'is recomputed from UTC clock time, longitude and the equation of time')
ASSUMPTIONS = ['equation of time from the Meeus low-precision series, verdicts within 0.03 '
               'degrees (7 seconds) of a bound are not judged']


def eot_minutes(ts_ns):
    """Equation of time (minutes), low-precision Meeus; good to a few seconds."""
    jd = ts_ns / 86400e9 + 2440587.5
    T = (jd - 2451545.0) / 36525.0
    L0 = np.radians((280.46646 + 36000.76983 * T) % 360)
    M = np.radians(357.52911 + 35999.05029 * T)
    e = 0.016708634 - 0.000042037 * T
    eps = np.radians(23.439291 - 0.0130042 * T)
    y = np.tan(eps / 2) ** 2
    E = (y * np.sin(2 * L0) - 2 * e * np.sin(M) + 4 * e * y * np.sin(M) * np.cos(2 * L0)
         - 0.5 * y * y * np.sin(4 * L0) - 1.25 * e * e * np.sin(2 * M))
    return np.degrees(E) * 4


@st.composite
def cases(draw):
    zone, dst = draw(st.sampled_from(
        [('UTC', []), ('America/Denver', [66, 304]), ('Asia/Kathmandu', []),
         ('Australia/Sydney', [94, 276]), ('Etc/GMT+7', []), ('Pacific/Auckland', [94, 269]),
         ('Pacific/Honolulu', []), ('America/New_York', [66, 304])]))
    day = draw(st.integers(0, 4000))
    local = draw(st.booleans())
    if dst and draw(st.booleans()):
        day, local = draw(st.sampled_from(dst)), True
    n = draw(st.integers(1, 40))
    mins = draw(st.lists(st.integers(0, 1439), min_size=n, max_size=n, unique=True))
    return dict(day=day, mins=sorted(mins), tz=zone,
                lon=draw(st.one_of(st.floats(-180, 180), st.sampled_from([-155.0, 151.0, 178.0,
                                                                         -105.0, 0.0]))),
                lat=draw(st.floats(-65, 65)), local=local,
                lo=draw(st.sampled_from([None, -30, -45.5, 0, -180, -90, 10])),
                hi=draw(st.sampled_from([None, 30, 15, 90.0, 180, 60])),
                # a bound closely beside one of the points
                near=draw(st.one_of(st.none(), st.tuples(st.integers(0, 39), st.sampled_from([
                    0.035, -0.035, 0.045, -0.045, 0.2, -0.2, 0.9, -0.9]), st.sampled_from(['lo', 'hi'])))))


def check(c, ctx):
    base = pd.Timestamp('2015-01-01') + pd.Timedelta(days=c['day'])
    wall = pd.DatetimeIndex([base + pd.Timedelta(minutes=m) for m in c['mins']]).as_unit('ns')
    if c['local']:
        idx = wall.tz_localize(c['tz'], ambiguous=np.ones(len(wall), bool),
                               nonexistent='shift_forward').unique()
    else:
        idx = wall.tz_localize('UTC').tz_convert(c['tz'])
    s = pd.Series(1.0, index=idx)
    t = gen.ns(idx)
    ha = 15 * ((t % int(86400e9)) / 3600e9 - 12) + c['lon'] + eot_minutes(t) / 4
    ha = (ha + 180) % 360 - 180
    bounds = dict(lo=c['lo'], hi=c['hi'])
    if c.get('near') is not None:
        k, d, side = c['near']
        bounds[side] = float(ha[k % len(ha)] + d)
    kw = {name: bounds[side] for side, name in (('lo', 'min_hour_angle'), ('hi', 'max_hour_angle'))
          if bounds[side] is not None}
    lo, hi = (-30 if bounds['lo'] is None else bounds['lo']), (30 if bounds['hi'] is None else bounds['hi'])
    got = ctx.call('hour_angle_filter', filtering.hour_angle_filter, s, c['lat'], c['lon'], **kw)
    want = (ha >= lo) & (ha <= hi)
    amb = (np.abs(ha - lo) < 0.03) | (np.abs(ha - hi) < 0.03) | (np.abs(np.abs(ha) - 180) < 0.03)
    ctx.label(c['tz'])
    offs = {ts.utcoffset() for ts in idx}
    if len(offs) > 1:
        ctx.label('daylight saving change inside')
    ctx.nontrivial(want.any() and not want.all())
    ctx.mask('hour angle', got, s.index, want, amb)


FACETS = [Facet('hour_angle', cases, check, 1600, 16000, 'some points kept, some rejected')]
