"""Shared strategies and deterministic expansion of compact specs into pandas data."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

TZS = [None, 'UTC', 'America/Denver', 'Asia/Kathmandu', 'Australia/Sydney', 'Etc/GMT+7']
STARTS = ['2015-01-01 00:00', '2016-02-27 12:00', '2012-06-17 13:30', '2019-03-08 23:45',
          '2018-11-02 07:07', '2020-12-30 22:00', '2013-10-05 00:01']

tz = st.sampled_from(TZS)
fixed_tz = st.sampled_from([None, 'UTC', 'Etc/GMT+7'])
start = st.sampled_from(STARTS)
seed32 = st.integers(0, 2**32 - 1)


def value(lo, hi, step=None):
    """Finite floats on a coarse dyadic grid (exactly representable) or free floats."""
    return st.one_of(
        st.integers(int(lo * 8), int(hi * 8)).map(lambda i: i / 8.0),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False))


def maybe_nan(s, p=8):
    """NaN (encoded as None in cases) about 1 in p."""
    return st.integers(0, p - 1).flatmap(lambda i: st.none() if i == 0 else s)


def arr(xs):
    return np.array([np.nan if x is None else x for x in xs], dtype=float)


def index_from_minutes(start_txt, minutes, tzname):
    """Absolute-time index: start (UTC wall) + offsets in minutes, shown in tz."""
    base = pd.Timestamp(start_txt)
    idx = pd.DatetimeIndex([base + pd.Timedelta(minutes=m) for m in minutes]).as_unit('ns')
    if tzname is not None:
        idx = idx.tz_localize('UTC').tz_convert(tzname)
    return idx


def regular_index(start_txt, step_min, n, tzname):
    idx = pd.date_range(start_txt, periods=n, freq=f'{step_min}min')
    if tzname is not None:
        idx = idx.tz_localize('UTC').tz_convert(tzname)
    return idx


def ns(index):
    """Absolute nanoseconds of a DatetimeIndex."""
    if index.tz is not None:
        index = index.tz_convert('UTC').tz_localize(None)
    return index.as_unit('ns').to_numpy().astype('int64')
