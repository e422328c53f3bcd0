"""Generated daily histories for the combined degradation and soiling analysis."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen


@st.composite
def history(draw, soils=(0.0, 0.0006, 0.0012, 0.002)):
    return dict(n=draw(st.integers(750, 1500)), seed=draw(gen.seed32),
                start=draw(st.sampled_from(['2013-03-01', '2010-01-01', '2011-08-15', '2016-02-29'])),
                tz=draw(st.sampled_from([None, None, 'UTC', 'Etc/GMT+7'])),
                noise=draw(st.sampled_from([0.004, 0.01, 0.02])),
                soil=draw(st.sampled_from(list(soils))), every=draw(st.sampled_from([25, 45, 80])),
                clean=draw(st.sampled_from([1.0, 1.0, 0.7])),
                season=draw(st.sampled_from([0.0, 0.02, 0.06])),
                deg=draw(st.sampled_from([0.0, -0.5, -1.5, 0.8])),
                level=draw(st.sampled_from([1.0, 1.0, 0.97, 1.05])),
                nan=draw(st.sampled_from([0.0, 0.0, 0.02])), gap=draw(st.sampled_from([0, 0, 30])),
                lead=draw(st.sampled_from([0, 0, 7])))


def build(c):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n = c['n']
    idx = pd.date_range(c['start'], periods=n, freq='D', tz=c['tz'])
    sr = np.ones(n)
    for i in range(1, n):
        sr[i] = max(0.5, sr[i - 1] - c['soil'])
        if r.random() < 1 / c['every']:
            sr[i] += (1 - sr[i]) * c['clean']
    t = np.arange(n)
    v = (sr * (1 + c['season'] * np.sin(2 * np.pi * t / 365.25)) * (1 + c['deg'] / 100 * t / 365.25)
         * (1 + c['noise'] * r.standard_normal(n)) * c['level'])
    v[r.random(n) < c['nan']] = np.nan
    if c['gap']:
        k = int(r.integers(100, n - 100))
        v[k:k + c['gap']] = np.nan
    v[:c['lead']] = np.nan
    return pd.Series(v, index=idx, name='pm'), sr
