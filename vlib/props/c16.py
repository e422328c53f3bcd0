"""C16: robust quantile / median / mean."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import utilities
from ..core import Facet
from .. import gen

RULE = 'non-negative series with zeros, tiny values and NaNs; naive sorted-list reference'


def quantile(xs, q):
    xs = sorted(xs)
    if not xs:
        return np.nan
    h = (len(xs) - 1) * q
    i = int(np.floor(h))
    j = min(i + 1, len(xs) - 1)
    return xs[i] + (xs[j] - xs[i]) * (h - i)


# values placed closely below or above the threshold that results from the others
EDGES = {'below': 1 - 4e-4, 'above': 1 + 4e-4, 'just below': 1 - 1e-7, 'just above': 1 + 1e-7}


def values(c):
    x = gen.arr([0.0 if isinstance(v, str) else v for v in c['xs']])
    small = quantile([0.0 if np.isnan(a) else a for a in x], 0.99 if c['default'] else c['q']) / 1000
    for i, v in enumerate(c['xs']):
        if isinstance(v, str):
            x[i] = small * EDGES[v]
    return x


@st.composite
def cases(draw):
    big = st.one_of(st.integers(1, 4000).map(float), st.floats(0.5, 4000))
    item = st.one_of(big, big, big, st.just(0.0), st.floats(1e-6, 1e-3), st.none(),
                     st.sampled_from([0.3, 1.1, 2.7, 3.9]), st.sampled_from(sorted(EDGES)))
    xs = draw(st.lists(item, min_size=1, max_size=40))
    return dict(xs=xs, q=draw(st.sampled_from([0.0, 0.01, 0.25, 0.5, 0.75, 0.9, 0.98, 0.99, 1.0])),
                default=draw(st.booleans()), intdtype=draw(st.booleans()))


def check(c, ctx):
    x = values(c)
    s = pd.Series(x, index=pd.date_range('2020-01-01', periods=len(x), freq='D'))
    if c['intdtype'] and not np.isnan(x).any() and (x == np.round(x)).all():
        s = s.astype(int)
        ctx.label('integer dtype')
    q = c['q']

    def kept(qq):
        small = quantile([0.0 if np.isnan(a) else a for a in x], qq) / 1000
        if small > 0 and (np.abs(x - small) <= 1e-9 * small).any():
            return None
        return [a for a in x if not np.isnan(a) and a > small]
    k = kept(q)
    if k is not None:
        ctx.close('robust_quantile', ctx.call('robust_quantile', utilities.robust_quantile, s, q),
                  quantile(k, q))
        if 0 < len(k) < len(x):
            ctx.nontrivial()
            ctx.label('some values ignored')
    qm = 0.99 if c['default'] else q
    kw = {} if c['default'] else dict(q=q)
    k = kept(qm)
    if k is not None:
        ctx.close('robust_median', ctx.call('robust_median', utilities.robust_median, s, **kw),
                  quantile(k, 0.5))
        ctx.close('robust_mean', ctx.call('robust_mean', utilities.robust_mean, s, **kw),
                  np.mean(k) if k else np.nan)
    # padding with missing rows that replace zeros changes nothing
    if (x == 0).any() and k is not None:
        s2 = s.astype(float).where(s > 0)
        ctx.close('zero vs missing', utilities.robust_median(s2, **kw),
                  utilities.robust_median(s, **kw))


FACETS = [Facet('values', cases, check, 3000, 40000, 'some but not all values are ignored')]
