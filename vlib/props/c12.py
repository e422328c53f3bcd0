"""C12: logic-based clipping filter."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import filtering
from ..core import Facet
from .. import gen
from ..refs import clip

RULE = ('multi-day power of clipped, two-level, clear, cloudy, frozen and missing days, any step '
        'from 1 to 60 min; reference finds flat windows and daily bands point by point')
ASSUMPTIONS = ['timestamps unique', 'cases in which a comparison of the algorithm is decided by '
               'less than 1e-10 relative are not judged']


@st.composite
def cases(draw):
    return dict(p=draw(clip.plant()), mount=draw(st.sampled_from(
                    [None, 'fixed', 'single_axis_tracking'])),
                cutoff=draw(st.sampled_from([None, None, 0.2, 0.1, 0.4, 1.0])),
                rolls=draw(st.sampled_from([None, None, None, 2, 3, 4, 6])),
                wrapper=draw(st.sampled_from(['direct', 'default', 'named'])))


def run(c, s, ctx):
    kw = {}
    if c['mount'] is not None:
        kw['mounting_type'] = c['mount']
    if c['cutoff'] is not None:
        kw['rolling_range_max_cutoff'] = c['cutoff']
    if c['rolls'] is not None:
        kw['roll_periods'] = c['rolls']
    if c['wrapper'] == 'direct':
        return ctx.call('logic_clip_filter', filtering.logic_clip_filter, s, **kw)
    if c['wrapper'] == 'named':
        kw['model'] = 'logic'
    return ctx.call('clip_filter', filtering.clip_filter, s, **kw)


def check(c, ctx):
    s = clip.build(c['p'])
    if len(s) <= 10 or s.notna().sum() < 5:
        ctx.label('too short')
        return
    try:
        want, info = clip.logic_reference(s, c['mount'] or 'fixed',
                                          0.2 if c['cutoff'] is None else c['cutoff'], c['rolls'])
    except clip.Tie:
        ctx.label('tie')
        return
    got = run(c, s, ctx)
    ctx.label('high frequency' if info['step'] < 10 else 'low frequency')
    if info['overall']:
        ctx.label('overall threshold')
    ctx.nontrivial(want.any() and not want.all())
    ctx.mask('logic clip', got, s.index, ~want)


def check_scale(c, ctx):
    s = clip.build(c['p'])
    if len(s) <= 10 or s.notna().sum() < 5:
        return
    try:
        want, info = clip.logic_reference(s, c['mount'] or 'fixed',
                                          0.2 if c['cutoff'] is None else c['cutoff'], c['rolls'])
    except clip.Tie:
        return
    a = run(c, s, ctx)
    b = run(c, s * 1024.0, ctx)
    ctx.nontrivial(want.any() and not want.all())
    ctx.mask('unit of power', b, s.index, a.to_numpy())
    if s.index.tz is not None:
        return
    k = run(c, s.tz_localize('UTC'), ctx)
    ctx.mask('naive and aware', k, s.index.tz_localize('UTC'), a.to_numpy())


@st.composite
def bad(draw):
    return dict(what=draw(st.sampled_from(['index', 'mount', 'order', 'short', 'naive', 'aware', 'sampling',
                                               'sampling'])),
                model=draw(st.sampled_from(['logic', 'xgboost'])), n=draw(st.integers(11, 60)),
                k=draw(st.integers(0, 10)),
                mount=draw(st.sampled_from(['tracking', 'FIXED', '', 'dual_axis', None])))


def check_bad(c, ctx):
    f = {'logic': filtering.logic_clip_filter, 'xgboost': filtering.xgboost_clip_filter}[c['model']]
    n = c['n']
    v = 5 + 4 * np.sin(np.arange(n) / 3.0)
    s = pd.Series(v, index=pd.date_range('2020-01-01', periods=n, freq='30min', tz='UTC'))
    ctx.nontrivial()
    ctx.label(c['what'])
    if c['what'] == 'index':
        ctx.raises('number index', TypeError, f, s.reset_index(drop=True))
    elif c['what'] == 'mount':
        ctx.raises('mounting type', ValueError, f, s, c['mount'])
    elif c['what'] == 'order':
        ctx.raises('unsorted', IndexError, f, s.iloc[::-1])
    elif c['what'] == 'short':
        ctx.raises('too short', Exception, f, s.iloc[:c['k']])
    elif c['what'] == 'sampling':
        keep = np.ones(n, bool)
        keep[1:n - 1][::3][:max(0, c['k'] - 4)] = False
        x = s[keep]
        if len(x) <= 10:
            return
        d = np.diff(gen.ns(x.index))
        share = (d == np.bincount((d // 60_000_000_000).astype(int)).argmax() * 60e9).sum() / len(x)
        w = ctx.warned(f, x)[1]
        if abs(share - 0.95) > 1e-9:
            ctx.require(any('ampling frequency' in m for m in w) == (share < 0.95),
                        f'variable sampling warning wrong, share {share}')
    else:
        aware = c['what'] == 'aware'
        w = ctx.warned(f, s if aware else s.tz_localize(None))[1]
        ctx.require(any('local time' in str(m) for m in w) == (not aware),
                    'time zone warning wrong for ' + c['what'])


FACETS = [
    Facet('flags', cases, check, 1200, 12000, 'some points flagged, some not'),
    Facet('units', cases, check_scale, 120, 1500, 'some points flagged, some not'),
    Facet('requests', bad, check_bad, 120, 600, 'all cases'),
]
