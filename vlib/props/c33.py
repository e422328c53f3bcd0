"""C33: equal data give equal results, however they are represented."""
import random
import zoneinfo

import numpy as np
import pandas as pd
from dateutil import tz as dateutil_tz
from hypothesis import strategies as st

from ..core import Facet
from ..refs import calls

RULE = ('calls of every public function and of the analysis objects, each made twice with the same data in different '
        'representations: resolution of the time stamps (s, ms, us, ns), names of series and indexes (also names '
        'such as "value", "dt" or "run"), library of the time zone object, integers or floats, read-only memory')
ASSUMPTIONS = ["pvlib's clear-sky detection is not given integers, which it cannot take",
               'all time stamps are whole seconds, so that every resolution can hold them',
               'numbers are compared to a relative 1e-9 of the largest value in the same column']

NAMES = ['value', 'dt', 'date', 'day', 'run', 'energy', 'index', 'mask', 'start', 'datetime', 'insol', 'pi', 0]
CHANGES = ['s', 'ms', 'us', 'us', 's', 'index name', 'series name', 'zoneinfo', 'dateutil', 'float', 'read-only']


def changed_index(i, how, name):
    if not isinstance(i, pd.DatetimeIndex):
        return i
    if how in ('s', 'ms', 'us'):
        return i.as_unit(how)
    if how == 'index name':
        return i.rename(name)
    if i.tz is not None and how == 'zoneinfo':
        return i.tz_convert(zoneinfo.ZoneInfo(str(i.tz)))
    if i.tz is not None and how == 'dateutil':
        return i.tz_convert(dateutil_tz.gettz(str(i.tz)))
    return i


def change(x, how, name):
    """The same data in another representation."""
    if isinstance(x, pd.DatetimeIndex):
        return changed_index(x, how, name)
    if isinstance(x, (pd.Series, pd.DataFrame)):
        y = x.copy()
        y.index = changed_index(y.index, how, name)
        if isinstance(y, pd.DataFrame):
            for c in y.columns:
                if how in ('s', 'ms', 'us') and (y[c].dtype.kind == 'M' if hasattr(y[c].dtype, 'kind') else False):
                    y[c] = y[c].dt.as_unit(how)
            if how == 'float':
                ints = [c for c in y.columns if y[c].dtype.kind == 'i']
                y = y.astype({c: float for c in ints})
            return y
        if how == 'series name':
            y.name = name
        if how == 'float' and y.dtype.kind == 'i':
            y = y.astype(float)
        if how == 'read-only' and y.dtype.kind in 'if':
            v = y.to_numpy().copy()
            v.flags.writeable = False
            y = pd.Series(v, index=y.index, name=y.name, copy=False)
        return y
    if isinstance(x, dict):
        return {k: change(v, how, name) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(change(v, how, name) for v in x)
    return x


def stamps(x):
    return np.asarray(x.to_numpy()).astype('datetime64[ns]').astype('int64')


def plain(x):
    """Content without representation."""
    if isinstance(x, pd.DatetimeIndex):
        return stamps(x.tz_convert('UTC').tz_localize(None) if x.tz is not None else x)
    if isinstance(x, pd.Index):
        return list(x)
    if isinstance(x, pd.Series):
        kind = getattr(x.dtype, 'kind', 'O')
        if kind == 'M':
            return [plain(x.index), plain(pd.DatetimeIndex(x))]
        if kind == 'm':
            return [plain(x.index), x.dt.total_seconds().to_numpy()]
        return [plain(x.index), x.to_numpy() if kind in 'ifb' else [plain(v) for v in x]]
    if isinstance(x, pd.DataFrame):
        return [plain(x.index), [[str(c), plain(x[c])[1]] for c in x.columns]]
    if isinstance(x, dict):
        return [[str(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, pd.Timestamp):
        return stamps(pd.DatetimeIndex([x.tz_convert('UTC').tz_localize(None) if x.tz is not None else x]))
    if isinstance(x, (np.ndarray, bool, int, float, str, np.generic, type(None))):
        return x
    return type(x).__name__


def unlike(a, b, path='', tol=1e-9):
    """Where two contents differ, or None."""
    if isinstance(a, list) or isinstance(b, list):
        if not isinstance(a, list) or not isinstance(b, list) or len(a) != len(b):
            return f'{path}: different shape'
        for i, (u, v) in enumerate(zip(a, b)):
            tag = u[0] if isinstance(u, list) and len(u) == 2 and isinstance(u[0], str) else i
            r = unlike(u, v, f'{path}/{tag}', tol)
            if r:
                return r
        return None
    if isinstance(a, (np.ndarray, float, int, np.number)) and isinstance(b, (np.ndarray, float, int, np.number)):
        u, v = np.asarray(a), np.asarray(b)
        if u.shape != v.shape:
            return f'{path}: {u.shape} values instead of {v.shape}'
        if u.dtype.kind in 'ib' and v.dtype.kind in 'ib':
            return None if (u == v).all() else f'{path}: {u.ravel()[u.ravel() != v.ravel()][:3]} instead of ' \
                                                f'{v.ravel()[u.ravel() != v.ravel()][:3]}'
        u, v = u.astype(float), v.astype(float)
        scale = np.max(np.abs(v[np.isfinite(v)]), initial=0.0)
        with np.errstate(invalid='ignore'):
            bad = ~((np.abs(u - v) <= tol * scale) | (u == v) | (np.isnan(u) & np.isnan(v)))
        return f'{path}: {u[bad][:3]} instead of {v[bad][:3]}' if bad.any() else None
    return None if str(a) == str(b) else f'{path}: {str(a)[:60]} instead of {str(b)[:60]}'


def cases(pool, variants=12):
    @st.composite
    def make(draw):
        how = draw(st.sampled_from(CHANGES))
        w = draw(calls.worlds())
        if how == 'float':
            w['kind'] = 'int'
        name, variant = draw(st.sampled_from(pool)), draw(st.integers(0, variants - 1))
        if name == 'clearsky_filter' and w['kind'] == 'int':
            variant -= variant % 2                # pvlib's detection cannot take integers
        return dict(call=name, variant=variant, world=w,
                    seed=draw(st.integers(0, 3)), how=how,
                    name=draw(st.sampled_from(NAMES)) if 'name' in how else None)
    return make()


def perform(c, how):
    fn, args, kwargs = calls.recipes(c['call'], c['variant'], c['world'])
    if how:
        args, kwargs = change(args, how, c['name']), change(kwargs, how, c['name'])
    np.random.seed(c['seed'])
    random.seed(c['seed'])
    return calls.execute(fn, args, kwargs)


def check(c, ctx):
    a, b = perform(c, None), perform(c, c['how'])
    ctx.label(c['how'])
    if a[0] == 'err':
        ctx.require(b[0] == 'err' and type(b[1]) is type(a[1]),
                    f"{c['call']} raises {a[1]!r}, but with {c['how']} changed "
                    f"{'raises ' + repr(b[1]) if b[0] == 'err' else 'answers'}"[:500])
        return
    ctx.require(b[0] == 'ok', f"{c['call']} answers, but with {c['how']} changed raises {b[1]!r}"[:500])
    ctx.nontrivial()
    # the iterative fit of the Kalman filter amplifies rounding
    r = unlike(plain(b[1]), plain(a[1]), tol=1e-4 if c['call'] == 'CODSAnalysis' else 1e-9)
    ctx.require(r is None, f"{c['call']} with {c['how']} changed: {r}")


FACETS = [
    Facet('functions', lambda: cases([x for x in calls.FAST]), check, 1600, 16000, 'the call is answered'),
    Facet('chains', lambda: cases(['TrendAnalysis'], 12), check, 90, 1200, 'the call is answered'),
    Facet('slow', lambda: cases(calls.SLOW + ['TrendAnalysis long'], 4), check, 48, 600, 'the call is answered'),
]
