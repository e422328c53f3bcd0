"""C27: filter configuration accepts exactly the documented filters, and applies exactly those."""
import copy
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import TrendAnalysis
from ..core import Facet
from ..refs import chain, chainrun

RULE = ('sequences of dictionary operations and assignments on the filter settings of two analysis objects, '
        'with valid and invalid filter names, compared with plain dictionaries after every operation')
ASSUMPTIONS = ['filter names are those the documentation lists']

KEYS = ('normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'hour_angle_filter',
        'clearsky_filter', 'sensor_clearsky_filter', 'ad_hoc_filter')
AGG = ('two_way_window_filter', 'insolation_filter', 'hampel_filter', 'directional_tukey_filter',
       'ad_hoc_filter')
DEFAULT = {k: {} for k in ('normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'clearsky_filter')}
DEFAULT['ad_hoc_filter'] = None
DEFAULT_AGG = dict(two_way_window_filter={}, ad_hoc_filter=None)
PARAMS = dict(chain.F_PARAMS, **chain.A_PARAMS)
BAD = ('csi_filter', 'Poa_filter', 'poa filter', 'clip_filter ', '', 'two_way_window', 'filter')


@st.composite
def names(draw, agg):
    """Mostly valid names; names of the other kind of filter are invalid."""
    good, other = (AGG, KEYS) if agg else (KEYS, AGG)
    if draw(st.integers(0, 3)):
        return draw(st.sampled_from(good))
    return draw(st.one_of(st.sampled_from([k for k in other if k not in good]), st.sampled_from(BAD)))


@st.composite
def pairs(draw, agg, most=3):
    out = []
    for k in draw(st.lists(names(agg), max_size=most, unique=True)):
        out.append((k, draw(st.integers(0, 2))))
    return out


@st.composite
def operations(draw):
    agg = draw(st.sampled_from([False, False, True]))
    kind = draw(st.sampled_from(['set', 'set', 'del', 'pop', 'popitem', 'clear', 'update', 'update', 'ior', 'or',
                                 'setdefault', 'assign', 'assign', 'bad assign', 'edit', 'copy']))
    o = dict(who=draw(st.integers(0, 1)), agg=agg, kind=kind)
    if kind in ('set', 'del', 'pop', 'setdefault', 'edit'):
        o.update(key=draw(names(agg)), value=draw(st.integers(0, 2)))
    elif kind in ('update', 'ior', 'or', 'assign'):
        o.update(items=draw(pairs(agg)), form=draw(st.sampled_from(['dict', 'pairs', 'iterator', 'keywords',
                                                                   'both'])))
    elif kind == 'bad assign':
        o['value'] = draw(st.sampled_from(['none', 'list', 'string', 'pairs']))
    elif kind == 'copy':
        o['how'] = draw(st.sampled_from(['copy', 'deepcopy', 'pickle', 'object']))
    return o


@st.composite
def cases(draw):
    return dict(seed=draw(st.integers(0, 99)), expected=draw(st.sampled_from([None, None, 'cell', 'bare'])),
                ops=draw(st.lists(operations(), min_size=1, max_size=12)))


def value(key, i):
    if key == 'ad_hoc_filter':
        return [None, 'mask', None][i]
    p = PARAMS.get(key, [{}])
    return dict(p[i % len(p)])


def plant(seed):
    d = chain.build(dict(days=3, step=60, seed=seed, tz='UTC', start='2015-01-01', rate=0.0, cloud=0.3,
                         nan=0.0, drop=0.0, clip=False, scale=1.0, gamma=-0.004))
    return d


def fresh(d, expected=None):
    kw = dict(poa_global=d['poa'], gamma_pdc=-0.004)
    if expected != 'bare':
        kw['temperature_cell'] = d['tcell']
    if expected:
        kw['power_expected'] = d['expected']
    ta = TrendAnalysis(d['pv'], **kw)
    ta.set_clearsky(pvlib_location=chain.LOC, pv_tilt=20, pv_azimuth=180, poa_global_clearsky=d['clear'],
                    temperature_cell_clearsky=d['tcell_cs'])
    return ta


def get(ta, agg):
    return ta.filter_params_aggregated if agg else ta.filter_params


def apply(o, ta, model, mask):
    """Perform the operation on both; returns (real outcome, model exception type)."""
    agg, kind = o['agg'], o['kind']
    good = AGG if agg else KEYS
    name = 'filter_params_aggregated' if agg else 'filter_params'

    def val(k, i):
        v = value(k, i)
        return mask if isinstance(v, str) else v
    d = get(ta, agg)
    if kind == 'set':
        if o['key'] in good:
            model[o['key']] = val(o['key'], o['value'])
        return (lambda: d.__setitem__(o['key'], val(o['key'], o['value']))), None if o['key'] in good else KeyError
    if kind == 'del':
        have = o['key'] in model
        model.pop(o['key'], None)

        def delete():
            del d[o['key']]
        return delete, None if have else KeyError
    if kind == 'pop':
        model.pop(o['key'], None)
        return (lambda: d.pop(o['key'], None)), None
    if kind == 'popitem':
        if not model:
            return d.popitem, KeyError

        def popitem():
            k, _ = d.popitem()
            model.pop(k)
        return popitem, None
    if kind == 'clear':
        model.clear()
        return d.clear, None
    if kind == 'setdefault':
        k = o['key']
        if k in good:
            model.setdefault(k, val(k, o['value']))

        def setdefault():
            got = d.setdefault(k, val(k, o['value']))
            assert same(got, model[k]), f'setdefault returned {got!r}'
        return setdefault, None if k in good else KeyError
    if kind == 'edit':
        k = o['key']
        if isinstance(model.get(k), dict):
            new = val(k, o['value'])

            def edit():
                d[k].clear()
                d[k].update(new)
            model[k] = dict(new)
            return edit, None
        return (lambda: None), None
    if kind in ('update', 'ior', 'or', 'assign'):
        items = [(k, val(k, i)) for k, i in o['items']]
        ok = all(k in good for k, _ in items)
        form = o['form']
        if kind == 'update':
            if ok:
                model.update(items)
            if form == 'keywords' and all(k.isidentifier() for k, _ in items):
                run = lambda: d.update(**dict(items))                # noqa: E731
            elif form == 'both' and all(k.isidentifier() for k, _ in items):
                run = lambda: d.update(items[:1], **dict(items[1:]))      # noqa: E731
            elif form == 'iterator':
                run = lambda: d.update(iter(items))                  # noqa: E731
            elif form == 'pairs':
                run = lambda: d.update(items)                        # noqa: E731
            else:
                run = lambda: d.update(dict(items))                  # noqa: E731
            return run, None if ok else KeyError
        if kind == 'ior':
            if ok:
                model.update(items)

            def ior():
                x = get(ta, agg)
                x |= {'dict': dict(items), 'pairs': items}.get(form, dict(items))
                assert x is get(ta, agg), 'in-place or made another object'
            return ior, None if ok else KeyError
        if kind == 'or':
            def union():
                x = d | dict(items)
                assert isinstance(x, dict)
            # may refuse invalid names; the settings stay as they were either way
            return union, None if ok else (KeyError, type(None))
        new = dict(items)
        if ok:
            model.clear()
            model.update(items)

        def assign():
            chainrun.quiet(setattr, ta, name, new)
            # later changes of the caller's dictionary have no effect
            new['poa_filter' if agg else 'hampel_filter'] = {}
            new.pop(items[0][0] if items else None, None)
        return assign, None if ok else KeyError
    if kind == 'bad assign':
        v = dict(none=None, list=['poa_filter'], string='poa_filter', pairs=[('poa_filter', {})])[o['value']]
        return (lambda: chainrun.quiet(setattr, ta, name, v)), ValueError
    raise AssertionError(kind)


def same(a, b):
    if isinstance(a, pd.Series) or isinstance(b, pd.Series):
        return isinstance(a, pd.Series) and isinstance(b, pd.Series) and a.equals(b)
    return a == b


def equal(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def check(c, ctx):
    d = plant(c['seed'])
    mask = pd.Series(np.arange(len(d['pv'])) % 3 > 0, index=d['pv'].index)
    tas = [fresh(d, c['expected']), fresh(d)]
    models = []
    for exp in (c['expected'], None):
        m = [copy.deepcopy(DEFAULT), copy.deepcopy(DEFAULT_AGG)]
        if exp == 'bare':
            del m[0]['tcell_filter']
        models.append(m)

    def agree(when):
        for i, (ta, m) in enumerate(zip(tas, models)):
            for agg in (0, 1):
                have = dict(get(ta, agg))
                ctx.require(equal(have, m[agg]), f"object {i}: settings {sorted(have.items(), key=str)} {when}, "
                            f"expected {sorted(m[agg].items(), key=str)}"[:400])
    agree('at the start')
    refused = 0
    for n, o in enumerate(c['ops']):
        ta, m = tas[o['who']], models[o['who']][int(o['agg'])]
        if o['kind'] == 'copy':
            how = o['how']
            if how == 'object':
                tas[o['who']] = ctx.call('deepcopy of the analysis object', copy.deepcopy, ta)
            else:
                fn = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda x: pickle.loads(pickle.dumps(x)))[how]
                clone = ctx.call(how, fn, get(ta, o['agg']))
                ctx.require(equal(dict(clone), m), f'{how} of the settings differs')
                ctx.raises(f'invalid name in a {how}', KeyError, clone.__setitem__, 'nonsense', {})
            continue
        run, exc = apply(o, ta, m, mask)
        if exc is None:
            ctx.call(f"{o['kind']}", run)
        elif isinstance(exc, tuple):
            ctx.outcome(run)
        else:
            refused += 1
            ctx.label(f"{o['kind']} refused")
            ctx.raises(f"{o['kind']} {o.get('key', o.get('items'))}", exc, run)
        agree(f'after operation {n} ({o["kind"]})')
    ctx.nontrivial(len(c['ops']) > 2 and (refused > 0 or len({o['kind'] for o in c['ops']}) > 2))
    # what the analysis applies is what is configured
    ta, m = tas[0], models[0]
    for case in ('sensor', 'clearsky'):
        want = {k for k, v in m[0].items() if v is not None}
        want -= {'clearsky_filter'} if case == 'sensor' else {'sensor_clearsky_filter'}
        exc = None
        if case == 'clearsky' and 'clearsky_filter' not in m[0]:
            continue
        short = [k for k in ('clearsky_filter', 'sensor_clearsky_filter') if m[0].get(k) == {} and k in want]
        if short:
            # the detection model cannot handle hourly data
            continue
        if c['expected'] == 'bare' and case == 'sensor' and 'tcell_filter' in want:
            exc = ValueError
        if exc:
            ctx.raises(f'{case}_analysis', exc, chainrun.run, ta, case, analyses=[])
            continue
        status, out = ctx.outcome(chainrun.run, ta, case, analyses=[])
        if status == 'err':
            # nothing left to aggregate, or a filter that cannot handle few days
            ctx.label('not run')
            continue
        ctx.label('run')
        comp = getattr(ta, f'{case}_filter_components')
        ctx.require(set(comp.columns) == want, f'{case}: applied {sorted(comp.columns)}, configured {sorted(want)}')
        both = comp.all(axis=1).to_numpy() if len(comp.columns) else np.ones(len(comp), bool)
        # whether stamps without energy count as kept does not matter
        energy = ta.pv_energy.reindex(comp.index)
        ctx.mask(f'{case}: combined filter', getattr(ta, f'{case}_filter'), comp.index, both, energy.isnull().to_numpy())
        acomp = getattr(ta, f'{case}_filter_components_aggregated')
        awant = {k for k, v in m[1].items() if v is not None}
        ctx.require(set(acomp.columns) == awant,
                    f'{case}: applied to the aggregate {sorted(acomp.columns)}, configured {sorted(awant)}')
        agree(f'after the {case} analysis')


FACETS = [Facet('history', cases, check, 600, 12000, 'three or more operations, some refused or of several kinds')]
