"""C29: results depend on the arguments (and the random seed) only."""
import os
import pickle
import random
import struct
import subprocess
import sys
import traceback
import warnings

import matplotlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Facet, HarnessError
from ..refs import calls

RULE = ('sequences of calls of public functions on similar data, each compared bit by bit with the same call '
        'made alone in a pristine process; and batches of calls under different time zones, hash seeds and '
        'working directories')
ASSUMPTIONS = ["the global random state of numpy and Python's random is set before each call",
               'the circular block bootstrap of year-on-year degradation draws from fresh entropy (documented): '
               'only its point estimate is compared']


def call(names):
    return st.fixed_dictionaries(dict(call=st.sampled_from(names), variant=st.integers(0, 11),
                                      world=calls.worlds(), seed=st.integers(0, 3)))


@st.composite
def sequences(draw, pool, longest=6):
    """Often the same function on different data, or different functions on the same data."""
    first = draw(call(pool))
    out = [first]
    for _ in range(draw(st.integers(1, longest - 1))):
        how = draw(st.sampled_from(['data', 'data', 'options', 'free', 'same']))
        c = dict(draw(st.sampled_from(out)))
        if how == 'data':
            c['world'] = dict(c['world'], **{k: v for k, v in draw(calls.worlds()).items()
                                             if draw(st.booleans())})
        elif how == 'options':
            c['variant'] = draw(st.integers(0, 11))
        elif how == 'free':
            c = draw(call(pool))
        c['seed'] = draw(st.integers(0, 3))
        out.append(c)
    return dict(calls=out)


def settings():
    """Global settings that no call may change."""
    from pandas._config import config as pc
    return dict(err=np.geterr(), env=dict(os.environ), cwd=os.getcwd(), pandas=repr(sorted(
        (k, pd.get_option(k)) for k in pc._registered_options if k not in pc._deprecated_options)),
        plot=repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items())),
        filters=repr([f for f in warnings.filters]), backend=matplotlib.get_backend())


def perform(c):
    """(outcome, complaint) of a call with the random state set before it."""
    fn, args, kwargs = calls.recipes(c['call'], c['variant'], c['world'])
    np.random.seed(c['seed'])
    random.seed(c['seed'])
    before, gs = pickle.dumps(np.random.get_state()), settings()
    status, out = calls.execute(fn, args, kwargs)
    bad = ''
    if c['call'] not in calls.RANDOM and pickle.dumps(np.random.get_state()) != before:
        bad = 'changed the global random state'
    now = settings()
    for k in gs:
        if gs[k] != now[k]:
            bad = f'changed a global setting: {k}'
    if status == 'err':
        return ('err', type(out).__name__, str(out)[:200]), bad
    return ('ok', calls.frozen(out)), bad


def isolated(todo, run=None):
    """Run calls in a forked child, so that this process stays pristine."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps([(run or perform)(c) for c in todo])
            with os.fdopen(w, 'wb') as f:
                f.write(struct.pack('q', len(data)) + data)
            code = 0
        except BaseException:
            os.write(w, traceback.format_exc().encode()[-800:])
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if len(data) < 8 or len(data) != 8 + struct.unpack('q', data[:8])[0]:
        raise HarnessError(f'child process died: {data[-800:].decode(errors="replace")}')
    return pickle.loads(data[8:])


def check(c, ctx):
    todo = c['calls']
    together = isolated(todo)
    good = 0
    for i, one in enumerate(todo):
        (alone, bad), (within, bad2) = isolated([one])[0], together[i]
        ctx.require(not bad and not bad2, f"{one['call']}: {bad or bad2}")
        r = calls.difference(alone, within)
        before = [t['call'] for t in todo[:i]]
        ctx.require(r is None, f"{one['call']} gives another result after {before}: {r}")
        ctx.label(one['call'])
        good += alone[0] == 'ok'
    ctx.nontrivial(good > 1)


@st.composite
def batches(draw):
    return dict(calls=draw(st.lists(call(calls.FAST + calls.PLOTS + ['TrendAnalysis']), min_size=6, max_size=14)),
                tz=draw(st.sampled_from(['Asia/Tokyo', 'America/St_Johns', 'Pacific/Auckland'])),
                hash=draw(st.integers(1, 1000)))


def check_environment(c, ctx):
    """The machine's time zone, hash seed and working directory do not matter."""
    here = isolated(c['calls'])
    env = dict(os.environ, TZ=c['tz'], PYTHONHASHSEED=str(c['hash']))
    p = subprocess.run([sys.executable, '-m', 'vlib.child29'], input=pickle.dumps(c['calls']), cwd='/',
                       env=dict(env, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.dirname(
                           os.path.abspath(__file__))))), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise HarnessError(p.stderr.decode()[-500:])
    there = pickle.loads(p.stdout[p.stdout.index(b'RESULT') + 6:])
    for one, (a, _), (b, _) in zip(c['calls'], here, there):
        r = calls.difference(a, b)
        ctx.require(r is None, f"{one['call']} depends on TZ={c['tz']} or the hash seed {c['hash']}: {r}")
    ctx.nontrivial(sum(a[0] == 'ok' for a, _ in here) > 3)


def leaves(x, path=()):
    """Paths of the data and numbers in nested arguments."""
    if isinstance(x, (list, tuple)):
        items = enumerate(x)
    elif isinstance(x, dict):
        items = x.items()
    else:
        ok = isinstance(x, (pd.Series, pd.DataFrame, pd.DatetimeIndex, int, float)) and not isinstance(x, bool)
        return [path] if ok and (not hasattr(x, '__len__') or len(x)) else []
    return [p for k, v in items for p in leaves(v, path + (k,))]


def changed(x, path, how, k):
    """The nested arguments with one leaf slightly changed (everything else the same objects)."""
    if path:
        rest = changed(x[path[0]], path[1:], how, k)
        if isinstance(x, dict):
            return dict(x, **{path[0]: rest})
        y = list(x)
        y[path[0]] = rest
        return type(x)(y)
    if isinstance(x, pd.DatetimeIndex):
        return [x + pd.Timedelta(days=1), x + pd.Timedelta(days=40), x[:-1], x.tz_convert('Asia/Kolkata')
                if x.tz is not None else x + pd.Timedelta(hours=5), x + pd.Timedelta(minutes=7)][how]
    if isinstance(x, (int, float)):
        # also by less than a unit where the argument is a whole number by chance
        return x + ([1, 0.01, -0.3, 1, 0.4][how] if isinstance(x, int) else [0.01, 0.3, 1.7, -0.2, 0.05][how])
    y = x.copy()
    v = np.array(y.to_numpy(), copy=True)
    if v.dtype == object:
        return y.iloc[:-1]
    at = (k % len(v),)
    if how == 3:
        y.index = y.index + (pd.Timedelta(days=365) if isinstance(y.index, pd.DatetimeIndex) else 1)
        return y
    if how == 4 and isinstance(y, pd.Series):
        return y.rename('other')
    if v.dtype == bool:
        v[at] = ~v[at]
    elif how == 1:
        v = (v * 1.03).astype(v.dtype) if v.dtype.kind == 'f' else v + 2
    elif how == 2:
        v = v[::-1]
    else:
        v[at] = (v[at] * 1.25 + 0.5).astype(v.dtype)
    return (pd.Series(v, index=y.index, name=y.name) if isinstance(y, pd.Series) else
            pd.DataFrame(v, index=y.index, columns=y.columns))


def in_place(x, path, k):
    for p in path:
        x = x[p]
    if isinstance(x, (pd.Series, pd.DataFrame)) and all(t.kind == 'f' for t in np.atleast_1d(
            np.array(getattr(x, 'dtypes', None), dtype=object))):
        x.iloc[k % len(x)] = x.iloc[k % len(x)] * 1.25 + 0.5
        return True
    return False


@st.composite
def twins(draw, pool):
    c = draw(call(pool))
    c['edits'] = draw(st.lists(st.fixed_dictionaries(dict(leaf=st.integers(0, 11), how=st.integers(0, 4),
                                                          k=st.integers(0, 3000), place=st.booleans())),
                               min_size=2, max_size=5))
    return c


def twin_runs(c, only=None):
    """Outcomes of the call and of its slightly changed repetitions; only the last ones of them if asked for."""
    fn, args, kwargs = calls.recipes(c['call'], c['variant'], c['world'])
    out = []
    x = (tuple(args), dict(kwargs))
    for i in range(len(c['edits']) + 1):
        if i:
            e = c['edits'][i - 1]
            found = leaves(x)
            path = found[e['leaf'] % len(found)]
            if not (e['place'] and in_place(x, path, e['k'])):
                x = changed(x, path, e['how'], e['k'])
        if only is None or only == i:
            np.random.seed(c['seed'])
            random.seed(c['seed'])
            status, r = calls.execute(fn, x[0], x[1])
            out.append((status, calls.frozen(r) if status == 'ok' else (type(r).__name__, str(r)[:200])))
        else:
            out.append(None)
    return out


def fork_twins(c, only=None):
    return isolated([(c, only)], lambda t: twin_runs(*t))[0]


def check_twins(c, ctx):
    """A call on slightly other data, or on the same object after a change of its content, is not answered from memory."""
    together = fork_twins(c)
    for i in range(1, len(together)):
        alone = fork_twins(c, i)[i]
        r = calls.difference(alone, together[i])
        ctx.require(r is None, f"{c['call']}: repetition {i} with changed arguments differs from the same call made alone: {r}")
    ctx.label(c['call'])
    ctx.nontrivial(sum(t[0] == 'ok' for t in together) > 1)


@st.composite
def seeds(draw):
    c = draw(call([n for n in calls.FAST if n in calls.RANDOM] or sorted(calls.RANDOM)))
    c['other'] = draw(st.integers(4, 2 ** 32 - 1))
    return c


def state_after(c):
    fn, args, kwargs = calls.recipes(c['call'], c['variant'], c['world'])
    out = []
    for seed in (c['seed'], c['other']):
        np.random.seed(seed)
        random.seed(seed)
        status, _ = calls.execute(fn, args, kwargs)
        out.append((status, pickle.dumps(np.random.get_state()), pickle.dumps(random.getstate())))
    return out


def check_seeds(c, ctx):
    """A call that draws random numbers continues the caller's sequence; it never restarts it."""
    a, b = isolated([c], state_after)[0]
    ctx.label(c['call'])
    ctx.nontrivial(a[0] == 'ok')
    for i, what in ((1, "numpy's"), (2, "Python's")):
        ctx.require(a[i] != b[i], f"{c['call']} sets {what} global random state: it is the same after a call with "
                    f"seed {c['seed']} and one with seed {c['other']}")


OBJECTS = dict(availability=4, srr=6, cods=3, trend=8, results=16)


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(['availability', 'srr', 'trend', 'results', 'availability', 'srr', 'trend', 'results',
                                 'cods']))
    return dict(kind=kind, world=draw(calls.worlds()), seed=draw(st.integers(0, 3)),
                runs=draw(st.lists(st.integers(0, OBJECTS[kind] - 1), min_size=2, max_size=4)))


def fresh(c):
    x = calls.World(dict(c['world'], freq=True))
    if c['kind'] == 'availability':
        return calls.availability.AvailabilityAnalysis(*x.inverters())
    if c['kind'] == 'srr':
        return calls.soiling.SRRAnalysis(*x.daily(300))
    if c['kind'] == 'cods':
        return calls.soiling.CODSAnalysis(x.daily(740)[0])
    long = c['kind'] == 'results'
    d = calls.chain.build(dict(days=780 if long else 10, step=120 if long else 60, seed=c['world']['seed'], tz='UTC',
                               start='2016-03-10', rate=0.0, cloud=0.3, nan=0.0, drop=0.0, clip=False, scale=5000.0,
                               gamma=-0.004))
    if long:
        ta = calls.rdtools.TrendAnalysis(d['pv'], poa_global=d['poa'], temperature_cell=d['tcell'], gamma_pdc=-0.004,
                                         max_timedelta=pd.Timedelta(hours=4))
        ta.set_clearsky(pvlib_location=calls.chain.LOC, pv_tilt=20, pv_azimuth=180, poa_global_clearsky=d['clear'],
                        temperature_cell_clearsky=d['tcell_cs'])
        return ta
    ta = calls.rdtools.TrendAnalysis(d['pv'], poa_global=d['poa'], temperature_ambient=d['tamb'], gamma_pdc=-0.004)
    ta.set_clearsky(pvlib_location=calls.chain.LOC, pv_tilt=20, pv_azimuth=180,
                    temperature_ambient_clearsky=d['tamb_cs'])
    return ta


def use(obj, c, i):
    """Run with the i-th set of options; everything the run reports."""
    if c['kind'] == 'availability':
        obj.run(**[{}, dict(low_threshold=0.3, rollup_period='W'), dict(power_system_limit=3.0),
                   dict(quantiles=(0.1, 0.9), relative_sizes=dict(a=0.5, b=1.5, c=1.0))][i])
        return dict(results=obj.results, outages=obj.outage_info, loss=obj.loss_total, sub=obj.loss_subsystem,
                    system=obj.loss_system, expected=obj.energy_expected_rescaled, plot=obj.plot())
    if c['kind'] == 'srr':
        out = obj.run(reps=4, **[{}, dict(method='random_clean'), dict(method='perfect_clean', trim=True), dict(
            clean_criterion='precip_or_shift', precip_threshold=0.1), dict(clean_threshold=0.02, recenter=False),
            dict(outlier_factor=0.5, exceedance_prob=80, confidence_level=95)][i])
        return dict(out=out, daily=obj.daily_df, intervals=obj.result_df)
    if c['kind'] == 'cods':
        return obj.iterative_signal_decomposition(**[{}, dict(order=('SC', 'SR', 'Rd')), dict(ffill=False)][i])
    if c['kind'] == 'results':
        obj.filter_params = dict(normalized_filter={}, clearsky_filter=dict(model='csi', threshold=[0.15, 0.3][i // 4 % 2]))
        obj.filter_params_aggregated = {}
        case = ['sensor', 'clearsky'][i // 8]
        other = ['clearsky', 'sensor'][i // 8]
        before = calls.frozen(obj.results[other]) if other in obj.results else None
        what = [['yoy_degradation'], ['srr_soiling'], ['yoy_degradation', 'srr_soiling'], []][i % 4]
        kw = [{}, dict(yoy_kwargs=dict(recenter=False, confidence_level=90))][i // 4 % 2]
        getattr(obj, f'{case}_analysis')(analyses=what, srr_kwargs=dict(reps=3), **kw)
        after = calls.frozen(obj.results[other]) if other in obj.results else None
        if calls.difference(before, after) is not None:
            raise RuntimeError(f'the {other} results changed')
        return obj.results[case]
    obj.filter_params = dict(normalized_filter={}, poa_filter=dict(poa_global_low=[50, 300][i % 2]),
                             clearsky_filter=dict(model='csi', threshold=[0.15, 0.5][i // 2 % 2]))
    case = ['sensor', 'clearsky'][i // 4]
    getattr(obj, f'{case}_analysis')(analyses=[])
    return {k: getattr(obj, f'{case}_{k}') for k in ('filter', 'filter_components', 'aggregated_performance',
                                                    'aggregated_insolation')}


def seeded(obj, c, i):
    np.random.seed(c['seed'])
    status, out = calls.execute(use, (obj, c, i), {})
    return (status, calls.frozen(out) if status == 'ok' else type(out).__name__)


def check_objects(c, ctx):
    """What was run before on an object does not matter."""
    obj = fresh(c)
    for i in c['runs'][:-1]:
        calls.execute(use, (obj, c, i), {})
    last = c['runs'][-1]
    have, want = seeded(obj, c, last), seeded(fresh(c), c, last)
    r = calls.difference(want, have)
    ctx.require(r is None, f"{c['kind']}: run {last} after {c['runs'][:-1]} differs from a new object: {r}")
    ctx.label(c['kind'] + ('' if want[0] == 'ok' else ' raises'))
    ctx.nontrivial(want[0] == 'ok' and len(set(c['runs'])) > 1)


FACETS = [
    Facet('objects', histories, check_objects, 120, 2500, 'runs with different options'),
    Facet('sequence', lambda: sequences(calls.FAST + calls.PLOTS), check, 120, 2500, 'two or more successful calls'),
    Facet('seeds', seeds, check_seeds, 80, 800, 'the call succeeds'),
    Facet('twins', lambda: twins(calls.FAST), check_twins, 400, 8000, 'two or more successful calls'),
    Facet('analysis', lambda: sequences(calls.CHAIN, 4), check, 24, 400, 'two or more successful calls'),
    Facet('slow', lambda: sequences(calls.SLOW, 3), check, 12, 150, 'two or more successful calls'),
    Facet('cods', lambda: sequences(['soiling_cods'], 2), check, 4, 30, 'two or more successful calls'),
    Facet('environment', batches, check_environment, 8, 120, 'four or more successful calls'),
]
