"""Property-based checking core: facets, workers, shrinking, replay, evidence.

A property module (vlib/props/cNN.py) exposes

    FACETS = [Facet(...), ...]

Every facet is a Hypothesis strategy producing a JSON-able *case*, plus a check function
`check(case, ctx)` that drives the real rdtools code on that case and compares it with an
independent oracle.  All random choices are inside the strategy (a case may carry integer
seeds from which long series are expanded deterministically), so a case is a complete
reproduction and is what the replay file stores.
"""
import contextlib
import hashlib
import json
import math
import multiprocessing as mp
import os
import queue as queue_mod
import resource
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

N_WORKERS = 8
SHRINK_SECONDS = float(os.environ.get('VERIF_SHRINK_SECONDS', '45'))
CASE_SECONDS = 120
WORKER_MEMORY = 6 << 30


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is in trouble (never reported as a violation)."""


class _Stop(KeyboardInterrupt):
    """Abort the Hypothesis run (budget exhausted, or another worker has a failure)."""


class _CaseTimeout(KeyboardInterrupt):
    """A single case ran out of time: inconclusive."""


class Discard(Exception):
    """The case turned out to be outside of the property's domain (counted, not judged)."""


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, rule, examples=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = list(examples)


def jdump(obj):
    return json.dumps(obj, sort_keys=True, default=_jdefault)


def _jdefault(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


class Ctx:
    """Handed to each check: labels, judgement helpers and guarded calls."""

    def __init__(self, seed):
        self.labels = set()
        self.is_nontrivial = False
        self.seed = seed

    # -- classification
    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    # -- randomness of the code under test
    def reseed(self, salt=0):
        np.random.seed((self.seed + salt) % (2**32))
        _RNG['n'] = 0
        _RNG['base'] = (self.seed + salt) % (2**32)

    # -- judgement
    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def call(self, what, fn, *a, **k):
        """Call code under test on an input it must accept."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f'{what}: raised {type(e).__name__}: {str(e)[:300]} on a valid '
                            f'input ({_where(e)})') from e

    def raises(self, what, exc, fn, *a, **k):
        """Call code under test on an input it must reject with `exc`."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out = fn(*a, **k)
        except exc as e:
            return e
        except Exception as e:
            raise Violation(f'{what}: expected {exc}, got {type(e).__name__}: {str(e)[:300]} '
                            f'({_where(e)})') from e
        raise Violation(f'{what}: expected {exc}, but it returned {str(type(out))}')

    def outcome(self, fn, *a, **k):
        """('ok', value) or ('err', exception): for differential comparisons."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return 'ok', fn(*a, **k)
        except Exception as e:
            return 'err', e

    def warned(self, fn, *a, **k):
        """Call and return (value, list of warning messages)."""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                out = fn(*a, **k)
            except Exception as e:
                raise Violation(f'raised {type(e).__name__}: {str(e)[:300]} on a valid input '
                                f'({_where(e)})') from e
        return out, [str(x.message) for x in w]

    def close(self, what, got, want, rtol=1e-9, atol=1e-12):
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(f'{what}: shape {g.shape} instead of {w.shape}')
        bad = ~_isclose(g, w, rtol, atol)
        if bad.any():
            i = np.flatnonzero(np.atleast_1d(bad))
            gg, ww = np.atleast_1d(g).ravel(), np.atleast_1d(w).ravel()
            j = i[0] if g.ndim <= 1 else np.flatnonzero(bad.ravel())[0]
            raise Violation(f'{what}: {int(bad.sum())} value(s) differ; first at position {j}: '
                            f'got {gg[j]!r}, expected {ww[j]!r}')

    def same_index(self, what, got, want):
        if len(got) != len(want):
            raise Violation(f'{what}: index has {len(got)} entries, expected {len(want)}; '
                            f'got {list(got[:4])}..., expected {list(want[:4])}...')
        if len(got) and not (got == want).all():
            j = int(np.flatnonzero(~np.asarray(got == want))[0])
            raise Violation(f'{what}: index entry {j} is {got[j]!r}, expected {want[j]!r}')
        gt, wt = getattr(got, 'tz', None), getattr(want, 'tz', None)
        if str(gt) != str(wt):
            raise Violation(f'{what}: timezone {gt} instead of {wt}')

    def series(self, what, got, want, rtol=1e-9, atol=1e-12):
        """Same index and same values (NaN == NaN)."""
        self.same_index(what, got.index, want.index)
        self.close(what, got.to_numpy(dtype=float), want.to_numpy(dtype=float), rtol, atol)

    def mask(self, what, got, index, want, ambiguous=None):
        """Boolean mask over index; positions flagged ambiguous are not judged."""
        self.same_index(what, got.index, index)
        vals = got.to_numpy()
        if vals.dtype != bool:
            if not all(isinstance(v, (bool, np.bool_)) for v in vals.tolist()):
                raise Violation(f'{what}: result is not boolean (dtype {vals.dtype})')
            vals = vals.astype(bool)
        want = np.asarray(want, dtype=bool)
        bad = vals != want
        if ambiguous is not None:
            bad &= ~np.asarray(ambiguous, dtype=bool)
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            raise Violation(f'{what}: {int(bad.sum())} of {len(bad)} verdicts wrong; first at '
                            f'{index[j]}: got {vals[j]}, expected {want[j]}')


def _isclose(g, w, rtol, atol):
    with np.errstate(invalid='ignore'):
        return ((np.abs(g - w) <= atol + rtol * np.maximum(np.abs(w), np.abs(g)))
                | (np.isnan(g) & np.isnan(w)) | (g == w))


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if '/rdtools/' in fr.filename:
            return f'{os.path.basename(fr.filename)}:{fr.name}'
    return f'{os.path.basename(tb[-1].filename)}:{tb[-1].name}' if tb else '?'


# ---------------------------------------------------------------- determinism of callee RNGs
_RNG = {'base': 0, 'n': 0}
_orig_default_rng = np.random.default_rng


def _seeded_default_rng(seed=None):
    if seed is None:
        _RNG['n'] += 1
        seed = [_RNG['base'], _RNG['n']]
    return _orig_default_rng(seed)


def patch_rng():
    """`arch` and others seed themselves from OS entropy; make that a function of the case."""
    np.random.default_rng = _seeded_default_rng


# ---------------------------------------------------------------- running one case
def case_seed(facet, case):
    return zlib.crc32((facet.name + jdump(case)).encode())


def run_case(facet, case, state=None):
    """Returns (verdict, message, ctx) with verdict in ok / violation / discard / timeout."""
    case = json.loads(jdump(case))          # exactly what a replay would see
    ctx = Ctx(case_seed(facet, case))
    ctx.reseed()

    def on_alarm(sig, frame):
        raise _CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                facet.check(case, ctx)
        return 'ok', '', ctx
    except Violation as e:
        return 'violation', str(e), ctx
    except Discard as e:
        return 'discard', str(e), ctx
    except _CaseTimeout:
        return 'timeout', 'case ran out of time', ctx
    except (HarnessError, ImportError, MemoryError, OSError):
        raise
    except (KeyError, TypeError, ValueError, IndexError, AttributeError, AssertionError,
            ArithmeticError) as e:
        # the oracle could not even read the result: its shape is not what the API promises
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return 'violation', (f'result could not be interpreted: {type(e).__name__}: '
                             f'{str(e)[:200]} at {os.path.basename(tb.filename)}:{tb.lineno}'), ctx
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.discards = 0
        self.timeouts = 0
        self.samples = []
        self.known = {}

    def add(self, case, verdict, ctx):
        self.evaluations += 1
        if verdict == 'discard':
            self.discards += 1
            return
        if verdict == 'timeout':
            self.timeouts += 1
            return
        for lb in ctx.labels:
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if ctx.is_nontrivial:
            h = hashlib.sha1(jdump(case).encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                txt = jdump(case)
                if len(self.samples) < 2 and len(txt) < 3000:
                    self.samples.append(json.loads(txt))


def _limit_memory():
    """Code under test that asks for far too much memory gets a MemoryError, which is judged like
    any other exception, instead of having the sandbox end the process."""
    with open('/proc/self/statm') as f:
        base = int(f.read().split()[0]) * resource.getpagesize()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (base + WORKER_MEMORY, base + WORKER_MEMORY))
    except (ValueError, OSError):
        pass


def _worker(wid, prop, facets, tier, seed, deadline, stop, out):
    """One forked worker: run its share of every facet."""
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        _limit_memory()
        _worker_body(wid, prop, facets, tier, seed, deadline, stop, out)
    except BaseException:
        out.put(('error', wid, traceback.format_exc()))
    finally:
        out.put(('done', wid, None))


def _worker_body(wid, prop, facets, tier, seed, deadline, stop, out):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from . import findings
    for fi, facet in enumerate(facets):
        stats = Stats()
        total = facet.quick if tier == 'quick' else facet.thorough
        n = total // N_WORKERS + (1 if wid < total % N_WORKERS else 0)
        best = {'case': None, 'msg': None, 'size': None, 't0': None}
        skipped = [0]

        def judge(case):
            if best['case'] is None and stop.is_set():
                raise _Stop()
            if best['case'] is not None:
                if time.time() - best['t0'] > SHRINK_SECONDS or time.time() > deadline + 60:
                    raise _Stop()
            elif time.time() > deadline:
                skipped[0] += 1
                raise _Stop()
            verdict, msg, ctx = run_case(facet, case)
            if verdict == 'violation':
                known = findings.match(prop, facet.name, case, msg)
                if known:
                    stats.known[known] = stats.known.get(known, 0) + 1
                    stats.add(case, 'ok', ctx)
                    return
            stats.add(case, verdict, ctx)
            if verdict == 'violation':
                txt = jdump(case)
                if best['case'] is None or len(txt) <= best['size']:
                    best.update(case=json.loads(txt), msg=msg, size=len(txt),
                                t0=best['t0'] or time.time())
                raise Violation(msg)

        examples = facet.examples() if callable(facet.examples) else facet.examples
        try:
            for i, ex in enumerate(examples):
                if i % N_WORKERS == wid:
                    judge(ex)
            if n > 0:
                # Hypothesis starts with the simplest case: one worker is enough for that
                skip = [wid != 0]

                def test(case):
                    if skip[0]:
                        skip[0] = False
                        return
                    judge(case)
                strat = facet.strategy() if callable(facet.strategy) else facet.strategy
                t = hypothesis.given(strat)(test)
                t = settings(max_examples=n + skip[0], deadline=None, database=None,
                             phases=(Phase.generate, Phase.shrink),
                             suppress_health_check=list(HealthCheck),
                             report_multiple_bugs=False, print_blob=False,
                             verbosity=hypothesis.Verbosity.quiet)(t)
                t = hypothesis.seed((seed * 1000003 + wid * 7919 + fi * 104729) % (2**63))(t)
                t()
        except _Stop:
            pass
        except Violation:
            pass
        except hypothesis.errors.HypothesisException as e:
            if best['case'] is None:
                raise
        except BaseExceptionGroup:
            if best['case'] is None:
                raise
        out.put(('stats', wid, dict(facet=facet.name, evaluations=stats.evaluations,
                                    nontrivial=stats.nontrivial, labels=stats.labels,
                                    discards=stats.discards, timeouts=stats.timeouts,
                                    samples=stats.samples, known=stats.known,
                                    cut_short=skipped[0])))
        if best['case'] is not None:
            stop.set()
            out.put(('violation', wid, dict(facet=facet.name, case=best['case'],
                                            msg=best['msg'])))
            return
        if stop.is_set():
            return


def run_property(prop, facets, tier, seed, budget):
    """Run all facets of a property on N_WORKERS processes."""
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    out = ctx.Queue()
    deadline = time.time() + budget
    procs = [ctx.Process(target=_worker, args=(w, prop, facets, tier, seed, deadline, stop, out),
                         daemon=True) for w in range(N_WORKERS)]
    for p in procs:
        p.start()
    done, stats, violations, errors = set(), {}, [], []
    hard = deadline + SHRINK_SECONDS + CASE_SECONDS + 120
    while len(done) < N_WORKERS:
        try:
            kind, wid, payload = out.get(timeout=2)
        except queue_mod.Empty:
            for w, p in enumerate(procs):
                if not p.is_alive() and w not in done and out.empty():
                    errors.append(f'worker {w} ended with code {p.exitcode}')
                    done.add(w)
            if time.time() > hard:
                errors.append('workers did not finish in time')
                break
            continue
        if kind == 'done':
            done.add(wid)
        elif kind == 'error':
            errors.append(payload)
        elif kind == 'violation':
            violations.append(payload)
        elif kind == 'stats':
            s = stats.setdefault(payload['facet'], dict(
                evaluations=0, nontrivial=set(), labels={}, discards=0, timeouts=0,
                samples=[], known={}, cut_short=0))
            s['evaluations'] += payload['evaluations']
            s['nontrivial'] |= payload['nontrivial']
            s['discards'] += payload['discards']
            s['timeouts'] += payload['timeouts']
            s['cut_short'] += payload['cut_short']
            for k, v in payload['labels'].items():
                s['labels'][k] = s['labels'].get(k, 0) + v
            for k, v in payload['known'].items():
                s['known'][k] = s['known'].get(k, 0) + v
            if len(s['samples']) < 2:
                s['samples'] += payload['samples'][:1]
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
    return stats, violations, errors
