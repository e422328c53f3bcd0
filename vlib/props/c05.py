"""C05: irradiance_rescale."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rdtools import normalization
from ..core import Facet
from .. import gen

RULE = ('clear-day shaped modelled irradiance, measured = scale * model with clouds, noise and '
        'NaNs; the returned factor is judged as a least-squares fixed point')
ASSUMPTIONS = ['enough clear points exist near the percentile-based starting guess']


def emulate(m, s, method, threshold=1e-6, limit=100, exact=False):
    """(factor, number of iterations) of the documented procedure, or None when it is not robust.

    The clear-point set of each step makes the optimum sensitive to rounding in places; the run is repeated on slightly
    perturbed data and only used when all repetitions agree.
    """
    from scipy.optimize import minimize
    runs = []
    for k, eps in enumerate((0.0, 1e-9, -1e-9, 3e-8, -3e-8)):
        a, b = m * (1 + eps), s
        with np.errstate(all='ignore'):
            f = np.percentile(a[~np.isnan(a)], 90) / np.percentile(b[~np.isnan(b)], 90)

            def misfit(x, keep):
                d = x * b[keep] - a[keep]
                return np.sqrt((d ** 2).mean()) if keep.any() else np.nan
            if method == 'single_opt':
                f = minimize(lambda x: misfit(x[0], (a / (x[0] * b) >= 0.8) & (a / (x[0] * b) <= 1.2)),
                             f, method='Nelder-Mead')['x'][0]
                runs.append((f, 0))
                continue
            prev, it = 1.0, 0
            while abs(f - prev) > threshold:
                it += 1
                if it > limit:
                    break
                prev = f
                keep = (a / (f * b) >= 0.8) & (a / (f * b) <= 1.2) & (a > 200)
                f = ((a[keep] * b[keep]).sum() / (b[keep] ** 2).sum() if exact else
                     minimize(lambda x: misfit(x[0], keep), f, method='Nelder-Mead')['x'][0])
            runs.append((f, it))
    fs, its = zip(*runs)
    if not np.isfinite(fs).all() or len(set(its)) > 1 or np.ptp(fs) > 1e-5 * abs(fs[0]):
        return None
    return fs[0], its[0]


@st.composite
def cases(draw):
    return dict(n=draw(st.integers(48, 200)), seed=draw(gen.seed32),
                peak=draw(st.sampled_from([700.0, 1000.0, 1150.0])),
                scale=draw(st.sampled_from([0.6, 0.85, 0.97, 1.0, 1.1, 1.5, 3.0])),
                cloud=draw(st.sampled_from([0.0, 0.1, 0.3])),
                low=draw(st.sampled_from([1.0, 0.85, 0.9])),
                noise=draw(st.sampled_from([0.0, 0.01, 0.05])),
                nan=draw(st.sampled_from([0, 3])), tz=draw(gen.tz),
                method=draw(st.sampled_from([None, 'iterative', 'single_opt'])))


def build(c):
    r = np.random.Generator(np.random.PCG64(c['seed']))
    n = c['n']
    idx = gen.regular_index('2015-05-01 00:00', 30, n, c['tz'])
    h = (np.arange(n) % 48) / 48.0
    sim = c['peak'] * np.clip(np.sin((h - 0.25) * 2 * np.pi), 0, None)
    cloudy = r.random(n) < c['cloud']
    meas = sim * c['scale'] * (1 + c['noise'] * r.standard_normal(n))
    meas = np.where(cloudy, meas * r.uniform(0.1, 1.35, n), meas)
    # systematic low-light deviation: visible if dim points were counted as clear
    meas = np.where(meas < 200, meas * c.get('low', 1.0), meas)
    for k in r.integers(0, n, c['nan']):
        meas[k] = np.nan
    for k in r.integers(0, n, c['nan']):
        sim[k] = np.nan
    return pd.Series(meas, index=idx), pd.Series(sim, index=idx)


def check(c, ctx):
    meas, sim = build(c)
    kw = {} if c['method'] is None else dict(method=c['method'])
    status, out = ctx.outcome(normalization.irradiance_rescale, meas, sim, **kw)
    ctx.label(str(c['method']))
    if status == 'err':
        ctx.label('did not converge')
        ctx.require(isinstance(out, normalization.ConvergenceError) and c['method'] != 'single_opt',
                    f'raised {type(out).__name__}: {out}')
        e = emulate(meas.to_numpy(), sim.to_numpy(), 'iterative')
        ctx.require(e is None or e[1] > 100, f'reported no convergence where {e and e[1]} iterations suffice')
        return
    ctx.same_index('rescaled', out.index, sim.index)
    pos = sim.to_numpy() > 1.0
    ratio = out.to_numpy()[pos] / sim.to_numpy()[pos]
    f = float(np.median(ratio))
    ctx.close('the result is one constant multiple of the model', out.to_numpy(),
              f * sim.to_numpy(), rtol=1e-9, atol=1e-9)
    m, s = meas.to_numpy(), sim.to_numpy()
    with np.errstate(all='ignore'):
        csi = m / (f * s)
    e = emulate(m, s, c['method'] or 'iterative')
    if e is not None:
        ctx.label('procedure reproduced')
        ctx.require(e[1] <= 100, 'returned a factor although the documented iteration does not settle')
        ctx.close('factor of the documented procedure', [f], [e[0]], rtol=5e-4)
    edge = (np.abs(csi - 0.8) < 1e-4) | (np.abs(csi - 1.2) < 1e-4)
    filt = (csi >= 0.8) & (csi <= 1.2)
    if c['method'] != 'single_opt':
        edge |= np.abs(m - 200) < 1e-9
        filt &= m > 200
    guess = np.percentile(m[~np.isnan(m)], 90) / np.percentile(s[~np.isnan(s)], 90)
    if c['method'] != 'single_opt' and abs(guess - 1) <= 2e-6:
        # already close enough before the first iteration: documented by the tests
        ctx.label('initial guess is 1')
        ctx.close('unscaled', [f], [guess], rtol=1e-3 if abs(guess - 1) > 5e-7 else 1e-9)
        return
    if (edge & (m > 0)).any() or not filt.any():
        ctx.label('edge')
        return
    ctx.nontrivial()
    ls = (m[filt] * s[filt]).sum() / (s[filt] ** 2).sum()
    if c['method'] != 'single_opt':
        # fixed point: least squares over the points it classifies as clear
        ctx.close('factor is the least-squares scale over clear points', [f], [ls], rtol=5e-4)
    else:
        def rmse(fac):
            with np.errstate(all='ignore'):
                k = m / (fac * s)
            k = (k >= 0.8) & (k <= 1.2)
            return np.sqrt(((fac * s[k] - m[k]) ** 2).mean()) if k.any() else np.inf
        if not any(np.abs(m / (guess * s) - e).min() < 1e-9 for e in (0.8, 1.2)):
            ctx.require(rmse(f) <= rmse(guess) * (1 + 1e-6) + 1e-9,
                        f'optimised factor {f} has a larger misfit ({rmse(f)}) than the '
                        f'percentile guess {guess} ({rmse(guess)})')
    if c['noise'] == 0 and c['cloud'] == 0 and c['low'] == 1.0:
        ctx.close('exact scale recovered', [f], [c['scale']], rtol=5e-4)
    # the dimension of the modelled series is irrelevant
    out2 = ctx.call('scaled model', normalization.irradiance_rescale, meas, sim * 2.0, **kw)
    if c['noise'] == 0 and c['cloud'] == 0 and c['low'] == 1.0:
        ctx.close('result does not depend on the scale of the model', out2.to_numpy(),
                  out.to_numpy(), rtol=2e-3, atol=1e-6)


@st.composite
def conv_cases(draw):
    return dict(max_iterations=draw(st.integers(0, 6)),
                threshold=draw(st.sampled_from([1e-6, 1e-4, 0.01, 0.3, 3.0, 10.0])),
                unit=draw(st.sampled_from([1.0, 1.0, 30.0, 1000.0])),
                cloud=draw(st.sampled_from([0.0, 0.3, 0.6])),
                scale=draw(st.sampled_from([0.5, 0.9, 1.7])), seed=draw(gen.seed32),
                method=draw(st.sampled_from(['single', 'Iterative', '', 'none'])))


def check_conv(c, ctx):
    spec = dict(n=96, seed=c['seed'], peak=1000.0, scale=c['scale'], cloud=c.get('cloud', 0.0), noise=0.02,
                nan=0, tz=None)
    meas, sim = build(spec)
    sim = sim / c.get('unit', 1.0)
    ctx.nontrivial()
    ctx.raises('unknown method', ValueError, normalization.irradiance_rescale, meas, sim,
               method=c['method'])
    st_, out = ctx.outcome(normalization.irradiance_rescale, meas, sim,
                           max_iterations=c['max_iterations'],
                           convergence_threshold=c['threshold'])
    guess = np.percentile(meas, 90) / np.percentile(sim, 90)
    if c['max_iterations'] == 0 and abs(abs(guess - 1) - c['threshold']) > 1e-9:
        # a starting guess within the threshold of 1 counts as converged (pinned by the tests)
        ctx.require((st_ == 'ok') == (abs(guess - 1) <= c['threshold']),
                    f'no iteration allowed, initial guess {guess}: {st_}')
    e = emulate(meas.to_numpy(), sim.to_numpy(), 'iterative', c['threshold'], c['max_iterations'])
    x = emulate(meas.to_numpy(), sim.to_numpy(), 'iterative', c['threshold'], c['max_iterations'], exact=True)
    # whichever way the single fits are solved
    if e is not None and x is not None and (e[1] <= c['max_iterations']) == (x[1] <= c['max_iterations']):
        ctx.label(f'{e[1]} iterations')
        ctx.require((st_ == 'ok') == (e[1] <= c['max_iterations']),
                    f"{'converged' if st_ == 'ok' else 'did not converge'} with {c['max_iterations']} iterations allowed, "
                    f"the documented procedure {'needs ' + str(e[1]) if e[1] <= c['max_iterations'] else 'needs more'}")
        if st_ == 'ok':
            ctx.close('factor', out.to_numpy(), e[0] * sim.to_numpy(), rtol=5e-4, atol=1e-9)
    if c['threshold'] >= 10 and c.get('unit', 1.0) == 1.0:
        ctx.require(st_ == 'ok', f'loose threshold must converge at once, got {out!r}')
    if st_ == 'err':
        ctx.require(isinstance(out, normalization.ConvergenceError), f'raised {out!r}')


FACETS = [
    Facet('fixed_point', cases, check, 240, 3000, 'a clear-point set exists and has no edge point'),
    Facet('convergence', conv_cases, check_conv, 240, 2400, 'all cases'),
]
