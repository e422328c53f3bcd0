"""C28: no function modifies what the caller passed in."""
from hypothesis import strategies as st

from ..core import Facet
from ..refs import calls

RULE = ('every public function and the analysis objects on generated data (named and unnamed, with and without '
        'index frequency, integer, single and double precision, with and without missing values); all arguments '
        'are compared bit by bit with snapshots')
ASSUMPTIONS = ['xgboost and CODS cases are few because of their cost']


def pool(names):
    return st.fixed_dictionaries(dict(call=st.sampled_from(names), variant=st.integers(0, 11), world=calls.worlds()))


def check(c, ctx):
    fn, args, kwargs = calls.recipes(c['call'], c['variant'], c['world'])
    before = calls.frozen([args, kwargs])
    status, out = calls.execute(fn, args, kwargs)
    ctx.label(c['call'] if status == 'ok' else f"{c['call']} raises")
    ctx.nontrivial(status == 'ok')
    r = calls.difference(before, calls.frozen([args, kwargs]))
    ctx.require(r is None, f"{c['call']} modified its arguments: {r}")


FACETS = [
    Facet('functions', lambda: pool(calls.FAST), check, 600, 12000, 'the call succeeds'),
    Facet('plots', lambda: pool(calls.PLOTS), check, 80, 1200, 'the call succeeds'),
    Facet('analysis', lambda: pool(calls.CHAIN), check, 80, 1500, 'the call succeeds'),
    Facet('cods', lambda: pool(['soiling_cods']), check, 6, 60, 'the call succeeds'),
    Facet('slow', lambda: pool(calls.SLOW), check, 24, 300, 'the call succeeds'),
]
