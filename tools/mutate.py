"""Development helper: first-order mutants of a source file, judged by the checks, then by the test suite.

usage: mutate.py FILE OUT.jsonl [--funcs a,b] [--limit N] [--seed S] [--scale X]
Works on scratch copies of /repo under /tmp; survivors of the checks that also pass the stable tests are the
interesting ones (equivalent, or a gap).
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'normalization.py': ['C01', 'C02', 'C03', 'C05'],
    'aggregation.py': ['C04'],
    'degradation.py': ['C06', 'C07', 'C08', 'C09'],
    'bootstrap.py': ['C07', 'C24'],
    'filtering.py': ['C10', 'C11', 'C12', 'C13', 'C14', 'C15'],
    'utilities.py': ['C16'],
    'clearsky_temperature.py': ['C17'],
    'availability.py': ['C18', 'C19', 'C20'],
    'soiling.py': ['C21', 'C22', 'C23', 'C24'],
    'analysis_chains.py': ['C27', 'C25', 'C26', 'C30'],
    'plotting.py': ['C30'],
}
FUNC = {
    'energy_from_power': ['C01'], '_aggregate': ['C01', 'C03'], '_t_step_nanoseconds': ['C01', 'C03'],
    '_interpolate_series': ['C02', 'C01'], 'interpolate': ['C02'], 'irradiance_rescale': ['C05'],
    '_delta_index': ['C03'], 'check_series_frequency': ['C03'],
    'normalize_with_expected_power': ['C03'], 'pvwatts_dc_power': ['C03'], 'normalize_with_pvwatts': ['C03'],
    'degradation_ols': ['C08'], 'degradation_classical_decomposition': ['C09'],
    'degradation_year_on_year': ['C06', 'C07'], '_mk_test': ['C09'], '_degradation_CI': ['C08', 'C09'],
    'normalized_filter': ['C10'], 'poa_filter': ['C10'], 'tcell_filter': ['C10'], 'insolation_filter': ['C10'],
    'quantile_clip_filter': ['C10'], 'clearsky_filter': ['C15'], 'csi_filter': ['C15'],
    'pvlib_clearsky_filter': ['C15'], 'clip_filter': ['C10', 'C12', 'C13'], 'logic_clip_filter': ['C12'],
    'xgboost_clip_filter': ['C13'], 'hour_angle_filter': ['C14'], 'two_way_window_filter': ['C11'],
    'hampel_filter': ['C11'], 'directional_tukey_filter': ['C11'],
    '_calc_loss_subsystem': ['C18'], '_calc_error_distributions': ['C19'], '_calc_loss_system': ['C19'],
    '_combine_losses': ['C20'], '_calc_daily_df': ['C21'], '_calc_result_df': ['C21'], '_calc_monte': ['C22'],
    'annual_soiling_ratios': ['C23'], 'monthly_soiling_rates': ['C23'], '_calculate_soiling_rates': ['C23'],
    'soiling_srr': ['C22', 'C21'],
}
SKIPNAMES = {'warn', 'print', 'set_xlabel', 'set_ylabel', 'autofmt_xdate', 'format'}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.FloorDiv: ast.Div}
ATTR = {'ffill': 'bfill', 'bfill': 'ffill', 'min': 'max', 'max': 'min', 'median': 'mean', 'mean': 'median',
        'first': 'last', 'last': 'first', 'any': 'all', 'all': 'any', 'isnull': 'notnull', 'notnull': 'isnull',
        'nanmedian': 'nanmean', 'cumsum': 'cumprod', 'floor': 'ceil', 'ceil': 'floor', 'head': 'tail', 'loc': 'loc'}
STR = {'left': 'right', 'right': 'left', 'start_day': 'start', 'inner': 'outer', 'outer': 'inner',
       'right_labeled': 'instantaneous', 'first': 'last', 'last': 'first', 'linear': 'nearest'}


def sites(tree):
    """Yield (path description, function(tree copy) -> None) for each mutant."""
    out = []

    def visit(node, func, quiet):
        for field, val in ast.iter_fields(node):
            items = val if isinstance(val, list) else [val]
            for i, ch in enumerate(items):
                if not isinstance(ch, ast.AST):
                    continue
                f, q = func, quiet
                if isinstance(ch, (ast.FunctionDef,)):
                    f = ch.name
                if isinstance(ch, ast.Raise):
                    q = True
                if isinstance(ch, ast.Call):
                    nm = ch.func.attr if isinstance(ch.func, ast.Attribute) else getattr(ch.func, 'id', '')
                    if nm in SKIPNAMES:
                        q = True
                if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                    continue
                if isinstance(ch, ast.JoinedStr):
                    continue
                if func is not None and not q:
                    out.extend((func, ch, k, node, field, i if isinstance(val, list) else None)
                               for k in kinds(ch))
                visit(ch, f, q)
    visit(tree, None, False)
    return out


def kinds(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
        k = ['cmp']
        if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            k.append('cmpneg')
        return k
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        return ['bin']
    if isinstance(n, ast.BoolOp):
        return ['bool', 'drop1', 'drop2']
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
        return ['unary']
    if isinstance(n, ast.Constant):
        if n.value is True or n.value is False:
            return ['flip']
        if isinstance(n.value, (int, float)):
            return ['num+', 'num-']
        if isinstance(n.value, str) and n.value in STR:
            return ['str']
    if isinstance(n, ast.Attribute) and n.attr in ATTR and ATTR[n.attr] != n.attr:
        return ['attr']
    if isinstance(n, ast.If):
        return ['ifnot']
    if isinstance(n, (ast.Assign, ast.AugAssign)):
        return ['del']
    if isinstance(n, ast.Call) and n.keywords:
        return [f'kw{i}' for i in range(len(n.keywords)) if n.keywords[i].arg]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
            'copy', 'dropna', 'fillna', 'sort_index', 'abs', 'ffill', 'bfill', 'shift', 'astype', 'reindex'):
        return ['call']
    return []


def mutate(src, number):
    """Apply mutant `number`; returns new source and a description, or None."""
    tree = ast.parse(src)
    func, n, k, parent, field, i = sites(tree)[number]
    before = ast.unparse(n).split('\n')[0][:90]
    line = n.lineno

    def replace(new):
        if i is None:
            setattr(parent, field, new)
        else:
            getattr(parent, field)[i] = new
    m = n
    if k == 'cmp':
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif k == 'cmpneg':
        n.ops[0] = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()
    elif k == 'bin':
        n.op = BIN[type(n.op)]()
    elif k == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k in ('drop1', 'drop2'):
        m = n.values[int(k[-1]) - 1]
        replace(m)
    elif k == 'unary':
        m = n.operand
        replace(m)
    elif k == 'flip':
        n.value = not n.value
    elif k in ('num+', 'num-'):
        d = 1 if k == 'num+' else -1
        n.value = n.value + d if isinstance(n.value, int) else n.value * (1 + 0.1 * d) + (0.1 * d if n.value == 0 else 0)
    elif k == 'str':
        n.value = STR[n.value]
    elif k == 'attr':
        n.attr = ATTR[n.attr]
    elif k == 'ifnot':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == 'del':
        m = ast.Pass()
        replace(m)
    elif k.startswith('kw'):
        del n.keywords[int(k[2:])]
    elif k == 'call':
        m = n.func.value
        replace(m)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), dict(func=func, line=line, kind=k, before=before,
                                   after=ast.unparse(m).split('\n')[0][:90] if not isinstance(m, ast.Pass) else 'pass')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('out')
    ap.add_argument('--funcs')
    ap.add_argument('--limit', type=int, default=10**9)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--props')
    ap.add_argument('--minutes', type=float, default=1e9)
    a = ap.parse_args()
    src = open(f'/repo/rdtools/{a.file}').read()
    ss = sites(ast.parse(src))
    nums = list(range(len(ss)))
    if a.funcs:
        keep = set(a.funcs.split(','))
        nums = [i for i in nums if ss[i][0] in keep]
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(x)['n'] for x in open(a.out)}
    random.Random(a.seed).shuffle(nums)
    print(len(nums), 'mutants')
    w = f'/tmp/mt/{a.file[:-3]}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    t0 = time.time()
    for i in nums[:a.limit]:
        if i in done:
            continue
        if time.time() - t0 > a.minutes * 60:
            break
        try:
            new, d = mutate(src, i)
            ast.parse(new)
        except Exception as e:
            print('skip', i, e)
            continue
        open(f'{w}/repo/rdtools/{a.file}', 'w').write(new)
        props = a.props.split(',') if a.props else FUNC.get(d['func'], MAP[a.file])
        d.update(n=i, killed=None)
        t = time.time()
        imp = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', 'import rdtools, rdtools.soiling'],
                             cwd=w + '/repo', capture_output=True)
        if imp.returncode:
            d['killed'] = 'import'
        else:
            for p in props:
                r = subprocess.run(['bash', 'check.sh', p], cwd=V, capture_output=True, text=True, env=dict(
                    os.environ, VERIF_REPO=w + '/repo', VERIF_SHRINK_SECONDS='0', VERIF_EVIDENCE='/tmp/mt/ev'))
                if r.returncode != 0:
                    d['killed'] = f'{p}:{r.returncode}'
                    break
        d['t'] = round(time.time() - t, 1)
        with open(a.out, 'a') as f:
            f.write(json.dumps(d) + '\n')
    shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    main()
