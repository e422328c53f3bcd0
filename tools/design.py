"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the property source and the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
from vlib import deps
deps.ensure()
import run_check
run_check.load_target()
import props_src
costs = json.load(open(V + '/tools/costs.json')) if os.path.exists(V + '/tools/costs.json') else {}
out = [open(V + '/tools/design_head.md').read(), '\n## The properties, one by one\n']
for p in props_src.P:
    m = importlib.import_module('vlib.props.' + p['id'].lower())
    c = costs.get(p['id'], {})
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"* **Generated:** {p['text']}. {m.RULE[0].upper() + m.RULE[1:]}.")
    out.append(f"* **Decided by:** {p['technique']}. {p['note']}")
    out.append('* **Facets (cases quick/thorough; what counts as non-trivial):** ' + '; '.join(
        f'{f.name} {f.quick}/{f.thorough} ({f.rule})' for f in m.FACETS) + '.')
    a = list(getattr(m, 'ASSUMPTIONS', []))
    if a:
        out.append('* **Bounds and assumptions:** ' + '; '.join(a) + '.')
    out.append(f"* **Why beyond the tests:** {p['why']}")
    if c:
        out.append(f"* **Cost (8 cores, quick):** about {c['wall_s']:.0f} s for {c['evaluations']} cases, "
                   f"{c['nontrivial']} distinct non-trivial.")
    out.append('')
tail = open(V + '/tools/design_tail.md').read()
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
mut = json.load(open(V + '/tools/mutation.json'))
mrows = [f'| {k} | {a} | {b} | {c} |' for k, (a, b, c) in mut.items()]
out.append(tail.replace('@SEEDS@', '\n'.join(rows)).replace('@MUT@', '\n'.join(mrows)))
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
