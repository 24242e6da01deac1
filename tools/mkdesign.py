"""writes /verif/DESIGN.md: the hand-written parts (tools/design_head.md, tools/design_tail.md, HOW below) and, per property, the
functions / bounds / assumptions declared by the harness and the figures of the last quick run (evidence/)"""
import importlib, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.dont_write_bytecode = True
exec(open(f'{H}/tools/design_how.py').read())
from harness import history
seeds = {}
for s in sorted(os.listdir(f'{H}/seeded')):
    m = json.load(open(f'{H}/seeded/{s}/meta.json'))
    seeds.setdefault(m['property'], []).append((s, m))
out = [open(f'{H}/tools/design_head.md').read()]
for l in open(f'{H}/properties.jsonl'):
    p = json.loads(l); i = p['id']
    mod = importlib.import_module(f'harness.{i.lower()}')
    out.append(f"### {i} {p['title']}\n")
    out.append(f"- *Decided how.* {HOW[i]}")
    out.append(f"- *Functions executed symbolically.* {', '.join('`' + f + '`' if ' ' not in f else f for f in mod.FUNCTIONS)}")
    out.append(f"- *Bounds.* {mod.BOUNDS}.")
    if history.scenarios(i, 'quick'):
        out.append(f"- *Histories.* {len(history.scenarios(i, 'quick'))} scenarios: {history.BOUNDS}.")
    out.append(f"- *Outside.* {mod.OUTSIDE}.")
    if mod.ASSUMPTIONS:
        out.append(f"- *Assumed.* {'; '.join(mod.ASSUMPTIONS)}.")
    out.append(f"- *Beyond the tests.* {p['why_tests_cant']}")
    f = f'{H}/evidence/{i}.json'
    if os.path.exists(f):
        e = json.load(open(f)); c = e['coverage']
        if e['tier'] == 'quick':
            out.append(f"- *Cost (quick).* {len(c['scenarios'])} scenarios, about {c['states']} paths, {c['assertions_checked']} assertions, {c['assertion_queries'] + c['branch_queries']} queries, "
                       f"{e['wall_s']:.0f} s wall on 8 cores.")
    out.append('')
tail = open(f'{H}/tools/design_tail.md').read()
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
res = {}
if os.path.exists(f'{H}/tools/seed_results.txt'):
    for ln in open(f'{H}/tools/seed_results.txt'):
        w = ln.split()
        if len(w) >= 3:
            res.setdefault(w[0], {})[w[1]] = w[2]
for i in sorted(seeds):
    for s, m in seeds[i]:
        r = res.get(s, {})
        hit = [k for k, v in r.items() if v == 'rc=1']
        rows.append(f"| {s} | {i} | {m['needs']} | {', '.join(sorted(hit)) or ('missed' if r else 'not run')} |")
out.append(tail.replace('@@SEEDS@@', '\n'.join(rows)))
open(f'{H}/DESIGN.md', 'w').write('\n'.join(out))
print('DESIGN.md written')
