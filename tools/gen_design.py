#!/opt/venv/bin/python
"""writes DESIGN.md (per property sections from the INFO of the checks) and known_findings.json"""
import os, sys, json, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + '/checks', '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
T = json.load(open(H + '/tools/design.json'))
out = [open(H + '/tools/design_head.md').read().rstrip(), '']
out.append('## The properties, one by one\n')
for p in props:
    I = importlib.import_module(p['id'].lower()).INFO
    D = T['properties'][p['id']]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*What is decided, and against what.* {D['how']}\n")
    out.append(f"*Code executed symbolically.* {'; '.join(I['functions'])}.\n")
    out.append(f"*Bounds.* {I['bounds']}.\n")
    out.append(f"*Outside.* {I['outside']}. *Assumed.* {'; '.join(I['assumptions'])}.\n")
    out.append(f"*Cost.* {D['cost']}. *Why the tests cannot settle it.* {p['why_tests_cant']}.\n")
out.append(open(H + '/tools/design_tail.md').read().rstrip())
out.append('\n## Genuine defects found and repaired\n')
out.append('Each was reported by a check on the tree as it was, reproduced on the real code and repaired by one `fix:` commit; the checks report it again when the commit is reverted.\n')
for f in T['fixed']:
    out.append(f"- **{f[0]}** `{f[1]}` {f[2]}")
out.append('\n## Which checks catch which planted changes\n')
out.append('Every change in `seeded/` keeps all stable tests passing and breaks its demonstration. "caught" = the quick check of its property exits 1.\n')
out.append('| planted change | property | needs | result |\n|---|---|---|---|')
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{i}/meta.json'))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {T['caught'].get(i, 'not run')} |")
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
json.dump(dict(findings=T['findings'], fixed=[f'fixed: property={a} {b} {c}' for a, b, c in T['fixed']]), open(H + '/known_findings.json', 'w'), indent=1)
print('ok')
