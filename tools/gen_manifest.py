#!/opt/venv/bin/python
"""writes MANIFEST.json from properties.jsonl and the INFO of every check module"""
import os, sys, json, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + '/checks', '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import importlib
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{H}/checks/{i.lower()}.py'):
        m = importlib.import_module(i.lower())
        I = m.INFO
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python check.py {i} --tier quick', thorough_cmd=f'/opt/venv/bin/python check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique=I.get('technique', 'symbolic execution of the real Python code over symbolic tensors; SMT (z3) decides each assertion; counterexamples replayed'),
                           level=I.get('level', 'model_checking'), level_note='Within the bounds: ' + I['bounds'] + '. Outside: ' + I['outside'] + '. Assumes: ' + '; '.join(I['assumptions'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import torch, numpy, scipy"', checks=checks, not_applicable=na,
               notes='Checks import e2cnn from /repo\'s working tree and execute it symbolically; nothing is compiled. No hooks in /repo.'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
