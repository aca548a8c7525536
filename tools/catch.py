#!/usr/bin/env python3
"""development helper: run the check of each seeded bug in a scratch copy. catch.py [ID...]"""
import sys, os, shutil, subprocess, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    d = tempfile.mkdtemp(prefix='catch')
    try:
        shutil.copytree('/repo/e2cnn', d + '/e2cnn', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory', d, f'{V}/seeded/{i}/patch.diff'], cwd='/')
        pr = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        r = subprocess.run(['/opt/venv/bin/python', V + '/check.py', pr], capture_output=True, text=True, env=dict(os.environ, VX_REPO=d, VX_EVIDENCE=d + '/ev'))
        out = r.stdout.strip().split('\n')
        print(i, pr, 'exit', r.returncode, '|', out[1][:140] if len(out) > 1 else '', '|', out[-1][-60:], flush=True)
    finally:
        shutil.rmtree(d)
