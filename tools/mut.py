#!/usr/bin/env python3
"""development helper: try one textual mutation in a scratch copy. mut.py FILE OLD NEW PROP..."""
import sys, os, shutil, subprocess, tempfile
f, old, new, props = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/e2cnn', d + '/e2cnn', ignore=shutil.ignore_patterns('__pycache__'))
    p = os.path.join(d, 'e2cnn', f)
    s = open(p).read()
    old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
    assert old in s, 'pattern not found'
    open(p, 'w').write(s.replace(old, new, 1))
    for pr in props:
        r = subprocess.run(['/opt/venv/bin/python', '/verif/check.py', pr, '--jobs', '8'], capture_output=True, text=True,
                           env=dict(os.environ, VX_REPO=d, VX_EVIDENCE=d + '/ev'))
        out = r.stdout.strip().split('\n')
        print(pr, 'exit', r.returncode, '|', out[1][:150] if len(out) > 1 else '', '|', out[-1][:200])
        if r.returncode not in (0, 1): print(r.stderr[-2000:])
finally:
    shutil.rmtree(d)
