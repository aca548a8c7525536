#!/usr/bin/env python3
"""development helper: make seeded/<id> from an edit, then confirm it in a scratch copy.
seed.py make ID PROP FILE OLD NEW NEEDS BREAKS DEMO.py   |  seed.py confirm ID...   (tests + demo both ways)"""
import sys, os, shutil, subprocess, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d


def make(ident, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new)]"""
    d = copy()
    try:
        for f, old, new in edits:
            p = f'{d}/repo/{f}'
            s = open(p).read()
            assert s.count(old) >= 1, (f, old)
            open(p, 'w').write(s.replace(old, new, 1))
        diff = subprocess.check_output(['git', 'diff', '--', 'e2cnn'], cwd=d + '/repo', text=True)
        o = f'{V}/seeded/{ident}'
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.py', 'w').write(demo)
        open(o + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves as documented\ncd /repo 2>/dev/null\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore exec /opt/venv/bin/python "$(dirname "$(realpath "${BASH_SOURCE[0]}")")/demo.py"\n'.replace('cd /repo 2>/dev/null\n', ''))
        os.chmod(o + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
        for patched in (True, False):
            if not patched:
                subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=d + '/repo')
            r = subprocess.run(['bash', o + '/demo.sh'], cwd=d + '/repo', capture_output=True, text=True)
            print(ident, 'patched' if patched else 'clean', 'demo exit', r.returncode, (r.stdout + r.stderr).strip()[-150:].replace('\n', ' | '))
            assert (r.returncode != 0) == patched
    finally:
        shutil.rmtree(d)


def tests(ident):
    d = copy()
    try:
        subprocess.check_call(['git', 'apply', f'{V}/seeded/{ident}/patch.diff'], cwd=d + '/repo')
        s = open('/opt/vp/test.sh').read()
        s = s.replace('/repo', d + '/repo').replace('PYTHONPATH=/opt/vp ', f'PYTHONPATH={d}/repo:/opt/vp ').replace('REPORT=/opt/vp/reports', f'REPORT={d}/reports')
        open(d + '/test.sh', 'w').write(s)
        subprocess.run(['bash', d + '/test.sh', d + '/out.json'], capture_output=True)
        o = json.load(open(d + '/out.json'))
        b = json.load(open('/opt/vp/BASELINE.json'))
        lost = sorted(set(b['stable']) - set(o['passed']))
        print(ident, 'stable tests lost:', len(lost), lost[:4], flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'confirm':
        for i in sys.argv[2:]:
            tests(i)
