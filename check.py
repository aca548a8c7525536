#!/opt/venv/bin/python
"""Entry point: check.py PROPERTY [--tier quick|thorough] [--case SUBSTR] [--replay FILE]"""
import os
import sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ['PYTHONHASHSEED'] = '0'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.path.insert(0, os.environ.get('VX_REPO', '/repo'))   # override used only when developing the checks
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings('ignore')

if __name__ == '__main__':
    if not sys.flags.hash_randomization == 0 and os.environ.get('_VX_RE') != '1':
        os.environ['_VX_RE'] = '1'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from symx import runner
    try:
        code = runner.main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2          # an error of the machinery is never a verdict
    sys.exit(code)
