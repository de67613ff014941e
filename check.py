#!/opt/venv/bin/python
"""Entry point of every check:  check.py <PROPERTY> [--tier quick|thorough]
                                check.py --replay <file>

Re-executes itself with a fixed hash seed so that a run is a function of
VERIF_SEED and of /repo's working tree only.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WANT = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONPYCACHEPREFIX': '/nonexistent-pycache', 'MPLBACKEND': 'Agg',
        'PYTHONNOUSERSITE': '1'}

if __name__ == '__main__':
    if any(os.environ.get(k) != v for k, v in WANT.items()):
        env = dict(os.environ)
        env.update(WANT)
        env.pop('PYTHONPATH', None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.path.insert(0, HERE)
    sys.path.append(VT)
    from pbt import core
    sys.exit(core.main(sys.argv[1:]))
