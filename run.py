"""Run one check:  run.py C01 [--thorough] [--replay FILE] [--kind=NAME] [-v]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1',
        'PYTHONPYCACHEPREFIX': '/nonexistent/vf-pycache', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8'}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    env = dict(os.environ)
    env.update(WANT)
    env.pop('PYTHONPATH', None)
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(py, [py, '-W', 'ignore::SyntaxWarning', os.path.join(HERE, 'run.py')] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vf import core                                     # noqa: E402
sys.path.insert(0, core.REPO)

if __name__ == '__main__':
    prop = sys.argv[1]
    import importlib
    if prop == '--selftest':
        from vf import env, selftest
        sys.exit(selftest.main())
    from vf import env                                  # noqa: F401  patches, then imports the library
    mod = importlib.import_module('vf.checks.' + prop.lower())
    sys.exit(core.main(mod, sys.argv[2:]))
