"""Runs the check of each seeded bug's property against a scratch copy of /repo with the bug applied.
   python3 tools/seeded.py [ID...] [--all]     (--all: every check, to see which others notice)"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
dirs = [os.path.join(HERE, 'seeded', i) for i in ids] or sorted(glob.glob(os.path.join(HERE, 'seeded', '*')))
allp = ['C%02d' % i for i in range(1, 100) if os.path.exists(os.path.join(HERE, 'vf/checks/c%02d.py' % i))]


def one(d):
    t = tempfile.mkdtemp(prefix='vfseed')
    try:
        repo = os.path.join(t, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        out = []
        for p in (allp if '--all' in sys.argv else [prop]):
            env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(t, 'ev'), VERIF_JOBS='4', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            r = subprocess.run([sys.executable, 'run.py', p], cwd=HERE, env=env, capture_output=True, text=True)
            caught = r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout
            if caught or p == prop:
                what = [l.strip() for l in r.stdout.splitlines() if l.startswith('  ')][:1]
                out.append('%s%s %s' % (p, '' if caught else ' MISSED rc=%d' % r.returncode, what[0][:150] if what else r.stdout[-300:] + r.stderr[-300:]))
        return os.path.basename(d), out
    finally:
        shutil.rmtree(t, True)


with ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(one, dirs):
        for l in o:
            print(i, l, flush=True)
