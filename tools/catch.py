"""Runs the check of each planted bug against a scratch copy of /repo with the bug applied:
   python3 tools/catch.py [id ...]      (uses VERIF_REPO; /repo itself is not touched)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(H, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='catch_')
    try:
        r = w + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        v = w + '/verif'
        shutil.copytree(H, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replay'))
        x = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True)
        if x.returncode:
            return i, prop, 'PATCH FAILS'
        x = subprocess.run(['./check', prop, 'quick'], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1'), capture_output=True, text=True)
        o = [l for l in x.stdout.splitlines() if 'VIOLATION' in l or 'failing input' in l or 'refuted:' in l]
        return i, prop, 'exit %d %s' % (x.returncode, ' | '.join(o)[:400] if o else x.stdout[-300:] + x.stderr[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(H, 'seeded')))
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
