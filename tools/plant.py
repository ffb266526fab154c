"""Plants a bug:  python3 tools/plant.py SPEC.py   (SPEC defines BUGS = [dict(id, prop, file, old, new, demo, needs, breaks)])
Confirms in a scratch copy of /repo: patch applies, demo passes before and fails after, the stable scripts pass.
Writes /verif/seeded/<id>/ when confirmed."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
STABLE = ['Pipedream-WQ_(Fig.10) Simple_network_analytical .py', 'Pipedream-WQ_(Fig.11) Simple_network_analytical .py',
          'Pipedream-WQ_(Fig.13) Simple_network_analytical .py', 'simple_test_open_channel.py']
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = open(os.path.join(H, 'tools', 'demo_prelude.py')).read()
SH = '#!/bin/bash\n# run with cwd = the repository; needs only the files beside it\nexport NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def one(b, repo='/repo', stable=True):
    w = tempfile.mkdtemp(prefix='plant_')
    try:
        r = os.path.join(w, 'repo')
        subprocess.run(['git', 'clone', '-q', repo, r], check=True)
        d = os.path.join(w, 'seed')
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(PRELUDE + '\n' + b['demo'])
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        x = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        if x.returncode:
            return b['id'], 'demo fails on clean tree: ' + (x.stdout + x.stderr)[-900:]
        eds = b.get('edits') or [(b['file'], b['old'], b['new'])]
        for f, o, n in eds:
            p = os.path.join(r, 'pipedream_solver', f)
            s = open(p).read()
            if s.count(o) != 1:
                return b['id'], 'old text occurs %d times' % s.count(o)
            open(p, 'w').write(s.replace(o, n))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        x = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        if x.returncode == 0:
            return b['id'], 'demo does not fail with the patch'
        msg = (x.stdout + x.stderr).strip().splitlines()[-1:]
        if stable:
            env = dict(os.environ, PYTHONPATH=r, MPLBACKEND='Agg', NUMBA_CACHE_DIR=w + '/nc', MPLCONFIGDIR=w + '/mpl',
                       OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
            ps = [(s, subprocess.Popen([PY, s], cwd=r + '/test', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL))
                  for s in STABLE]
            bad = []
            for s, p in ps:
                e = p.communicate()[1]
                if p.returncode:
                    bad.append(s + ': ' + e.decode()[-300:])
            if bad:
                return b['id'], 'stable tests fail: ' + '; '.join(bad)
        open(d + '/patch.diff', 'w').write(diff)
        out = os.path.join(H, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return b['id'], 'ok ' + ' '.join(msg)[:150]
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = sys.argv[2].split(',') if len(sys.argv) > 2 else None
    with cf.ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(one, [b for b in ns['BUGS'] if not sel or b['id'] in sel]):
            print(i, '->', m, flush=True)
