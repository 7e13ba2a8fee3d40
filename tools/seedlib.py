"""Development aid: builds and confirms planted bugs under seeded/ (no check reads them).
python3 tools/seedlib.py ID...   (definitions in tools/seeds_def.py)"""
import json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
PY = '/opt/venv/bin/python'
DEMO_HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import numpy as np
import math


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.all(np.abs(a - b) <= tol * (1 + np.abs(b))), (a, b)


'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)


def build(sid, prop, file, edits, needs, breaks, demo):
    wt = f'/tmp/seedwt_{sid}'
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, symlinks=True)
    p = os.path.join(wt, file)
    s = open(p).read()
    for a, b in edits:
        assert s.count(a) == 1, (sid, s.count(a), a)
        s = s.replace(a, b)
    open(p, 'w').write(s)
    diff = sh('git diff', wt).stdout
    d = os.path.join(HERE, 'seeded', sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(DEMO_HEAD + demo.strip() + "\nprint('ok')\n")
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# Exit 0 when the property holds on this input, nonzero otherwise.\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = sh(f'bash {d}/demo.sh', '/repo')
    b = sh(f'bash {d}/demo.sh', wt)
    ok = a.returncode == 0 and b.returncode != 0
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    t = sh("ls tests/test_*.py | xargs -P 8 -I{} bash -c '/opt/venv/bin/python -m pytest {} --rootdir=. -q -p no:cacheprovider "
           "--timeout=600 -rA 2>&1'", wt, dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    passed = set(l.split()[1] for l in t.stdout.splitlines() if l.startswith('PASSED'))
    norm = lambda x: x.split(' - ')[0].replace('/', '.').replace('.py::', '.').replace('::', '.')
    failed = sorted(set(map(norm, base)) - set(map(norm, passed)))
    print(sid, 'demo', a.returncode, b.returncode, 'tests lost', len(failed), failed[:4], '' if ok and not failed else 'BAD',
          flush=True)
    if not ok:
        print(a.stdout[-800:], a.stderr[-800:], '---', b.stdout[-500:], b.stderr[-300:])
    shutil.rmtree(wt, ignore_errors=True)
    return ok and not failed


if __name__ == '__main__':
    from seeds_def import SEEDS
    for sid in sys.argv[1:] or SEEDS:
        build(sid, *SEEDS[sid])
