"""plant.py SPEC.py [ID ...]: tries planted changes in scratch copies of /repo.

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs,
breaks)].  A change is kept in /verif/seeded/<id> if it applies, the demo
passes without and fails with it, and the tests pass with it; whether the
check of its property catches it is printed (and those of --also).
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
HEAD = '''#!/bin/bash
# exit 0 if the behaviour holds
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD/src"
scratch="$(mktemp -d)"
export MPLCONFIGDIR="$scratch" SCRATCH="$scratch"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
rc=$?
rm -rf "$scratch"
exit $rc
'''
PRE = '''import os
import sys
import warnings

import numpy as np

import kcorrect
import kcorrect.fitter
import kcorrect.kcorrect
import kcorrect.response
import kcorrect.template
import kcorrect.utils

warnings.simplefilter('ignore')
np.seterr(all='ignore')
SCRATCH = os.environ['SCRATCH']


def expect(ok, *what):
    if not ok:
        print('FAILED:', *what)
        sys.exit(1)


'''


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout + p.stderr


def one(b, extra=()):
    w = '/tmp/plant/' + b['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.dirname(w), exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    out = [b['id'] + ' (' + b['prop'] + ')']
    try:
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return out + ['EDIT does not fit {} times: {!r}'.format(s.count(old), old[:80])]
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.check_output(['git', 'diff'], cwd=w, text=True)
        d = '/tmp/plant/demo-' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(HEAD)
        open(d + '/demo.py', 'w').write(PRE + b['demo'].lstrip('\n'))
        os.chmod(d + '/demo.sh', 0o755)
        rc, o = sh(['bash', d + '/demo.sh'], '/repo', 300)
        if rc != 0:
            return out + ['DEMO fails on the unchanged tree: ' + o[-600:]]
        rc, o = sh(['bash', d + '/demo.sh'], w, 300)
        if rc == 0:
            return out + ['DEMO passes with the change']
        out.append('demo: ' + o.strip().split('\n')[-1][:150])
        rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], w, 600,
                   PYTHONPATH=w + '/src', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
        if rc != 0:
            return out + ['TESTS fail: ' + o[-700:]]
        s = os.path.join(VERIF, 'seeded', b['id'])
        os.makedirs(s, exist_ok=True)
        open(s + '/patch.diff', 'w').write(patch)
        shutil.copy(d + '/demo.sh', s)
        shutil.copy(d + '/demo.py', s)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(s + '/meta.json', 'w'), indent=1)
        for c in [b['prop']] + list(extra):
            rc, o = sh(['./run.sh', c], VERIF, 900, KCMON_REPO=w, KCMON_PROCS='4')
            lines = [x for x in o.split('\n') if x.startswith('  ') and ' case ' in x]
            out.append('{} {}: {}'.format(c, {0: 'MISSED', 1: 'caught', 2: 'INCONCLUSIVE'}.get(
                rc, 'rc %d' % rc), (lines[0] if lines else o.strip()[-400:])[:200]
                if rc else ''))
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    also = [a[2:] for a in sys.argv[2:] if re.match('--C[0-9]+$', a)]
    bugs = [b for b in ns['BUGS'] if not ids or b['id'] in ids]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: one(b, also), bugs):
            print('\n   '.join(r), flush=True)


if __name__ == '__main__':
    main()
