#!/usr/bin/env python3
"""Confirm planted bugs (seeded/<id>) in throw-away overlays of /repo.

    plant.py new SPEC.py ...   spec: PROP, SUBS, NEEDS, BREAKS, DEMO -> seeded/<id>
    plant.py check ID ...      run the checks of the property against seeded/<id>

The overlays (mount namespace of an own user namespace) cover /repo, the
virtualenv, the build state and /verif's outputs: nothing outside changes.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = '/verif'
SEEDED = VERIF + '/seeded'
JOBS = int(os.environ.get('PLANT_JOBS', '4'))

OVERLAY = r'''
set -e
mount -t tmpfs t "$SCRATCH"
for d in /repo /opt/vp/state /opt/venv; do
  k="$SCRATCH/$(echo $d | tr / _)"
  cp -a $d $k
  mount --bind $k $d
done
for d in /verif; do
  k="$SCRATCH/$(echo $d | tr / _)"
  mkdir -p "$k/u" "$k/w"
  mount -t overlay overlay -o lowerdir=$d,upperdir=$k/u,workdir=$k/w $d
done
cd /repo
'''


def overlay(script, timeout=1500):
    scratch = tempfile.mkdtemp(prefix='plant')
    try:
        p = subprocess.run(['unshare', '-Urm', 'bash', '-c', OVERLAY + script],
                           env=dict(os.environ, SCRATCH=scratch, VERIF_SEED='1', VERIF_TIER='quick'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


SUBST = r'''
import sys, json
for path, old, new in json.load(open(sys.argv[1])):
    s = open(path, encoding='utf-8').read()
    assert s.count(old) == 1, (path, s.count(old), old)
    open(path, 'w', encoding='utf-8').write(s.replace(old, new))
'''

DEMO_SH = '''#!/bin/bash
# cwd: /repo.  Exits 0 if the property holds for this input.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}"
export SCRATCH="$scratch"
/opt/venv/bin/python "$here/demo.py"
'''

STABLE = r'''
import json
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/o.json'))
def names(x):
    if isinstance(x, dict):
        for k in ('stable', 'passed', 'tests', 'pass'):
            if k in x: return set(x[k])
    return set(x)
missing = names(b) - names(t)
print('TESTS', 'FAIL' if missing else 'ok', sorted(missing)[:5])
'''


def new(path):
    ns = {}
    exec(compile(open(path, encoding='utf-8').read(), path, 'exec'), ns)
    pid = os.path.basename(path)[:-3]
    tmp = tempfile.mkdtemp(prefix='plnew')
    try:
        json.dump(ns['SUBS'], open(tmp + '/subs.json', 'w'))
        open(tmp + '/subst.py', 'w').write(SUBST)
        open(tmp + '/demo.py', 'w', encoding='utf-8').write(ns['DEMO'].lstrip('\n'))
        open(tmp + '/demo.sh', 'w').write(DEMO_SH)
        open(tmp + '/stable.py', 'w').write(STABLE)
        # overlays show the same /tmp, so the result is passed through it
        rc, out = overlay('python3 %s/subst.py %s/subs.json && git diff > %s/patch.diff' % (tmp, tmp, tmp))
        if rc:
            return pid, 'SUBST FAILED ' + out[-800:]
        rc0, out0 = overlay('bash %s/demo.sh' % tmp)
        if rc0:
            return pid, 'DEMO FAILS UNCHANGED ' + out0[-1500:]
        rc1, out1 = overlay('git apply %s/patch.diff && bash %s/demo.sh' % (tmp, tmp))
        if not rc1:
            return pid, 'DEMO PASSES PATCHED ' + out1[-800:]
        rc2, out2 = overlay(
            'git apply %s/patch.diff && bash /opt/vp/test.sh %s/o.json > %s/t.log 2>&1;'
            'sed -i "s#/tmp/o.json#%s/o.json#" %s/stable.py; python3 %s/stable.py' % ((tmp,) * 6))
        res = out2.strip().split('\n')[-1]
        if 'TESTS ok' not in res:
            return pid, 'TESTS BROKEN ' + res
        d = SEEDED + '/' + pid
        os.makedirs(d, exist_ok=True)
        for f in ('patch.diff', 'demo.sh', 'demo.py'):
            shutil.copy(tmp + '/' + f, d + '/' + f)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1)
        return pid, 'KEPT (demo: %s) | %s' % (out1.strip().split('\n')[-1][:100], check(pid)[1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, prop=None):
    d = SEEDED + '/' + pid
    prop = prop or json.load(open(d + '/meta.json'))['property']
    if not os.path.exists('%s/checks/%s.py' % (VERIF, prop.lower())):
        return pid, 'no check for %s' % prop
    # not in an overlay: inside of a user namespace, checks cannot become nobody
    tmp = tempfile.mkdtemp(prefix='plchk')
    os.chmod(tmp, 0o755)     # for nobody, too
    try:
        subprocess.check_call(['cp', '-a', '/repo', tmp + '/repo'])
        subprocess.check_call(['git', '-C', tmp + '/repo', 'apply', d + '/patch.diff'])
        p = subprocess.run(['/opt/venv/bin/python', 'run.py', prop], cwd=VERIF,
                           env=dict(os.environ, VERIF_REPO=tmp + '/repo', VERIF_SEED='1', VERIF_TIER='quick'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        rc, out = p.returncode, p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    v = [x for x in out.split('\n') if x.startswith('VIOLATION')]
    return pid, '%s %s rc=%d %s' % ('CAUGHT' if rc == 1 and v and 'property=' + prop in v[0] else 'MISSED',
                                    prop, rc, (v or out.strip().split('\n')[-3:])[0][:150])


if __name__ == '__main__':
    what, args = sys.argv[1], sys.argv[2:]
    if what == 'check' and not args:
        args = sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(JOBS) as ex:
        for pid, res in ex.map({'new': new, 'check': check}[what], args):
            print(pid, ':', res, flush=True)
