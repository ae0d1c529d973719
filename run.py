#!/opt/venv/bin/python
# -*- coding: utf-8 -*-
'''Entry point:  run.py CXX [--replay FILE] [--shards N] [--scale F]'''
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def bootstrap():
    import tempfile
    if os.environ.get('VERIF_BOOT') == '1':
        return
    env = dict(os.environ)
    work = tempfile.mkdtemp(prefix='verif-work-')
    env.update(VERIF_BOOT='1', VERIF_WORK=work, PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX=os.path.join(work, 'pyc'),
               PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8', LANG='C.UTF-8',
               TMPDIR=work)
    env.pop('PYTHONPATH', None)
    import subprocess
    import shutil
    rc = 3
    try:
        p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(HERE, 'run.py')] + sys.argv[1:],
                             env=env)
        rc = p.wait()
    finally:
        if work.startswith(tempfile.gettempdir()) and 'verif-work-' in work:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 3)


if __name__ == '__main__':
    bootstrap()
    sys.path.insert(0, HERE)
    from lib import runner
    sys.exit(runner.main(sys.argv[1:]))
