# -*- coding: utf-8 -*-
'''Paths and imports: the code under test is always REPO/src.'''
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
FIXTURES = os.path.join(REPO, 'tests/hwp5_tests/fixtures')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WORK = os.environ.get('VERIF_WORK') or '/tmp'

if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)
if VT not in sys.path:
    sys.path.append(VT)

import hypothesis  # noqa
import hwp5  # noqa
if not os.path.abspath(hwp5.__file__).startswith(SRC + os.sep):
    raise SystemExit('hwp5 imported from %s, not %s' % (hwp5.__file__, SRC))

import logging  # noqa
logging.disable(logging.CRITICAL)
