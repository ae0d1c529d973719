#!/opt/venv/bin/python
'''setup: nothing is built; verify that the interpreter, the code under test
and Hypothesis can be imported.'''
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import env
import hwp5
print('hwp5', hwp5.__file__, 'hypothesis', env.hypothesis.__version__)
