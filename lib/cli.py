# -*- coding: utf-8 -*-
'''Run the command line entry points in-process with captured stdio.'''
import importlib
import io
import logging
import os
import sys


class Result(object):
    def __init__(self, rc, out, err, exc, tail=None):
        self.rc, self.out, self.err, self.exc = rc, out, err, exc

    @property
    def text(self):
        return self.out.decode('utf-8')

    def __repr__(self):
        return 'Result(rc=%r, exc=%r, out=%r, err=%r)' % (
            self.rc, self.exc, self.out[:300], self.err[-600:])


class _Std(io.TextIOWrapper):
    def close(self):       # keep the buffer readable
        try:
            self.flush()
        except ValueError:
            pass


def _code(c):
    if c is None:
        return 0
    if isinstance(c, bool):
        return int(c)
    return c if isinstance(c, int) else 1


def run(program, argv, stdin=b'', cwd=None):
    '''program: hwp5proc, hwp5txt, hwp5html, hwp5odt'''
    mod = importlib.import_module('hwp5.' + program)
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    level = logging.root.manager.disable
    hwplog = logging.getLogger('hwp5')
    handlers, hlevel = list(hwplog.handlers), hwplog.level
    out, err = io.BytesIO(), io.BytesIO()
    oldcwd = os.getcwd() if cwd else None
    rc, exc = 0, None
    try:
        sys.argv = [program] + list(argv)
        sys.stdin = _Std(io.BytesIO(stdin), encoding='utf-8', errors='surrogateescape')
        sys.stdout = _Std(out, encoding='utf-8', errors='surrogatepass', newline='\n')
        sys.stderr = _Std(err, encoding='utf-8', errors='backslashreplace', newline='\n')
        logging.disable(logging.NOTSET)
        if cwd:
            os.chdir(cwd)
        try:
            rc = _code(mod.main())
        except SystemExit as e:
            rc = _code(e.code)
            if isinstance(e.code, str):
                sys.stderr.write(e.code + '\n')
        except Exception as e:
            exc, rc = e, 1
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        for h in list(hwplog.handlers):
            if h not in handlers:
                hwplog.removeHandler(h)
        hwplog.setLevel(hlevel)
        logging.disable(level)
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        if oldcwd:
            os.chdir(oldcwd)
    return Result(rc, out.getvalue(), err.getvalue(), exc)


def success(program, argv, stdin=b'', cwd=None):
    from .runner import Violation
    r = run(program, argv, stdin, cwd)
    if r.exc is not None:
        raise r.exc
    if r.rc != 0:
        raise Violation('%s %r failed: rc=%r stderr=%s' % (
            program, argv, r.rc, r.err[-800:].decode('utf-8', 'replace')))
    return r
