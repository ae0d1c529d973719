# -*- coding: utf-8 -*-
'''Run a function in a forked child as an unprivileged user, so that code that
writes or deletes the wrong files can reach nothing but its own scratch files.'''
import os
import pickle
import resource
import select
import shutil
import signal
import stat
import tempfile
import time
import traceback

NOBODY = 65534


class scratch(object):
    '''a directory that the unprivileged user owns and can reach'''

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='case-')
        if os.getuid() == 0:
            os.chown(self.path, NOBODY, NOBODY)
            p = os.path.dirname(self.path)
            while p not in ('/', '/tmp'):
                mode = stat.S_IMODE(os.stat(p).st_mode)
                if not mode & 0o001:
                    os.chmod(p, mode | 0o011)
                p = os.path.dirname(p)
        return self.path

    def __exit__(self, *a):
        assert os.path.basename(self.path).startswith('case-')
        shutil.rmtree(self.path, ignore_errors=True)


def child(fn, args, limits):
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    for name, value in limits.items():
        resource.setrlimit(getattr(resource, name), (value, value))
    return fn(*args)


def run(fn, *args, **kw):
    '''('ok', value) | ('exception', text) | ('killed', status)'''
    timeout = kw.pop('timeout', 60)
    limits = {'RLIMIT_FSIZE': 64 << 20, 'RLIMIT_CORE': 0}
    limits.update(kw.pop('limits', {}))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.alarm(0)
            try:
                out = ('ok', child(fn, args, limits))
            except BaseException:
                out = ('exception', traceback.format_exc())
            data = pickle.dumps(out)
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    data, end = b'', time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                break
            piece = os.read(r, 1 << 16)
            if not piece:
                break
            data += piece
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if status:
        return 'killed', status
    return pickle.loads(data)


def snapshot(top, skip=()):
    '''{relative path: (kind, mode, content)} of everything under top'''
    out = {}
    for base, dirs, files in os.walk(top):
        rel = os.path.relpath(base, top)
        dirs[:] = [d for d in dirs if os.path.normpath(os.path.join(rel, d)) not in skip]
        for n in dirs + files:
            p = os.path.join(base, n)
            s = os.lstat(p)
            kind = stat.S_IFMT(s.st_mode)
            if kind == stat.S_IFLNK:
                content = os.readlink(p)
            elif kind == stat.S_IFREG:
                with open(p, 'rb') as f:
                    content = f.read()
            else:
                content = None
            out[os.path.normpath(os.path.join(rel, n))] = kind, stat.S_IMODE(s.st_mode), content
    return out


def own(top):
    '''give everything under top to the unprivileged user'''
    if os.getuid() == 0:
        for base, dirs, files in os.walk(top):
            for n in dirs + files:
                os.lchown(os.path.join(base, n), NOBODY, NOBODY)
        os.chown(top, NOBODY, NOBODY)
