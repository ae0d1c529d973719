# -*- coding: utf-8 -*-
import contextlib
import errno
import gc
import io
import os
import shutil
import stat
import tempfile
import zipfile

from hypothesis import strategies as st

from checks.c19 import quiet
from lib import cfb, cli, confine, docgen, env, gen
from lib.memstg import MemStorage
from lib.runner import Test, eq, fail, ok

RULE = 'a fault is injected and the conversion fails, or the document contains embedded data'

TARGETS = ['text', 'css', 'xhtml', 'dir', 'styles', 'content', 'document', 'package']
CLIS = {'text': ('hwp5txt', []), 'css': ('hwp5html', ['--css']), 'xhtml': ('hwp5html', ['--html']),
        'dir': ('hwp5html', []), 'styles': ('hwp5odt', ['--styles']), 'content': ('hwp5odt', ['--content']),
        'document': ('hwp5odt', ['--document']), 'package': ('hwp5odt', []),
        'xml': ('hwp5proc', ['xml']), 'flat': ('hwp5proc', ['xml', '--format=flat'])}

DOCS = docgen.docs(mode='sane', images=2, maxparas=5)
ZDOCS = docgen.docs(mode='sane', images=2, maxparas=5, flags=1)


# ---------------------------------------------------------------- what is left behind
def descriptors():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return out


@contextlib.contextmanager
def nothing_left(d, what):
    '''temporary files, descriptors and processes after the block'''
    tmp = os.path.join(d, 'tmp')
    if not os.path.isdir(tmp):
        os.mkdir(tmp)
    old, oldenv = tempfile.tempdir, os.environ.get('TMPDIR')
    before = descriptors()
    tempfile.tempdir = tmp
    os.environ['TMPDIR'] = tmp
    try:
        yield
    finally:
        tempfile.tempdir = old
        if oldenv is None:
            del os.environ['TMPDIR']
        else:
            os.environ['TMPDIR'] = oldenv
    eq(sorted(os.listdir(tmp)), [], '%s: temporary files left behind' % what)
    after = descriptors()
    if after != before:
        gc.collect()
        after = descriptors()
    eq(sorted(set(after.items()) - set(before.items())), [], '%s: descriptors left open' % what)
    try:
        pid = os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        pid = None
    eq(pid, None, '%s: processes left behind' % what)


# ---------------------------------------------------------------- conversions
_T = {}


def transforms(embed=False, **kw):
    from hwp5.hwp5html import HTMLTransform
    from hwp5.hwp5odt import ODTTransform
    from hwp5.hwp5txt import TextTransform
    x = {k: v for k, v in kw.items() if k == 'xslt_compile'}
    return {'text': TextTransform(**x), 'html': HTMLTransform(**x), 'odt': ODTTransform(embedbin=embed, **kw)}


def usual():
    if not _T:
        _T.update(transforms())
    return _T


def convert(t, target, hwp5file, dest):
    '''dest: a binary stream; a directory; a ZipFile'''
    if target == 'text':
        return t['text'].transform_hwp5_to_text(hwp5file, dest)
    if target == 'css':
        return t['html'].transform_hwp5_to_css(hwp5file, dest)
    if target == 'xhtml':
        return t['html'].transform_hwp5_to_xhtml(hwp5file, dest)
    if target == 'dir':
        return t['html'].transform_hwp5_to_dir(hwp5file, dest)
    if target == 'document':
        return t['odt'].transform_hwp5_to_single_document(hwp5file, dest)
    if target in ('styles', 'content'):
        return getattr(t['odt'], 'transform_hwp5_to_' + target)(hwp5file, dest)
    from hwp5.hwp5odt import ODTPackage
    with contextlib.closing(ODTPackage(dest)) as pkg:
        return t['odt'].transform_hwp5_to_package(hwp5file, pkg)


def collect(target, dest):
    '''the finished output'''
    if target == 'dir':
        return {k: v[2] for k, v in confine.snapshot(dest).items() if stat.S_ISREG(v[0])}
    if target == 'package':
        with zipfile.ZipFile(dest) as z:
            eq(z.testzip(), None, 'bad files in the package')
            return {n: z.read(n) for n in z.namelist()}
    with open(dest, 'rb') as f:
        return f.read()


def to_path(t, target, hwp5file, path):
    if target == 'dir':
        os.mkdir(path)
        convert(t, target, hwp5file, path)
    elif target == 'package':
        convert(t, target, hwp5file, path)
    else:
        with open(path, 'wb') as f:
            convert(t, target, hwp5file, f)
    return collect(target, path)


def baseline(d, target, tree):
    from hwp5 import xmlmodel
    return to_path(usual(), target, xmlmodel.Hwp5File(MemStorage(tree)), os.path.join(d, 'baseline'))


def attempt(fn, *args):
    '''None or a description of the failure; the exception is dropped'''
    try:
        fn(*args)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:200])


# ---------------------------------------------------------------- broken streams
class Breaking(io.BytesIO):
    def __init__(self, data, left):
        io.BytesIO.__init__(self, data)
        self.left = left

    def spend(self, b):
        self.left -= len(b)
        if self.left < 0:
            raise IOError(errno.EIO, 'injected read error')
        return b

    def read(self, *a):
        return self.spend(io.BytesIO.read(self, *a))

    def readline(self, *a):
        return self.spend(io.BytesIO.readline(self, *a))

    def readinto(self, b):
        n = io.BytesIO.readinto(self, b)
        self.spend(bytes(b[:n]))
        return n


class Full(io.RawIOBase):
    '''a device with room for so many bytes'''

    def __init__(self, room):
        self.room, self.data, self.hit = room, b'', False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if len(self.data) + len(b) > self.room:
            self.hit = True
            raise IOError(errno.ENOSPC, 'injected: no space left on device')
        self.data += b
        return len(b)


def check_reading(case, rec):
    '''a stream of the document cannot be read completely'''
    doc, target, nth, left = case
    from hwp5 import xmlmodel
    tree = doc.tree()
    opened = []

    def hook(data):
        opened.append(1)
        if len(opened) == nth + 4:       # the FileHeader is read before
            if left is None:
                raise IOError(errno.EIO, 'injected open error')
            return Breaking(data, left)
        return io.BytesIO(data)
    with gen.workdir() as d:
        expected = baseline(d, target, tree)
        out = os.path.join(d, 'out')
        t = usual()
        with nothing_left(d, 'reading for ' + target):
            f = attempt(lambda: xmlmodel.Hwp5File(MemStorage(tree, hook=hook)))
            eq(f, None, 'opening')
            del opened[:]
            result = []
            bad = attempt(lambda: result.append(to_path(
                t, target, xmlmodel.Hwp5File(MemStorage(tree, hook=hook)), out)))
        rec.label(target, 'fails' if bad else 'succeeds')
        rec.nontrivial(bool(bad) or bool(doc.bindata))
        if not bad:
            eq(result[0], expected, 'the output of a conversion to %s that succeeded' % target)
        else:
            ok('injected' in bad or 'ParseError' in bad, 'an unrelated failure: %s', bad)


def check_writing(case, rec):
    '''the destination is full'''
    doc, target, share, early = case
    from hwp5 import xmlmodel
    tree = doc.tree()
    with gen.workdir() as d:
        expected = baseline(d, target, tree)
        p = os.path.join(d, 'baseline')
        size = os.path.getsize(p) if target != 'dir' else 0
        room = early if early is not None else size * share // 1000
        full = Full(room)
        t = usual()

        def go():
            hwp5file = xmlmodel.Hwp5File(MemStorage(tree))
            if target == 'package':
                with io.BufferedWriter(full, 512) as f:
                    z = zipfile.ZipFile(Sink(f), 'w')
                    try:
                        convert(t, target, hwp5file, z)
                    finally:
                        z.fp = None     # whatever its state is
            else:
                with io.BufferedWriter(full, 512) as f:
                    convert(t, target, hwp5file, f)
        with nothing_left(d, 'writing ' + target):
            bad = attempt(go)
        rec.label(target, 'fails' if bad else 'succeeds')
        rec.nontrivial(bool(bad))
        if full.hit:
            ok(bad, 'writing %s to a full device succeeded', target)
        if not bad:
            ok(not full.hit, 'a write error was not reported')
            if target == 'package':
                with open(os.path.join(d, 'z'), 'wb') as f:
                    f.write(full.data)
                eq(collect('package', os.path.join(d, 'z')), expected, 'package')
            else:
                eq(full.data, expected, 'output of ' + target)


class Sink(object):
    '''an unseekable file for ZipFile'''

    def __init__(self, f):
        self.f, self.n = f, 0

    def write(self, b):
        self.n += len(b)
        return self.f.write(b)

    def tell(self):
        raise OSError('unseekable')

    def seekable(self):
        return False

    def flush(self):
        self.f.flush()

    def close(self):
        pass


# ---------------------------------------------------------------- engines
def check_engine(case, rec):
    '''the n-th transformation or validation fails'''
    doc, target, nth, how, part = case
    from hwp5 import xmlmodel
    from hwp5.plat import _lxml, xmllint, xsltproc
    tree = doc.tree()
    calls = []

    def xslt_compile(path, **params):
        if how == 'compile':
            calls.append(1)
            if len(calls) == nth:
                raise ValueError('injected compile error')
        inner = _lxml.xslt_compile(path, **params)

        def transform(inp, out):
            if how == 'transform':
                calls.append(1)
                if len(calls) == nth:
                    out.write(b'<half')
                    raise ValueError('injected transform error')
            return inner(inp, out)
        return transform

    class Rejecting(object):
        def __init__(self, path):
            self.inner = _lxml.relaxng_compile(path)

        @contextlib.contextmanager
        def validating_output(self, out):
            calls.append(1)
            n = len(calls)
            with self.inner.validating_output(out) as f:
                yield f
                if n == nth:
                    from hwp5.errors import ValidationFailed
                    raise ValidationFailed('injected')
    with gen.workdir() as d:
        expected = baseline(d, target, tree)
        fake = os.path.join(d, 'fake')
        with open(fake, 'w') as f:
            f.write('#!/bin/sh\nn=$(cat %s/count 2>/dev/null || echo 0)\nn=$((n+1))\necho $n > %s/count\n'
                    'if [ $n = %d ]; then %s; fi\nexec %s "$@"\n' % (
                        d, d, nth, part, 'xmllint' if how == 'xmllint' else 'xsltproc'))
        os.chmod(fake, 0o755)
        old = xsltproc.executable, xmllint.executable
        bound = []

        def go():
            kw = {}
            if how in ('compile', 'transform'):
                kw['xslt_compile'] = xslt_compile
            elif how == 'validator':
                kw['relaxng_compile'] = Rejecting
            elif how == 'xsltproc':
                kw['xslt_compile'] = xsltproc.xslt_compile
            elif how == 'xmllint':
                kw['relaxng_compile'] = xmllint.relaxng_compile
            bound.append(to_path(transforms(**kw), target, xmlmodel.Hwp5File(MemStorage(tree)),
                                 os.path.join(d, 'out')))
        try:
            if how == 'xsltproc':
                xsltproc.executable = fake
            elif how == 'xmllint':
                xmllint.executable = fake
            with quiet(), nothing_left(d, 'engine failure in ' + target):
                bad = attempt(go)
        finally:
            xsltproc.executable, xmllint.executable = old
        n = len(calls)
        if how in ('xsltproc', 'xmllint'):
            try:
                with open(os.path.join(d, 'count')) as f:
                    n = int(f.read())
            except IOError:
                n = 0
        rec.label(how, target, 'fails' if bad else 'succeeds')
        rec.nontrivial(bool(bad))
        if n >= nth:
            ok(bad, 'a failed %s in a conversion to %s was not reported', how, target)
        else:
            eq(bad, None, 'no failure was injected')
        if not bad and how in ('compile', 'transform', 'validator'):
            eq(bound[0], expected, 'output of ' + target)


# ---------------------------------------------------------------- command line
@st.composite
def damages(draw):
    return draw(st.lists(st.tuples(
        st.sampled_from(['flip', 'cut', 'zero', 'insert', 'drop', 'empty', 'container']),
        st.integers(0, 5), st.integers(0, 10 ** 6), st.integers(1, 255)), min_size=0, max_size=2))


def spoil(tree, damage):
    '''(bytes of the file)'''
    streams = [('DocInfo',)] + [('BodyText', n) for n in sorted(tree['BodyText'])]
    streams += [('BinData', n) for n in sorted(tree.get('BinData', {}))]
    cut = None
    for op, which, at, value in damage:
        path = streams[which % len(streams)]
        at0 = at
        node = tree
        for k in path[:-1]:
            node = node[k]
        data = node.get(path[-1])
        if data is None:
            continue
        at = at % (len(data) or 1)
        if op == 'flip' and data:
            data = data[:at] + bytes([data[at] ^ value]) + data[at + 1:]
        elif op == 'cut':
            data = data[:at]
        elif op == 'zero':
            data = data[:at] + b'\0' * len(data[at:at + value]) + data[at + value:]
        elif op == 'insert':
            data = data[:at] + bytes([value]) * (value % 7 + 1) + data[at:]
        elif op == 'empty':
            data = b''
        elif op == 'drop':
            del node[path[-1]]
            continue
        elif op == 'container':
            cut = at0
        node[path[-1]] = data
    blob = cfb.build(tree)
    if cut is not None:
        blob = blob[:max(1536, cut % len(blob))]
    return blob


def readable(path, embed, bindata):
    '''None if everything the conversion needs can be read, else the failure'''
    from hwp5 import xmlmodel

    def go():
        with contextlib.closing(xmlmodel.Hwp5File(path)) as f:
            f.xmlevents(embedbin=embed).dump(io.BytesIO())
            if bindata and 'BinData' in f:
                for n in f['BinData']:
                    f['BinData'][n].open().read()
    return attempt(go)


def check_damaged(case, rec):
    doc, target, damage, embed = case
    tree = doc.tree()
    blob = spoil(tree, damage)
    program, argv = CLIS[target]
    argv = list(argv)
    if program == 'hwp5odt':
        argv.append('--embed-image' if embed else '--no-embed-image')
    elif target == 'xml' and embed:
        argv.append('--embedbin')
    else:
        embed = False
    from hwp5 import filestructure
    with gen.workdir() as d:
        path, out = os.path.join(d, 'in.hwp'), os.path.join(d, 'out')
        with open(path, 'wb') as f:
            f.write(blob)
        os.utime(path, (10 ** 9, 10 ** 9))
        why = readable(path, embed, target in ('dir', 'package'))
        with quiet(), nothing_left(d, '%s %s' % (program, argv)):
            r = cli.run(program, argv + ['--output', out, path], cwd=d)
            failed = (r.rc != 0, bool(r.err.strip()), repr(r.exc))
            r.exc = None
        rec.label(target, 'failed' if failed[0] else 'converted', 'readable' if not why else 'unreadable')
        rec.nontrivial(failed[0] or bool(doc.bindata))
        ok(not failed[0] or failed[1] or failed[2] != 'None', '%s %r failed without a message', program, argv)
        if why and target != 'flat':
            ok(failed[0], '%s %r succeeded for a document that cannot be read: %s', program, argv, why)
        elif target in ('text', 'css', 'xhtml', 'dir', 'xml') and not why:
            ok(not failed[0], '%s %r failed: %s %s', program, argv, failed[2], r.err[-300:])
        if not failed[0] and target in TARGETS:
            from hwp5 import xmlmodel
            with contextlib.closing(xmlmodel.Hwp5File(path)) as f:
                t = transforms(embed=embed) if embed else usual()
                exp = to_path(t, target, f, os.path.join(d, 'expected'))
            eq(collect(target, out), exp, 'output of %s %r' % (program, argv))
        with open(path, 'rb') as f:
            ok(f.read() == blob, 'the input was changed')
        eq(os.stat(path).st_mtime, 10 ** 9, 'time of the input')


DESTS = ['missing directory', 'occupied', 'full', 'input', 'link to input', 'around input', 'inside file']


def check_destination(case, rec):
    '''places that cannot be written, or where the input is'''
    doc, target, where, default = case
    program, argv = CLIS[target]
    argv = list(argv)
    blob = cfb.build(doc.tree())
    with confine.scratch() as d:
        os.mkdir(os.path.join(d, 'in'))
        os.mkdir(os.path.join(d, 'in', 'keep'))
        path = os.path.join(d, 'in', 'in.hwp')
        if where == 'missing directory':
            out = os.path.join(d, 'none', 'out')
        elif where == 'occupied':
            out = os.path.join(d, 'out')
            if target == 'dir':
                with open(out, 'w') as f:
                    f.write('x')
            else:
                os.mkdir(out)
        elif where == 'full':
            out = '/dev/full' if target != 'dir' else os.path.join(d, 'none', 'out')
        elif where == 'inside file':
            with open(os.path.join(d, 'file'), 'w') as f:
                f.write('x')
            out = os.path.join(d, 'file', 'out')
        elif where == 'input':
            out = path
            if default and target == 'package':
                path = out = os.path.join(d, 'in', 'in.odt')
            elif default and target == 'dir':
                path = out = os.path.join(d, 'in', 'in')
        elif where == 'link to input':
            out = os.path.join(d, 'in', 'link')
        else:
            out = os.path.join(d, 'in')
        with open(path, 'wb') as f:
            f.write(blob)
        if where == 'link to input':
            (os.symlink if default else os.link)(path, out)
        args = argv + ['--output', out, path]
        cwd = d
        if where == 'input' and default and target in ('package', 'dir'):
            args, cwd = argv + [path], os.path.join(d, 'in')
        if where == 'around input' and default and target == 'dir':
            os.rename(path, os.path.join(d, 'in', 'in.x'))
            path = os.path.join(d, 'in', 'in.x')
            args = argv + [os.path.join('in', 'in.x')]
        before = confine.snapshot(os.path.join(d, 'in'))
        os.mkdir(os.path.join(d, 'tmp'))
        confine.own(d)
        with quiet():
            how, value = confine.run(in_child, program, args, cwd, os.path.join(d, 'tmp'))
        eq(how, 'ok', 'running %s: %s' % (program, value))
        rc, said, left, tmp = value
        eq(left, [], 'descriptors left open')
        eq(tmp, [], 'temporary files left behind')
        rec.label(where, target)
        rec.nontrivial()
        ok(rc != 0, '%s %r succeeded with the output %s', program, argv, where)
        ok(said, '%s %r failed without a message', program, argv)
        eq(confine.snapshot(os.path.join(d, 'in')), before, 'the files beside the input')


def in_child(program, args, cwd, tmp):
    tempfile.tempdir = tmp
    before = descriptors()
    r = cli.run(program, args, cwd=cwd)
    rc, said = r.rc, r.exc is not None or bool(r.err.strip())
    r = None
    gc.collect()
    left = sorted(set(descriptors().items()) - set(before.items()))
    return rc, said, left, sorted(os.listdir(tmp))


def check_quota(case, rec):
    '''no file, temporary or not, may become larger than so many bytes'''
    doc, target, share = case
    program, argv = CLIS[target]
    blob = cfb.build(doc.tree())
    with confine.scratch() as d:
        path, out = os.path.join(d, 'in.hwp'), os.path.join(d, 'out')
        with open(path, 'wb') as f:
            f.write(blob)
        os.mkdir(os.path.join(d, 'tmp'))
        from hwp5 import xmlmodel
        with contextlib.closing(xmlmodel.Hwp5File(path)) as f:
            expected = to_path(transforms(embed=True) if target == 'document' else usual(), target, f,
                               os.path.join(d, 'expected'))
        confine.own(d)
        with open(path, 'rb') as f:
            from hwp5.xmlmodel import Hwp5File
            b = io.BytesIO()
            with contextlib.closing(Hwp5File(path)) as h:
                h.xmlevents().dump(b)
        limit = len(b.getvalue()) * share // 1000
        with quiet():
            how, value = confine.run(in_child, program, list(argv) + ['--output', out, path], d,
                                     os.path.join(d, 'tmp'), limits={'RLIMIT_FSIZE': limit})
        eq(how, 'ok', 'the conversion with a quota of %d: %s' % (limit, value))
        rc, said, left, tmp = value
        eq(left, [], 'descriptors left open')
        eq(tmp, [], 'temporary files left behind')
        rec.label(target, 'failed' if rc else 'converted')
        rec.nontrivial(rc != 0)
        if rc == 0:
            eq(collect(target, out), expected, '%s with a quota succeeded; its output' % target)
        else:
            ok(said, '%s failed without a message', program)


def check_tools(case, rec):
    '''hwp5proc xml, whose output passes through xmllint'''
    doc, flat, nth, part = case
    blob = cfb.build(doc.tree())
    with gen.workdir() as d:
        path, out = os.path.join(d, 'in.hwp'), os.path.join(d, 'out')
        with open(path, 'wb') as f:
            f.write(blob)
        tools = os.path.join(d, 'tools')
        os.mkdir(tools)
        real = shutil.which('xmllint')
        fake = os.path.join(tools, 'xmllint')
        pick = '--c14n' if nth else '--encode'
        with open(fake, 'w') as f:
            f.write('#!/bin/sh\ncase "$*" in *%s*) %s;; esac\nexec %s "$@"\n' % (pick, part, real))
        os.chmod(fake, 0o755)
        argv = ['xml', '--output', out] + (['--format=flat'] if flat else []) + [path]
        old = os.environ['PATH']
        os.environ['PATH'] = tools + ':' + old
        try:
            with quiet(), nothing_left(d, 'hwp5proc xml'):
                r = cli.run('hwp5proc', argv, cwd=d)
                rc, said = r.rc, r.exc is not None or bool(r.err.strip())
                r = None
        finally:
            os.environ['PATH'] = old
        rec.nontrivial()
        rec.label(part)
        if part == 'true':
            eq(rc, 0, 'hwp5proc xml')
        else:
            ok(rc != 0 and said, 'hwp5proc xml succeeded though xmllint failed (%s)', part)


def tests(tier):
    t = st.sampled_from(TARGETS)
    part = st.sampled_from(['exit 1', 'cat > /dev/null; exit 3', 'echo half; exit 9', 'kill -9 $$',
                            'cat; exit 2'])
    eng = ['compile', 'transform', 'transform', 'validator', 'xsltproc', 'xmllint']
    return [
        Test('reading', st.tuples(DOCS, t, st.integers(0, 8), st.one_of(st.none(), st.integers(0, 600))),
             check_reading, 300, 12000),
        Test('writing', st.tuples(DOCS, st.sampled_from([x for x in TARGETS if x != 'dir']),
                                  st.integers(0, 1100), st.one_of(st.none(), st.none(), st.integers(0, 2000))),
             check_writing, 250, 10000),
        Test('engines', st.tuples(DOCS, t, st.integers(1, 4), st.sampled_from(eng), part), check_engine,
             160, 8000),
        Test('damaged', st.tuples(st.one_of(DOCS, ZDOCS), st.sampled_from(sorted(CLIS)), damages(), st.booleans()),
             check_damaged, 300, 15000),
        Test('destinations', st.tuples(DOCS, t, st.sampled_from(DESTS), st.booleans()), check_destination,
             120, 4000),
        Test('quota', st.tuples(DOCS, t, st.integers(0, 1500)), check_quota, 80, 4000),
        Test('tools', st.tuples(DOCS, st.booleans(), st.integers(0, 1),
                                st.one_of(part, st.just('true'))),
             check_tools, 30, 1500),
    ]
