# -*- coding: utf-8 -*-
import contextlib
import hashlib
import io
import json
import os
import re
import subprocess
import sys
import tempfile
import zipfile
import zlib

from hypothesis import strategies as st
from lxml import etree

from checks import c31
from checks.c27 import write_dir
from lib import cfb, cli, confine, docgen, env, gen, layout as L, propset
from lib.memstg import MemStorage
from lib.runner import Test, eq, fail, ok

RULE = 'several conversions in one history, or the same one from several sources'

SOURCES = ['same path', 'ole', 'ole', 'ole4', 'scattered', 'memory', 'shuffled', 'dir', 'renamed', 'again', 'again', 'gsf']
ADDRESS = re.compile(' (?:object )?at 0x[0-9a-f]+>')
TARGETS = ['xml', 'embedded', 'flat', 'text', 'css', 'xhtml', 'dir', 'styles', 'content', 'document',
           'package', 'models', 'records', 'summary', 'views']


def digest(x):
    if isinstance(x, dict):
        return ' '.join('%s=%s' % (k, digest(v)[:8]) for k, v in sorted(x.items()))
    return hashlib.sha1(x).hexdigest() + ' %d' % len(x)


def views(stg, path=''):
    '''every item of the document, as it is shown'''
    from hwp5.storage import is_storage
    out = {}
    for n in stg:
        item = stg[n]
        if is_storage(item):
            out.update(views(item, path + n + '/'))
        else:
            with contextlib.closing(item.open()) as f:
                out[path + n] = f.read()
    return out


def output(f, target, t, d):
    b = io.BytesIO()
    if target in ('xml', 'embedded'):
        f.xmlevents(embedbin=target == 'embedded').dump(b)
    elif target == 'flat':
        from hwp5.xmldump_flat import xmldump_flat
        xmldump_flat(f, b)
    elif target in ('models', 'records'):
        for s in [f.docinfo] + [f.bodytext[n] for n in sorted(f.bodytext)]:
            j = s.models_json() if target == 'models' else s.records_json()
            for x in j.generate():
                b.write(x.encode('utf-8', 'surrogatepass'))
    elif target == 'summary':
        for line in f.summaryinfo.plaintext_lines:
            b.write(line.encode('utf-8', 'surrogatepass') + b'\n')
        b.write(repr(sorted(f.header.value.items(), key=str)).encode())
    elif target == 'views':
        return digest(views(f))
    else:
        n = 0
        while os.path.exists(os.path.join(d, 'o%d' % n)):
            n += 1
        out = c31.to_path(t, target, f, os.path.join(d, 'o%d' % n))
        if target == 'package':  # the entries of the manifest have no order
            out['META-INF/manifest.xml'] = repr(sorted(
                sorted(x.attrib.items()) for x in etree.fromstring(out['META-INF/manifest.xml']))).encode()
        return digest(out)
    return digest(b.getvalue())


def source(doc, kind, d, n):
    '''a storage, or the path of a file'''
    tree = doc.tree()
    if kind == 'memory':
        return MemStorage(tree)
    if kind == 'shuffled':
        return MemStorage(tree, order=lambda names: sorted(names, key=lambda x: hashlib.md5(
            x.encode() + bytes([n])).digest()))
    if kind == 'dir':
        from hwp5.storage.fs import FileSystemStorage
        p = os.path.join(d, 'dir%d' % n)
        os.mkdir(p)
        write_dir(tree, p)
        return FileSystemStorage(p)
    name = 'a%d.hwp' % n
    if kind == 'renamed':
        os.mkdir(os.path.join(d, '가%d' % n))
        name = os.path.join('가%d' % n, 'x <&>"\'%s')
    if kind == 'same path':     # another document takes the place of the one before
        name = 'same.hwp.tmp'
    p = os.path.join(d, name)
    with open(p, 'wb') as f:
        f.write(cfb.build(tree, version=4 if kind == 'ole4' else 3, layout=n if kind == 'scattered' else None))
    if kind == 'same path':
        os.utime(p, (1, 1))
        os.replace(p, p[:-4])
        return p[:-4]
    if kind == 'gsf':
        from hwp5.plat import gir_gsf
        if gir_gsf.is_enabled():
            return gir_gsf.OleStorage(p)
    return p


def history(docs, ops, fresh, d):
    '''the digests of the outputs, in order'''
    from hwp5 import xmlmodel
    tempfile.tempdir = d
    t, opened, out, before = c31.transforms(), {}, [], None
    for n, (i, kind, target) in enumerate(ops):
        if kind == 'again' and i in opened:
            f = opened[i]
        else:
            src = source(docs[i], 'ole' if kind == 'again' else kind, d, n)
            before = confine.snapshot(d)
            f = xmlmodel.Hwp5File(src)
            opened.setdefault(i, f)
        try:
            got = output(f, target, c31.transforms() if fresh else t, d)
        except Exception as e:
            got = 'failed: %s %s' % (type(e).__name__, '|'.join(str(e).split())[:200])
        if before is not None:
            after = confine.snapshot(d)
            for p in before:
                eq(after.get(p), before[p], 'the file %s after %r' % (p, ops[:n + 1]))
        out.append(got)
    return out


def isolated(fn, *args):
    with confine.scratch() as d:
        how, value = confine.run(fn, *(args + (d,)))
    eq(how, 'ok', 'a conversion in another process: %s' % (value,))
    return value


class Sibling(object):
    '''a document that differs from another one in a single part'''

    def __init__(self, doc, part, n):
        self.doc, self.part, self.n = doc, part, n

    def __repr__(self):
        return 'Sibling(%r, %r, %r)' % (self.doc, self.part, self.n)

    def hwp5file(self):
        from hwp5 import xmlmodel
        return xmlmodel.Hwp5File(MemStorage(self.tree()))

    def tree(self):
        doc, n = self.doc, self.n
        t = doc.tree()

        def inflate(b):
            return zlib.decompress(b, -15) if doc.flags & 1 else b
        if self.part == 'text':
            t['BodyText'] = {k: doc.deflate(other_text(inflate(v), n)) if k.startswith('Section') else v
                             for k, v in t['BodyText'].items()}
        elif self.part == 'lineseg':    # any record but texts
            t['BodyText'] = {k: doc.deflate(other_last(inflate(v), 69)) if k.startswith('Section') else v
                             for k, v in t['BodyText'].items()}
        elif self.part == 'fonts':
            t['DocInfo'] = doc.deflate(other_names(inflate(t['DocInfo']), n))
        elif self.part == 'data':
            t['BinData'] = {k: doc.deflate(inflate(v)[::-1] + b'%d' % n) for k, v in t.get('BinData', {}).items()}
        elif self.part == 'summary':
            t['\x05HwpSummaryInformation'] = propset.simple(title='title %d' % n, author='author %d' % n)
        elif self.part == 'version':
            v = bytearray(t['FileHeader'])
            v[32] = (v[32] + n) & 0xff
            t['FileHeader'] = bytes(v)
        elif self.part == 'sections':
            names = sorted(t['BodyText'])
            t['BodyText'] = dict(zip(names, [t['BodyText'][k] for k in names[1:] + names[:1]]))
        return t


def stream_records(b):
    i = 0
    while i + 4 <= len(b):
        h = int.from_bytes(b[i:i + 4], 'little')
        k, size = i + 4, h >> 20
        if size == 0xfff:
            size = int.from_bytes(b[k:k + 4], 'little')
            k += 4
        yield h & 0x3ff, k, size
        i = k + size


def other_text(b, n):
    out = bytearray(b)
    for tag, at, size in stream_records(b):
        i = at if tag == 67 else at + size
        while i + 2 <= at + size:
            c = int.from_bytes(out[i:i + 2], 'little')
            if c < 32:
                i += 2 if c in L.CC and L.CC[c][1] == 'CHAR' else 16
                continue
            if 0x30 <= c < 0x7a or 0xac00 <= c < 0xd7a0:
                out[i] ^= n % 3 + 1
            i += 2
    return bytes(out)


def other_last(b, wanted):
    '''the last byte but three of records is another one'''
    out = bytearray(b)
    for tag, at, size in stream_records(b):
        if tag == wanted and size >= 36:
            out[at + 4] ^= 1
    return bytes(out)


def other_names(b, n):
    out = bytearray(b)
    for tag, at, size in stream_records(b):
        if tag == 19 and size >= 5 and 0x30 <= out[at + 3] < 0x7a and not out[at + 4]:
            out[at + 3] ^= n % 3 + 1
    return bytes(out)


PARTS = ['text', 'text', 'lineseg', 'fonts', 'data', 'summary', 'version', 'sections']


def check_siblings(case, rec):
    doc, parts, ops, fresh = case
    docs = [doc] + [Sibling(doc, part, n) for n, part in enumerate(parts, 1)]
    # every output of one document is followed by the same one of another
    ops = [(i + j, k, t) for i, k, t, other, k2 in ops for j, k in ((0, k), (other, k2))]
    rec.label(*parts)
    check_history((docs, ops, fresh), rec)


def baseline(docs, pairs):
    return {(i, target): isolated(history, docs, [(i, 'memory', target)], True)[0] for i, target in pairs}


def check_history(case, rec):
    docs, ops, fresh = case
    ops = [(i % len(docs), k, t) for i, k, t in ops]
    base = baseline(docs, sorted({(i, t) for i, k, t in ops}))
    got = isolated(history, docs, ops, fresh)
    for n, (op, g) in enumerate(zip(ops, got)):
        eq(g, base[op[0], op[2]], 'output %d (%s of document %d from %s) after %r' % (
            n, op[2], op[0], op[1], ops[:n]))
        rec.label(op[1], op[2], 'failed' if g.startswith('failed') else 'done')
    rec.nontrivial(len(ops) > 1)


SCRIPT = '''
import sys, os, json
sys.path.insert(0, os.environ['VERIF_HERE'])
from lib import env
from checks import c31, c32
from hwp5 import xmlmodel
paths, ops, d = json.load(open(sys.argv[1]))
paths = [os.fsdecode(p.encode('latin-1')) for p in paths]
t = c31.transforms()
print(json.dumps([c32.output(xmlmodel.Hwp5File(paths[i]), target, t, d) for i, target in ops]))
'''


def check_process(case, rec):
    '''other processes: hash seed, locale, time zone, directory'''
    docs, ops, setups = case
    ops = sorted({(i % len(docs), t) for i, k, t in ops})
    base = baseline(docs, ops)
    for seed, locale, tz in setups:
        with confine.scratch() as d:
            paths = [source(doc, 'renamed' if seed % 2 else 'ole', d, i) for i, doc in enumerate(docs)]
            with open(os.path.join(d, 'job'), 'w') as f:
                json.dump(([os.fsencode(p).decode('latin-1') for p in paths], ops, d), f)
            e = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON', 'TZ'))}
            e.update(PYTHONHASHSEED=str(seed), LC_ALL=locale, TZ=tz, VERIF_HERE=env.HERE, VERIF_REPO=env.REPO,
                     PYTHONUTF8='1' if seed % 3 else '0', PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, '-c', SCRIPT, os.path.join(d, 'job')], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=e, cwd=d)
            ok(p.returncode == 0, 'a conversion with %s failed: %s', (seed, locale, tz), p.stderr[-600:])
            got = json.loads(p.stdout.decode().strip().split('\n')[-1])
        for op, g in zip(ops, got):
            eq(g, base[op], '%s of document %d with hash seed %d, locale %s, time zone %s' % (
                op[1], op[0], seed, locale, tz))
        rec.label(locale, tz)
    rec.nontrivial(len(ops) > 1 or len(setups) > 1)


def streams(f, kind):
    if kind == 'xml':
        return f.xmlevents().bytechunks()
    if kind == 'embedded':
        return f.xmlevents(embedbin=True).bytechunks()
    if kind == 'events':
        return (ADDRESS.sub('>', repr((e, getattr(m, '__name__', m), sorted(a.items(), key=lambda kv: kv[0])))).encode()
                for e, (m, a, c) in f.events())
    if kind == 'models':
        return (repr((m['seqno'], m['type'].__name__, m['content'])).encode()
                for s in [f.docinfo] + [f.bodytext[n] for n in sorted(f.bodytext)] for m in s.models())
    return (repr((r['seqno'], r['tagid'], r['payload'])).encode()
            for s in [f.docinfo] + [f.bodytext[n] for n in sorted(f.bodytext)] for r in s.records())


def check_interleaved(case, rec):
    '''several readers of the same document, some of which stop early'''
    docs, readers, script = case
    files = [doc.hwp5file() for doc in docs]
    alone = [list(streams(docs[i % len(docs)].hwp5file(), k)) for i, k, n in readers]
    its = [streams(files[i % len(docs)], k) for i, k, n in readers]
    got = [[] for r in readers]
    done = [False] * len(readers)
    script = [s % len(readers) for s in script]
    n = 0
    while not all(done):
        r = script[n % len(script)] if n < 4000 else n % len(readers)
        n += 1
        if done[r]:
            r = done.index(False)
        step = n * 7 % 40 + 1
        for j in range(step):
            if readers[r][2] is not None and len(got[r]) >= readers[r][2]:
                its[r].close() if hasattr(its[r], 'close') else None
                done[r] = True
                break
            try:
                got[r].append(next(its[r]))
            except StopIteration:
                done[r] = True
                break
    for r, (i, k, stop) in enumerate(readers):
        exp = alone[r] if stop is None else alone[r][:stop]
        eq(b''.join(got[r]), b''.join(exp), 'reader %d (%s) among %r' % (r, k, readers))
        rec.label(k)
    # and afterwards
    for i, f in enumerate(files):
        eq(list(streams(f, 'xml')), list(streams(docs[i].hwp5file(), 'xml')), 'document %d afterwards' % i)
    rec.nontrivial(len(readers) > 1)


COMMANDS = [('hwp5html', [], 'dir'), ('hwp5html', [], 'dir'), ('hwp5html', ['--html'], 'file'), ('hwp5html', ['--css'], 'file'),
            ('hwp5odt', [], 'odt'), ('hwp5odt', ['--content'], 'file'), ('hwp5odt', ['--document'], 'file'),
            ('hwp5txt', [], 'file'), ('hwp5proc', ['xml'], 'file'), ('hwp5proc', ['xml', '--format=flat'], 'file')]


def command_output(how, path):
    if not os.path.lexists(path):
        return 'nothing'
    if how == 'odt':
        out = c31.collect('package', path)
        out['META-INF/manifest.xml'] = repr(sorted(
            sorted(x.attrib.items()) for x in etree.fromstring(out['META-INF/manifest.xml']))).encode()
        return digest(out)
    return digest(c31.collect('dir' if how == 'dir' else 'file', path))


def overwriting(docs, ops, shared, d):
    '''the commands, one after the other; shared: the outputs take the place of those before'''
    out = []
    for i, doc in enumerate(docs):
        with open(os.path.join(d, 'a%d.hwp' % i), 'wb') as f:
            f.write(cfb.build(doc.tree()))
    os.mkdir(os.path.join(d, 'tmp'))
    tempfile.tempdir = os.path.join(d, 'tmp')
    for n, (i, k) in enumerate(ops):
        program, args, how = COMMANDS[k]
        dest = os.path.join(d, 'out.dir' if how == 'dir' else 'out.file')
        if not shared:
            dest = os.path.join(d, 'o%d' % n)
        r = cli.run(program, args + ['--output', dest, os.path.join(d, 'a%d.hwp' % i)])
        # a command which failed may leave anything
        out.append((r.rc, type(r.exc).__name__, None if r.rc or r.exc else command_output(how, dest)))
    return out


def check_overwrite(case, rec):
    docs, ops = case
    ops = [(i % len(docs), k) for i, k in ops]
    got = isolated(overwriting, docs, ops, True)
    exp = isolated(overwriting, docs, ops, False)
    for n, (op, g, e) in enumerate(zip(ops, got, exp)):
        eq(g, e, '%s of document %d over an older output, after %r' % (
            ' '.join([COMMANDS[op[1]][0]] + COMMANDS[op[1]][1]), op[0], ops[:n]))
        rec.label(COMMANDS[op[1]][2])
    rec.nontrivial(len(docs) > 1 and len({i for i, k in ops}) > 1)


def listed(tree, keys, d):
    '''the names in a directory, as the file system gives them in another order; the entries of the package'''
    from hwp5.storage.fs import FileSystemStorage
    from hwp5 import xmlmodel
    tempfile.tempdir = os.path.join(d, 'tmp')
    os.mkdir(tempfile.tempdir)
    d = os.path.join(d, 'doc')
    os.mkdir(d)
    write_dir(tree, d)
    real, out = os.listdir, []

    def names(stg, path=''):
        from hwp5.storage import is_storage
        for n in stg:
            yield path + n
            if is_storage(stg[n]):
                for x in names(stg[n], path + n + '/'):
                    yield x

    for key in keys:
        def listdir(*a):
            return sorted(real(*a), key=lambda x: hashlib.md5(os.fsencode(x) + b'%d' % key).digest())
        os.listdir = listdir
        try:
            x = list(names(FileSystemStorage(d)))
            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w') as z:
                c31.convert(c31.transforms(), 'package', xmlmodel.Hwp5File(FileSystemStorage(d)), z)
                y = z.namelist()
        finally:
            os.listdir = real
        out.append((x, y))
    return out


def check_listed(case, rec):
    doc, keys = case
    got = isolated(listed, doc.tree(), keys)
    for key, g in zip(keys[1:], got[1:]):
        eq(g, got[0], 'the items of a directory listed in another order (%d)' % key)
    rec.nontrivial(len(set(keys)) > 1)


def tests(tier):
    docs = docgen.docs(mode='sane', images=2, maxparas=4)
    wild = docgen.docs(info='full', maxparas=6)
    zdocs = docgen.docs(mode='sane', images=2, maxparas=4, flags=1)
    one = st.one_of(docs, zdocs)
    op = st.tuples(st.integers(0, 2), st.sampled_from(SOURCES), st.sampled_from(TARGETS))
    setups = st.tuples(st.integers(0, 4294967295), st.sampled_from(['C', 'C.UTF-8', 'POSIX', 'ko_KR.UTF-8']),
                       st.sampled_from(['UTC', 'Asia/Seoul', 'America/New_York', 'XYZ+13:45']))
    kinds = st.sampled_from(['xml', 'xml', 'embedded', 'events', 'models', 'records'])
    return [
        Test('histories', st.tuples(st.lists(one, min_size=1, max_size=3), st.lists(op, min_size=2, max_size=8),
                                    st.booleans()), check_history, 80, 4000),
        Test('siblings', st.tuples(
            one, st.lists(st.sampled_from(PARTS), min_size=1, max_size=2), st.lists(
                st.tuples(st.integers(0, 2), st.sampled_from(SOURCES), st.sampled_from(TARGETS),
                          st.integers(1, 2), st.sampled_from(SOURCES)), min_size=1, max_size=4),
            st.sampled_from([False, False, True])), check_siblings, 90, 4000),
        Test('wild histories', st.tuples(st.lists(wild, min_size=2, max_size=3), st.lists(
            st.tuples(st.integers(0, 2), st.sampled_from(SOURCES), st.sampled_from(
                ['xml', 'flat', 'text', 'models', 'records', 'views'])), min_size=2, max_size=6), st.booleans()),
             check_history, 50, 2000),
        Test('processes', st.tuples(st.lists(one, min_size=1, max_size=2), st.lists(op, min_size=3, max_size=8),
                                    st.lists(setups, min_size=1, max_size=2)), check_process, 40, 1500),
        Test('interleaved', st.tuples(st.lists(st.one_of(docs, wild), min_size=1, max_size=3), st.lists(
            st.tuples(st.integers(0, 2), kinds, st.one_of(st.none(), st.none(), st.integers(0, 300))),
            min_size=2, max_size=4), st.lists(st.integers(0, 3), min_size=1, max_size=12)),
             check_interleaved, 250, 10000),
        Test('overwriting', st.tuples(st.lists(one, min_size=2, max_size=3), st.lists(
            st.tuples(st.integers(0, 2), st.integers(0, len(COMMANDS) - 1)), min_size=2, max_size=5)),
             check_overwrite, 60, 4000),
        Test('listing', st.tuples(one, st.lists(st.integers(0, 99), min_size=2, max_size=3)), check_listed, 40, 3000),
    ]
