# -*- coding: utf-8 -*-
import os

from hypothesis import strategies as st

from lib import cfb, cli, docgen, env, gen, propset
from lib.memstg import MemStorage, MemStream
from lib.runner import Test, eq, fail, ok

RULE = ('a file with the compound file signature, or a storage with a FileHeader, that is not '
        'simply a valid document')

MAGIC = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1'
SIGNATURE = b'HWP Document File' + b'\0' * 15


# ---------------------------------------------------------------- file headers
@st.composite
def headers(draw):
    '''contents of FileHeader: bytes, a storage or None'''
    kind = draw(st.sampled_from(['valid', 'valid', 'short', 'short', 'signature', 'random', 'storage',
                                 'absent', 'v3', 'long', 'filled']))
    good = gen.fileheader((5, 0, 3, 4), draw(st.sampled_from([0, 1])))
    if kind == 'short':
        return good[:draw(gen.ints(0, 255))]
    if kind == 'signature':
        i = draw(gen.ints(0, 31))
        b = bytearray(good)
        b[i] ^= draw(st.integers(1, 255))
        return bytes(b)
    if kind == 'random':
        return draw(st.binary(max_size=300))
    if kind == 'storage':
        return draw(st.sampled_from([{}, {'x': b''}, {'FileHeader': good}]))
    if kind == 'absent':
        return None
    if kind == 'v3':
        return (b'HWP Document File V3.00 \x1a\1\2\3\4\5').ljust(256, b'\0')
    if kind == 'long':
        return good + b'x' * draw(st.sampled_from([1, 256, 5000]))
    if kind == 'filled':
        return good[:17] + b' ' * 15 + good[32:]
    return good


def valid(header):
    return isinstance(header, bytes) and len(header) >= 256 and header[:32] == SIGNATURE


def tree_with(header, extra=b''):
    tree = gen.minimal_doc([b''])
    del tree['FileHeader']
    if header is not None:
        tree['FileHeader'] = header
    tree['PrvImage'] = extra
    return tree


# ---------------------------------------------------------------- files
EDITS = st.lists(st.tuples(
    st.sampled_from(['header', 'fat', 'dir', 'any', 'word', 'word']), st.integers(0, 10 ** 6),
    st.one_of(st.integers(0, 2 ** 32 - 1), st.sampled_from(
        [0, 1, 0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffffc, 0x7fffffff, 0x80000000]))),
    max_size=6)


@st.composite
def files(draw):
    '''(kind, bytes, certainly valid: True, False or None if unknown)'''
    kind = draw(st.sampled_from(['random', 'magic', 'container', 'container', 'damaged', 'damaged',
                                 'damaged', 'cut', 'cut', 'other']))
    if kind == 'random':
        return kind, draw(st.one_of(st.binary(max_size=1000),
                                    st.sampled_from([b'', b'\0' * 512, b'HWP Document File', b'PK\3\4'])))
    if kind == 'magic':
        n = draw(st.sampled_from([0, 1, 24, 60, 68, 504, 505, 511, 512, 1024, 1528, 4096]))
        body = draw(st.sampled_from(['zero', 'ones', 'random']))
        return kind, MAGIC + (b'\0' * n if body == 'zero' else b'\xff' * n if body == 'ones' else
                              gen.patterned(n, draw(st.integers(0, 99))))
    if kind == 'other':
        return kind, draw(st.sampled_from(['text', 'xml', 'odt', 'v3', 'magic only']))
    header = draw(headers())
    tree = tree_with(header, gen.patterned(draw(st.sampled_from([0, 100, 5000])), 1))
    data = cfb.build(tree, version=draw(st.sampled_from([3, 3, 4])),
                     layout=draw(st.one_of(st.none(), st.integers(0, 99))))
    if kind == 'container':
        return kind, (data, valid(header))
    if kind == 'cut':
        return kind, data[:draw(gen.ints(8, len(data)))]
    b = bytearray(data)
    for where, at, value in draw(EDITS):
        if where == 'header':
            pos = draw(st.sampled_from([24, 26, 28, 30, 32, 40, 44, 48, 52, 56, 60, 64, 68, 72, 76]))
        elif where == 'dir':
            ssz = 1 << (b[30] if b[30] in (9, 12) else 9)
            start = int.from_bytes(data[48:52], 'little')
            entry = (start + 1) * ssz + at % 8 * 128
            pos = entry + draw(st.sampled_from([0, 64, 66, 67, 68, 72, 76, 116, 120, 124]))
        elif where == 'fat':
            start = int.from_bytes(data[76:80], 'little')
            pos = (start + 1) * 512 + at % 128 * 4
        else:
            pos = at % len(b)
        size = 1 if where == 'any' else 4
        piece = (value & (1 << 8 * size) - 1).to_bytes(size, 'little')
        if pos + size <= len(b):
            b[pos:pos + size] = piece
    return kind, bytes(b)


OTHER = {'text': b'plain text\n' * 100, 'xml': b'<?xml version="1.0"?><a/>' * 50,
         'odt': b'PK\x03\x04' + b'\0' * 600, 'magic only': MAGIC,
         'v3': b'HWP Document File V3.00 \x1a\1\2\3\4\5' + b'\0' * 2000}


def opened(make):
    '''the version of the document, or 'invalid' '''
    from hwp5.errors import InvalidHwp5FileError
    try:
        f = make()
    except InvalidHwp5FileError as e:
        ok(str(e), 'the error has no message')
        return 'invalid', None
    sig = f.header.signature
    eq(sig, SIGNATURE, 'signature of an opened document')
    return 'opened', tuple(f.header.version)


def check_file(case, rec):
    kind, data = case
    expected = None
    if kind == 'container':
        data, expected = data
    elif kind in ('random', 'magic'):
        expected = False
    elif kind == 'other':
        data, expected = OTHER[data], False
    rec.label(kind)
    rec.nontrivial(data.startswith(MAGIC) and kind != 'magic' and expected is not True)
    from hwp5 import filestructure, xmlmodel
    from hwp5.storage.ole import OleStorage
    from hwp5.errors import InvalidOleStorageError
    with gen.workdir() as d:
        path = os.path.join(d, 'f.hwp')
        with open(path, 'wb') as f:
            f.write(data)
        verdict = filestructure.is_hwp5file(path)
        ok(verdict is True or verdict is False, 'is_hwp5file returned %r', verdict)
        for cls in (filestructure.Hwp5File, xmlmodel.Hwp5File):
            got, version = opened(lambda: cls(path))
            eq(got == 'opened', verdict, '%s opens it / is_hwp5file' % cls.__module__)
        if expected is not None:
            eq(verdict, expected, 'is_hwp5file')
        rec.label('opened' if verdict else 'rejected')
        try:
            OleStorage(path).close()
        except InvalidOleStorageError:
            rec.label('not a container')
            ok(not verdict, 'a document that is not a container')
        with open(path, 'rb') as f:
            ok(f.read() == data, 'the file was changed')


COMMANDS = [('hwp5proc', c) for c in (
    ['version'], ['header'], ['summaryinfo'], ['ls'], ['ls', '--vstreams'], ['cat', '@', 'FileHeader'],
    ['unpack', '@', 'out'], ['records', '@', 'DocInfo'], ['models', '@', 'docinfo'],
    ['models', '@', 'bodytext/0'], ['find', '--model=Paragraph'], ['xml'], ['xml', '--format=flat'],
    ['diststream', '--sha1', '@', 'ViewText/Section0'], ['ls', '--ole'], ['cat', '--ole', '@', 'x'],
    ['unpack', '--ole', '@', 'out'])] + [
    ('hwp5txt', ['@']), ('hwp5txt', ['--output=o.txt', '@']), ('hwp5html', ['--output=o', '@']),
    ('hwp5html', ['--html', '@']), ('hwp5html', ['--css', '@']), ('hwp5odt', ['--output=o.odt', '@']),
    ('hwp5odt', ['--document', '@']), ('hwp5odt', ['--styles', '@']),
    ('hwp5odt', ['--content', '@'])]


def check_cli(case, rec):
    (kind, data), n = case
    if kind == 'container':
        data, expected = data
    elif kind == 'other':
        data = OTHER[data]
    from hwp5.filestructure import is_hwp5file
    from hwp5.storage.ole import OleStorage
    with gen.workdir() as d:
        path = os.path.join(d, 'f.hwp')
        with open(path, 'wb') as f:
            f.write(data)
        program, argv = COMMANDS[n % len(COMMANDS)]
        if '--ole' in argv:
            try:
                OleStorage(path).close()
                bad = False
            except Exception:
                bad = True
        else:
            bad = not is_hwp5file(path)
        if not bad:
            rec.label('skipped: valid')
            return
        rec.nontrivial(data.startswith(MAGIC))
        argv = [path if a == '@' else a for a in (argv if '@' in argv else argv + ['@'])]
        rec.label('%s %s' % (program, argv[0] if program == 'hwp5proc' else ''))
        before = set(os.listdir(d))
        r = cli.run(program, argv, cwd=d)
        ok(r.exc is None, '%s %r on a file that is not a document: %r', program, argv, r.exc)
        ok(r.rc != 0, '%s %r on a file that is not a document succeeded', program, argv)
        ok(r.err.strip(), '%s %r on a file that is not a document says nothing', program, argv)
        eq(r.out, b'', '%s %r on a file that is not a document prints' % (program, argv))
        eq(sorted(set(os.listdir(d)) - before), [], 'files left by %s %r' % (program, argv))


def check_storage(case, rec):
    '''documents given as storages of another kind'''
    header, how, n = case
    rec.nontrivial(header is not None)
    from hwp5 import binmodel, filestructure, recordstream, xmlmodel
    from hwp5.storage.fs import FileSystemStorage
    tree = tree_with(header)
    rec.label('valid' if valid(header) else 'invalid')
    with gen.workdir() as d:
        if how == 'memory':
            stg = MemStorage(tree)
        else:
            write_dir(tree, d)
            stg = FileSystemStorage(d)
        eq(filestructure.storage_is_hwp5file(stg), valid(header), 'storage_is_hwp5file')
        cls = [filestructure.Hwp5FileBase, filestructure.Hwp5File, recordstream.Hwp5File,
               binmodel.Hwp5File, xmlmodel.Hwp5File][n % 5]
        got, version = opened(lambda: cls(stg))
        eq(got == 'opened', valid(header), 'opening as %s' % cls)
        if got == 'opened':
            eq(version, (5, 0, 3, 4), 'version')


def write_dir(tree, d):
    for n, v in tree.items():
        p = os.path.join(d, n)
        if isinstance(v, dict):
            os.mkdir(p)
            write_dir(v, p)
        else:
            with open(p, 'wb') as f:
                f.write(v)


def tests(tier):
    return [
        Test('file', files(), check_file, 3000, 60000),
        Test('storage', st.tuples(headers(), st.sampled_from(['memory', 'fs']), st.integers(0, 4)),
             check_storage, 800, 10000),
        Test('cli', st.tuples(files(), st.integers(0, len(COMMANDS) - 1)), check_cli, 1500, 20000),
    ]
