# -*- coding: utf-8 -*-
import io
import os
import struct

from hypothesis import strategies as st
from lxml import etree

from lib import cli, docgen, encode, gen, propset
from lib.memstg import MemStorage
from lib.runner import Test, eq, fail, ok

RULE = 'at least 2 flags set and a version that differs from the usual one, or a preview text of 2 lines'

FLAGS = ['compressed', 'password', 'distributable', 'script', 'drm', 'xmltemplate_storage',
         'history', 'cert_signed', 'cert_encrypted', 'cert_signature_extra', 'cert_drm', 'ccl']
SIGNATURE = b'HWP Document File' + b'\0' * 15
BYTE = st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 5, 127, 128, 255]))
VERSIONS = st.one_of(st.tuples(BYTE, BYTE, BYTE, BYTE), st.sampled_from(
    [(5, 0, 0, 0), (5, 0, 3, 4), (5, 1, 0, 1), (5, 0, 1, 7), (255, 255, 255, 255)]))
FLAGWORDS = st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(0, 4095),
                      st.lists(st.integers(0, 11), max_size=4).map(
                          lambda l: sum(1 << b for b in set(l))))
TEXT = st.one_of(
    st.text(st.characters(exclude_categories=['Cs']), max_size=60),
    st.lists(st.text(st.characters(exclude_categories=['Cs'], exclude_characters='\r\n'),
                     max_size=20), max_size=5).map('\r\n'.join),
    st.builds(lambda s, n: s * n, st.sampled_from(['\ud55c', 'a\ud55c\U0001f600\r\n', '\n']),
              st.sampled_from([70, 72, 100, 1000, 3000])))
# a byte order mark is a character like any other
TEXT = st.one_of(TEXT, TEXT, TEXT, st.tuples(st.sampled_from(['\ufeff', '\ufffe', '\ufeff\ufeff', '\xff', '\ufdef']), TEXT).map(''.join))


def header_text(version, flags):
    d = {name: flags >> i & 1 for i, name in enumerate(FLAGS)}
    d['signature'] = 'HWP Document File'
    d['version'] = '%d.%d.%d.%d' % version
    return ''.join('%s: %s\n' % (k, d[k]) for k in sorted(d)).encode()


def describe(version, flags, rec):
    rec.nontrivial(bin(flags & 4095).count('1') >= 2 and version != (5, 0, 3, 4))
    for i, n in enumerate(FLAGS[:3]):
        if flags >> i & 1:
            rec.label(n)


def check_header(case, rec):
    version, flags, reserved, order, extra = case
    describe(version, flags, rec)
    from hwp5 import filestructure as fs
    blob = gen.fileheader(version, flags, gen.patterned(216, reserved))
    eq(len(blob), 256, 'header length')
    tree = gen.minimal_doc([b''], flags=flags, version=version)
    tree['FileHeader'] = blob + extra
    views = [
        ('version', lambda f: tuple(f.header.version), version),
        ('fileheader', lambda f: tuple(f.fileheader.version), version),
        ('signature', lambda f: f.header.signature, SIGNATURE),
        ('flags', lambda f: [int(getattr(f.header.flags, n)) for n in FLAGS],
         [flags >> i & 1 for i in range(12)]),
        ('flag word', lambda f: int(f.header.flags), flags),
        ('value', lambda f: dict(f.header.value), {
            'signature': SIGNATURE, 'version': version, 'flags': flags,
            'reserved': gen.patterned(216, reserved)}),
        ('text', lambda f: f.header.open_text().read(), header_text(version, flags)),
        ('bytes', lambda f: f['FileHeader'].open().read(), blob + extra),
        ('is_hwp5', lambda f: fs.storage_is_hwp5file(MemStorage(tree)), True),
    ]
    from hwp5 import binmodel, recordstream, xmlmodel
    classes = [fs.Hwp5File, recordstream.Hwp5File, binmodel.Hwp5File, xmlmodel.Hwp5File]
    f = classes[order[0] % 4](MemStorage(tree))
    for n in order:
        name, get, want = views[n % len(views)]
        got = get(f)
        if name == 'value':
            got = dict(got, version=tuple(got['version']), flags=int(got['flags']))
        eq(got, want, '%s (version %r, flags %#x)' % (name, version, flags))
    # every stream that has versions knows the version
    if not flags & 6:
        for s in (f.docinfo, f.bodytext, f.bodytext.section(0)):
            eq(tuple(s.version), version, 'version of a stream')


def check_layers(case, rec):
    '''which layers are applied to which stream'''
    flags, version, data, seed, spec = case
    describe(version, flags, rec)
    from hwp5.filestructure import Hwp5File
    head = gen.patterned(252, seed)
    data = data + b'.' * (-len(data) % 16)

    def layered(name):
        '''(stored, seen)'''
        if flags & 2:
            return data, data
        b = data
        if flags & 1 and name in ('DocInfo', 'BodyText', 'ViewText', 'BinData', 'Scripts'):
            b = encode.deflate(b, spec)
        if flags & 4 and name in ('ViewText', 'Scripts'):
            b = encode.distribute(b, seed, head, 0)
        return b, data
    tree = {'FileHeader': gen.fileheader(version, flags),
            '\x05HwpSummaryInformation': propset.simple(),
            'PrvText': 'x'.encode('utf-16le'), 'PrvImage': data, 'DocInfo': layered('DocInfo')[0]}
    for n, k in (('BodyText', 'Section0'), ('ViewText', 'Section0'), ('BinData', 'BIN0001.png'),
                 ('Scripts', 'DefaultJScript'), ('DocOptions', '_LinkDoc')):
        tree[n] = {k: layered(n)[0]}
    f = Hwp5File(MemStorage(tree))
    for n in ('DocInfo', 'PrvImage', 'BodyText/Section0', 'ViewText/Section0', 'BinData/BIN0001.png',
              'Scripts/DefaultJScript', 'DocOptions/_LinkDoc'):
        item = f
        for seg in n.split('/'):
            item = item[seg]
        want = data
        eq(item.open().read(), want, '%s (flags %#x)' % (n, flags))
    if not flags & 2:
        eq(f.text.section(0).open().read(), data, 'text')
    text = f.text
    eq(list(text), ['Section0'], 'text')
    ok((text is f.viewtext) == bool(flags & 4), 'the wrong text storage (flags %#x)', flags)


def check_preview(case, rec):
    text, sizes, order = case
    rec.nontrivial(text.count('\n') >= 1)
    from hwp5.filestructure import Hwp5File
    tree = gen.minimal_doc([b''])
    raw = text.encode('utf-16le')
    tree['PrvText'] = raw
    utf8 = text.encode('utf-8')
    f = Hwp5File(MemStorage(tree))

    def pieces(open):
        s = open()
        out = b''
        for n in sizes:
            d = s.read(n)
            out += d
        while True:
            d = s.read(7)
            if not d:
                return out
            out += d
    views = [('text', lambda: f.preview_text.text, text),
             ('str', lambda: str(f.preview_text), text),
             ('utf8', lambda: f.preview_text.utf8, utf8),
             ('bytes', lambda: f.preview_text.open().read(), raw),
             ('get_utf8', lambda: f.preview_text.get_utf8(), utf8),
             ('get_text', lambda: f.preview_text.get_text(), text),
             ('open_utf8', lambda: f.preview_text.open_utf8().read(), utf8),
             ('pieces', lambda: pieces(f.preview_text.open_utf8), utf8),
             ('other_formats', lambda: pieces(f['PrvText'].other_formats()['.utf8']), utf8)]
    for n in order:
        name, get, want = views[n % len(views)]
        eq(get(), want, name)


def check_longpreview(case, rec):
    text, n, order = case
    rec.nontrivial()
    check_preview((text * n, [], order), rec)


def check_cli(case, rec):
    version, flags, text, doc = case
    describe(version, flags, rec)
    from hwp5.filestructure import is_hwp5file
    tree = gen.minimal_doc([b'body' * 8], flags=flags, version=version)
    tree['PrvText'] = text.encode('utf-16le')
    with gen.workdir() as d:
        path = gen.write_ole(tree, os.path.join(d, 'd.hwp'))
        eq(is_hwp5file(path), True, 'is_hwp5file')
        eq(cli.success('hwp5proc', ['version', path]).out, b'%d.%d.%d.%d\n' % version, 'version')
        want = header_text(version, flags)
        eq(cli.success('hwp5proc', ['header', path]).out, want, 'header')
        eq(cli.success('hwp5proc', ['cat', '--vstreams', path, 'FileHeader.txt']).out, want,
           'FileHeader.txt')
        eq(cli.success('hwp5proc', ['cat', '--vstreams', path, 'PrvText.utf8']).out,
           text.encode('utf-8'), 'PrvText.utf8')
        if flags & 2:
            for n in ('DocInfo', 'BodyText/Section0'):
                want = tree
                for seg in n.split('/'):
                    want = want[seg]
                eq(cli.success('hwp5proc', ['cat', path, n]).out, want, n)
        # the whole document
        path = gen.write_ole(doc.tree(), os.path.join(d, 'x.hwp'))
        root = etree.fromstring(cli.success('hwp5proc', ['xml', path]).out,
                                etree.XMLParser(huge_tree=True))
        eq(root.get('version'), '%d.%d.%d.%d' % tuple(doc.version), 'version in the document XML')


def tests(tier):
    order = st.lists(st.integers(0, 8), min_size=1, max_size=14)
    return [
        Test('header', st.tuples(VERSIONS, FLAGWORDS, st.integers(0, 99), order,
                                 st.sampled_from([b'', b'', b'\0', b'more'])),
             check_header, 1500, 30000),
        Test('layers', st.tuples(FLAGWORDS, VERSIONS, st.one_of(
            st.binary(max_size=50), st.builds(gen.patterned, st.sampled_from([4096, 9000]),
                                              st.integers(0, 3))),
            st.integers(0, 2 ** 32 - 1), encode.specs()), check_layers, 800, 15000),
        Test('preview', st.tuples(TEXT, st.lists(st.integers(1, 300), max_size=5), order),
             check_preview, 800, 20000),
        Test('long previews', st.tuples(
            st.text(st.characters(exclude_categories=['Cs']), min_size=1, max_size=40),
            st.sampled_from([30000, 700, 100000]), st.lists(st.integers(0, 6), min_size=1, max_size=4)),
             check_longpreview, 32, 400),
        Test('cli', st.tuples(VERSIONS, FLAGWORDS, TEXT, docgen.docs(mode='sane', maxparas=1)),
             check_cli, 300, 5000),
    ]
