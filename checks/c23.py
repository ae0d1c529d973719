# -*- coding: utf-8 -*-
import io

from hypothesis import strategies as st

from lib import cli, docgen, encode, gen
from lib.memstg import MemStorage
from lib.runner import Test, eq, fail, ok

RULE = ('a document with more than one section, paragraph or binary item, or a stream of at least '
        '50 bytes')

LAYERED = ['BinData', 'BodyText', 'ViewText', 'Scripts']


def tree_of(doc, compressed, specs):
    '''specs: how the streams are deflated, in turn; None to store one as it is'''
    i = [0]

    def z(data):
        if not compressed:
            return data
        s = specs[i[0] % len(specs)]
        i[0] += 1
        if s is None:
            return encode.deflate(data) if encode.looks_deflated(data) else data
        return encode.deflate(data, s)
    t = doc.tree()
    return {'FileHeader': gen.fileheader(doc.version, 1 if compressed else 0),
            'DocInfo': z(doc.docinfo_bytes()),
            '\x05HwpSummaryInformation': t['\x05HwpSummaryInformation'],
            'PrvText': 'preview \uac00'.encode('utf-16le'),
            'BodyText': {n: z(doc.section_bytes(int(n[7:]))) for n in t['BodyText']},
            'BinData': {n: z(d) for n, d in doc.bindata.items()}}


def outputs(tree, doc, which):
    from hwp5 import binmodel, xmlmodel
    from hwp5.xmldump_flat import xmlevents_from_hwp5file
    from hwp5.xmlformat import xmlevents_to_bytechunks
    stg = MemStorage(tree)
    out = {}
    b = binmodel.Hwp5File(stg)
    streams = [('DocInfo', b.docinfo)] + [('Section%d' % i, b.bodytext.section(i))
                                          for i in b.bodytext.section_indexes()]
    for name, s in streams:
        out[name + ' records'] = [(r['tagid'], r['level'], r['size'], bytes(r['payload']))
                                  for r in s.records()]
        out[name + ' models'] = s.models_json().open().read()
        out[name + ' bytes'] = s.open().read()
    out['binary items'] = {n: b['BinData'][n].open().read() for n in b['BinData']}
    x = xmlmodel.Hwp5File(stg)
    f = io.BytesIO()
    x.xmlevents(embedbin=True).dump(f)
    out['xml'] = f.getvalue()
    if which in ('flat', 'all'):
        data = b''.join(xmlevents_to_bytechunks(xmlevents_from_hwp5file(x)))
        i, j = data.index(b'<FileHeader'), data.index(b'</FileHeader>')
        out['flat xml'] = data[:i] + data[j:]
    for kind, cls, m in CONVERSIONS:
        if which in (kind, 'all'):
            if kind not in _T:
                _T[kind] = getattr(__import__('hwp5.hwp5' + cls[0], fromlist=['x']), cls[1])()
                if kind == 'odt':
                    _T[kind].relaxng_compile = None
            f = io.BytesIO()
            getattr(_T[kind], m)(x, f)
            out[kind] = f.getvalue()
    return out


_T = {}
CONVERSIONS = [('txt', ('txt', 'TextTransform'), 'transform_hwp5_to_text'),
               ('html', ('html', 'HTMLTransform'), 'transform_hwp5_to_xhtml'),
               ('odt', ('odt', 'ODTTransform'), 'transform_hwp5_to_single_document')]


def label(doc, rec, specs):
    if len(doc.sections) > 1 or len(list(doc.paragraphs())) > 1 or doc.bindata:
        rec.nontrivial()
    for s in specs:
        rec.label('stored as it is' if s is None else 'stored blocks' if 'stored' in s
                  else 'level %d' % s.get('level', 6))


def check_docs(case, rec):
    doc, specs, which = case
    label(doc, rec, specs)
    rec.label(which)
    plain = outputs(tree_of(doc, False, specs), doc, which)
    comp = outputs(tree_of(doc, True, specs), doc, which)
    eq(sorted(plain), sorted(comp), 'outputs')
    eq(plain['DocInfo bytes'], doc.docinfo_bytes(), 'DocInfo bytes')
    for n in sorted(plain):
        if plain[n] != comp[n]:
            fail('%s of the compressed document: %.300r instead of %.300r', n, comp[n], plain[n])


SIZES = st.one_of(st.integers(0, 300), st.sampled_from(
    [4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 300000]))
DATA = st.one_of(st.binary(max_size=80),
                 st.builds(gen.patterned, SIZES, st.integers(0, 3)),
                 st.builds(lambda n, b: bytes([b]) * n, SIZES, st.integers(0, 255)))


@st.composite
def containers(draw):
    '''{path: (data, spec)} of the streams below the compressed storages'''
    out = {}
    for i in range(draw(st.integers(1, 4))):
        top = draw(st.sampled_from(LAYERED))
        name = {'BinData': 'BIN%04X.dat' % i, 'BodyText': 'Section%d' % i,
                'ViewText': 'Section%d' % i, 'Scripts': 'DefaultJScript%d' % i}[top]
        out[top, name] = (draw(DATA), draw(st.one_of(st.none(), encode.specs(), encode.specs())))
    out['DocInfo', None] = (draw(DATA), draw(st.one_of(st.none(), encode.specs())))
    return out


def check_streams(case, rec):
    '''streams with any content'''
    streams, reads, outer = case
    tree = {'FileHeader': gen.fileheader(flags=1), 'PrvText': b'x\0', 'BodyText': {}}
    want = {}
    for (top, name), (data, spec) in sorted(streams.items(), key=lambda kv: str(kv[0])):
        if spec is None and encode.looks_deflated(data):
            spec = {}
        raw = data if spec is None else encode.deflate(data, spec)
        rec.label('as it is' if spec is None else 'compressed')
        if name is None:
            tree[top] = raw
        else:
            tree.setdefault(top, {})[name] = raw
        want[top, name] = data
        if len(data) >= 50:
            rec.nontrivial()
    tree['Other'] = encode.deflate(b'not a compressed stream of the document')
    from hwp5 import binmodel, filestructure, xmlmodel
    mod = {0: filestructure, 1: binmodel, 2: xmlmodel}[outer]
    with gen.workdir() as d:
        stg = MemStorage(tree)
        if outer == 0:
            stg = gen.write_ole(tree, d + '/a.hwp')
        f = mod.Hwp5File(stg)
        for (top, name), data in want.items():
            item = f[top] if name is None else f[top][name]
            for again in range(2):
                s = item.open()
                got, n = b'', 0
                while n < len(reads):
                    got += s.read(reads[n])
                    n += 1
                got += s.read()
                ok(got == data, '%s/%s: %d bytes %.60r instead of %d bytes %.60r', top, name,
                   len(got), got, len(data), data)
                eq(s.read(), b'', 'read after the end')
        eq(f['PrvText'].open().read(), b'x\0', 'stream outside the compression')
        eq(f['Other'].open().read(), tree['Other'], 'stream outside the compression')


def check_huge(case, rec):
    '''far more data than an ordinary document has'''
    huge, top, level = case
    data = gen.repeated(huge)
    rec.label(top)
    rec.nontrivial()
    from hwp5 import binmodel
    name = {'BinData': 'BIN0001.dat', 'BodyText': 'Section0', 'DocInfo': None}[top]
    raw = encode.deflate(data, {'level': level})
    tree = {'FileHeader': gen.fileheader(flags=1), 'BodyText': {}}
    tree[top] = raw if name is None else {name: raw}
    f = binmodel.Hwp5File(MemStorage(tree))
    got = (f[top] if name is None else f[top][name]).open().read()
    ok(got == data, '%d bytes instead of %d', len(got), len(data))


def check_cli(case, rec):
    doc, specs, cmd = case
    label(doc, rec, specs)
    rec.label(cmd[0])
    res = []
    with gen.workdir() as d:
        for c in (False, True):
            path = gen.write_ole(tree_of(doc, c, specs), d + '/a.hwp')
            argv = [path if a == '@' else a for a in cmd[1:]]
            r = cli.success(cmd[0], argv)
            res.append(r.out.replace(path.encode(), b'@'))
    if res[0] != res[1]:
        fail('%r of the compressed document: %.300r instead of %.300r', cmd, res[1], res[0])


CMDS = [('hwp5proc', 'cat', '@', 'DocInfo'), ('hwp5proc', 'cat', '@', 'BodyText/Section0'),
        ('hwp5proc', 'records', '@', 'DocInfo'),
        ('hwp5proc', 'records', '--raw', '@', 'BodyText/Section0'),
        ('hwp5proc', 'records', '--json', '@', 'BodyText/Section0'),
        ('hwp5proc', 'models', '--json', '@', 'BodyText/Section0'),
        ('hwp5proc', 'models', '--simple', '@', 'DocInfo'),
        ('hwp5proc', 'xml', '--embedbin', '@'), ('hwp5proc', 'ls', '--vstreams', '@'),
        ('hwp5proc', 'find', '--model=Paragraph', '@'), ('hwp5proc', 'summaryinfo', '@'),
        ('hwp5txt', '@'), ('hwp5html', '--html', '@')]


def tests(tier):
    specs = st.lists(st.one_of(st.none(), encode.specs(), encode.specs()), min_size=1, max_size=4)
    docs = docgen.docs(mode='sane', images=3, links=True, maxparas=6)
    return [
        Test('documents', st.tuples(docs, specs, st.sampled_from(
            ['models', 'flat', 'txt', 'html', 'odt'])), check_docs, 600, 20000),
        Test('streams', st.tuples(containers(), st.lists(st.one_of(
            st.integers(0, 70), st.sampled_from([4096, 8192, 70000])), max_size=4),
            st.integers(0, 2)), check_streams, 1500, 40000),
        Test('huge streams', st.tuples(
            gen.hugedata(),
            st.sampled_from(['BinData', 'BodyText', 'DocInfo']), st.integers(1, 9)), check_huge, 40, 400),
        Test('command line', st.tuples(docs, specs, st.sampled_from(CMDS)), check_cli, 500, 12000),
    ]
