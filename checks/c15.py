# -*- coding: utf-8 -*-
import base64
import io
import re
import time

from hypothesis import strategies as st

from lib import cli, docgen, gen, refxml
from lib.runner import Test, eq, fail, ok

RULE = 'at least one embedded item with data that is not empty, beside another item'

SIZES = [0, 1, 2, 3, 46, 47, 48, 49, 50, 95, 96, 97, 143, 144, 4095, 4096, 4097, 65536, 100001]


@st.composite
def cases(draw, **kw):
    doc = draw(docgen.docs(mode='sane', images=4, links=True, flags=draw(st.integers(0, 1)),
                           weights=docgen.TEXTS, maxparas=3, info='small', **kw))
    for n in sorted(doc.bindata):
        k = draw(st.integers(0, 3))
        if k == 0:
            doc.bindata[n] = draw(st.binary(max_size=200))
        elif k == 1:
            doc.bindata[n] = gen.patterned(draw(st.sampled_from(SIZES)), draw(st.integers(0, 3)))
        elif k == 2:
            doc.bindata[n] = draw(st.sampled_from([
                b'\x03\0', b'<a>&amp;</a>', b'\r\n' * 40, b'\0' * 300, b'\xff' * 64]))
    if draw(st.integers(0, 3)) == 0:
        # a stream that no item declares
        doc.bindata['BIN7FFF.dat'] = b'undeclared'
    return doc


def items(doc):
    '''the BinData records: (kind, storage id or None, ext)'''
    from lib import layout as L
    out = []
    for e in doc.docinfo:
        for r in e.records():
            if r.name == 'BinData':
                b = r.content.get('bindata') or {}
                out.append((r.content['flags'] & 15, b.get('storage_id'), b.get('ext')))
    return out


def verify(data, doc, rec, embedded):
    root = refxml.parse(data)
    exp = refxml.expected(doc)
    want = items(doc)
    got = list(root.iter('BinData'))
    eq(len(got), len(want), 'number of BinData elements')
    n = 0
    for (kind, sid, ext), x in zip(want, got):
        kids = [k for k in x.kids if not isinstance(k, str)]
        e = [k for k in kids if k.name == 'BinDataEmbedding']
        if kind != 1:
            eq(e, [], 'embeddings of an item of storage type %d' % kind)
            eq(x.text().strip(), '', 'data of an item of storage type %d' % kind)
            rec.label('link' if kind == 0 else 'storage')
            continue
        eq(len(e), 1, 'embeddings of an item')
        e = e[0]
        name = 'BIN%04X.%s' % (sid, ext)
        eq((e.attrs['storage-id'], e.attrs['ext']), ('BIN%04X' % sid, ext), 'names')
        if not embedded:
            eq(e.text(), '', 'data that was not asked for')
            ok('inline' not in e.attrs, 'inline without data')
            continue
        eq(e.attrs.pop('inline', None), 'true', 'inline')
        text = e.text()
        ok(re.match(r'^[A-Za-z0-9+/=\s]*$', text), 'text is not base64: %.60r', text)
        raw = base64.b64decode(text)
        if raw != doc.bindata[name]:
            fail('%s: %d bytes %.40r instead of %d bytes %.40r', name, len(raw), raw,
                 len(doc.bindata[name]), doc.bindata[name])
        e.kids = []
        n += len(raw) > 0
        rec.label('empty' if not raw else 'embedded')
    if n and len(want) > 1:
        rec.nontrivial()
    # the rest of the document is as without the data
    root.kids = [k for k in root.kids if isinstance(k, str) or k.name != 'HwpSummaryInfo']
    exp.kids = [k for k in exp.kids if isinstance(k, str) or k.name != 'HwpSummaryInfo']
    d = refxml.diff(strip(exp), strip(root))
    if d:
        fail('%s', d)


def strip(x):
    for t in x.iter('TableBody'):
        t.attrs.pop('rowcols', None)
    return x


def dump(hwp5file, **kw):
    f = io.BytesIO()
    hwp5file.xmlevents(**kw).dump(f)
    return f.getvalue()


def check_api(case, rec):
    '''the same document, with and without data, in any order'''
    doc, order = case
    f = doc.hwp5file()
    for embed in order:
        kw = {} if embed is None else dict(embedbin=embed)
        verify(dump(f, **kw), doc, rec, bool(embed))
        rec.label(str(embed))


def check_transform(case, rec):
    doc, embed = case
    from hwp5.transforms import BaseTransform
    rec.label(str(embed))
    T = BaseTransform(embedbin=embed)
    with T.transformed_xhwp5_at_temp(doc.hwp5file()) as path:
        with open(path, 'rb') as f:
            verify(f.read(), doc, rec, embed)


def check_cli(case, rec):
    doc, opts, to = case
    rec.label(' '.join(opts))
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/a.hwp')
        if to == 'output':
            cli.success('hwp5proc', ['xml'] + opts + ['--output', d + '/o.xml', path])
            with open(d + '/o.xml', 'rb') as f:
                out = f.read()
        else:
            out = cli.success('hwp5proc', ['xml'] + opts + [path]).out
    verify(out, doc, rec, '--embedbin' in opts)


def check_large(case, rec):
    '''an image as large as photographs are'''
    doc, size, target = case
    names = [n for n in doc.bindata]
    if not names:
        return
    data = gen.patterned(size, 1)
    doc.bindata[names[0]] = data
    doc.flags = 0
    rec.nontrivial()
    rec.label(target)
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/a.hwp')
        started = time.process_time()
        if target == 'odt':
            cli.success('hwp5odt', ['--document', '--output', d + '/o', path])
        else:
            cli.success('hwp5proc', ['xml', '--embedbin', '--output', d + '/o', path])
        # usually less than a second; quadratic embedding takes far longer
        spent = time.process_time() - started
        ok(spent < 12, 'embedding %d bytes took %.1f s of CPU time', size, spent)
        with open(d + '/o', 'rb') as f:
            out = f.read()
    pieces = re.findall(rb'>([A-Za-z0-9+/=\s]{100000,})<', out)
    if target == 'xml' or pieces:       # the OpenDocument has the images that are shown
        ok(data in [base64.b64decode(x) for x in pieces], '%d bytes are not embedded intact', size)


def tests(tier):
    embed = st.sampled_from([None, False, True, True])
    return [
        Test('API', st.tuples(cases(), st.lists(embed, min_size=1, max_size=3)), check_api,
             1500, 40000),
        Test('conversion input', st.tuples(cases(), st.booleans()), check_transform, 500, 15000),
        Test('command line', st.tuples(cases(), st.sampled_from(
            [['--embedbin'], ['--embedbin'], [], ['--embedbin', '--no-xml-decl'],
             ['--embedbin', '--no-validate-wellformed'], ['--embedbin', '--format=nested']]),
            st.sampled_from(['stdout', 'output'])), check_cli, 500, 15000),
        Test('large XML', st.tuples(docgen.docs(mode='sane', images=1, maxparas=3),
                                    st.integers(76 * 10 ** 5, 9 * 10 ** 6), st.just('xml')), check_large, 8, 60),
        Test('large OpenDocument', st.tuples(docgen.docs(mode='sane', images=1, maxparas=3),
                                             st.integers(76 * 10 ** 5, 9 * 10 ** 6), st.just('odt')), check_large,
             8, 60),
    ]
