# -*- coding: utf-8 -*-
import xml.parsers.expat
from io import BytesIO

from hypothesis import strategies as st

from lib import big, docgen, project, refxml
from lib.runner import Test, eq, ok, fail
from .xmldoc import VIA, big_checker, big_docs, checker, paras, trees

RULE = ('some paragraph has text divided by a character shape or line boundary, or contains a '
        'character that needs escaping or replacement in XML')


def label(doc, rec):
    for p in paras(doc):
        t = p.text()
        for cond, name in ((len(p.shapes) > 1 and t, 'several shapes'),
                           (p.lines and len(p.lines) > 1 and t, 'several lines'),
                           (t and (set(t) & set('<>&"') or refxml.legal(t) != t), 'special characters'),
                           (any(ord(c) > 0xffff for c in t), 'supplementary characters')):
            if cond:
                rec.nontrivial()
                rec.label(name)
        if p.lines is None:
            rec.label('no line segments')
        if not p.items:
            rec.label('no text')


def longlabel(doc, rec):
    for p in paras(doc):
        if p.units() > 0xffff:
            rec.nontrivial()
            rec.label('%d boundaries' % len(p.shapes))


def wellformed(doc, rec):
    '''two independent parsers; the summary and document information included'''
    label(doc, rec)
    out = BytesIO()
    doc.hwp5file().xmlevents().dump(out)
    p = xml.parsers.expat.ParserCreate()
    names, depth = [], [0, 0]

    def start(name, attrs):
        if depth[0] == 1:
            names.append(name)
        if depth[0] == 0:
            eq(name, 'HwpDoc', 'document element')
            depth[1] += 1
        depth[0] += 1

    def end(name):
        depth[0] -= 1
    p.StartElementHandler, p.EndElementHandler = start, end
    p.Parse(out.getvalue(), True)
    eq(names, ['HwpSummaryInfo', 'DocInfo', 'BodyText'], 'children of HwpDoc')
    eq(depth, [0, 1], 'number of document elements')


view = project.text_positions

ENCODINGS = ['utf-16', 'ascii', 'cp949', 'utf-8', 'utf-8-sig', 'iso-8859-1', 'utf-32', 'gb18030', 'koi8-r']


def encodings(case, rec):
    '''the bytes are the same document in whatever encoding the caller names'''
    doc, encoding, how = case
    label(doc, rec)
    rec.label(encoding)
    events = doc.hwp5file().xmlevents()
    if how == 'open':
        with events.open(xml_encoding=encoding) as f:
            data = f.read()
    elif how == 'chunks':
        data = b''.join(events.bytechunks(xml_encoding=encoding, xml_declaration=False))
    else:
        out = BytesIO()
        events.dump(out, xml_encoding=encoding)
        data = out.getvalue()
    text = data.decode(encoding)
    decl, _, body = text.rpartition('?>')
    if how == 'chunks':
        eq(decl, '', 'XML declaration')
    else:
        eq(decl, '<?xml version="1.0" encoding="%s"' % encoding, 'XML declaration')
    d = project.first_difference(view(refxml.expected(doc)), view(refxml.parse(body.encode('utf-8'))))
    if d:
        fail('%s', d)


def tests(tier):
    texts = docgen.docs(weights=docgen.TEXTS, info='small', maxparas=6)
    return [
        Test('texts', texts, checker(view, label), 900, 40000),
        Test('documents', docgen.docs(info='small'), checker(view, label), 500, 20000),
        Test('long paragraphs', docgen.longdocs(), checker(view, longlabel), 24, 600),
        Test('many runs', big_docs([300, 20, 70, 1500]), big_checker(view, big.runs, 70), 60, 2000),
        Test('well-formed', docgen.docs(maxparas=5), wellformed, 300, 10000),
        Test('encodings', st.tuples(texts, st.sampled_from(ENCODINGS),
                                    st.sampled_from(['dump', 'open', 'chunks'])), encodings, 300, 10000),
        Test('command line', st.tuples(docgen.docs(maxparas=5), st.sampled_from(VIA)),
             checker(view, label, True), 150, 5000),
    ]
