# -*- coding: utf-8 -*-
import io
import random

from hypothesis import strategies as st

from lib import big, cli, deep, docgen, gen, refxml
from lib.runner import Test, eq, fail
from .xmldoc import deep_docs

RULE = ('the document has a nested list, a field, tab, line break, several shapes or several lines '
        'in one paragraph')


def plaintext(root):
    '''what the conversion is documented to print, from the reference document tree'''
    out = []

    def walk(x):
        if x.name == 'Paragraph':
            for k in x.kids:
                walk(k)
            out.append('\n')
        elif x.name == 'Text':
            out.append(x.text())
        elif x.name == 'ControlChar':
            if x.attrs['code'] in ('9', '10'):
                out.append(chr(int(x.attrs['code'])))
        elif x.name == 'TableControl':
            out.append('\n<표>\n')
        elif x.name == 'GShapeObjectControl':
            out.append('\n<그림>\n')
        else:
            for k in x.kids:
                if not isinstance(k, str):
                    walk(k)
    walk(root.find('BodyText'))
    return ''.join(out)


def lines_of(doc):
    return plaintext(refxml.expected(doc))


_T = []


def convert(hwp5file):
    from hwp5.hwp5txt import TextTransform
    if not _T:
        _T.append(TextTransform())
    f = io.BytesIO()
    _T[0].transform_hwp5_to_text(hwp5file, f)
    return f.getvalue().decode('utf-8')


def label(doc, rec):
    for p in doc.paragraphs():
        for c in p.controls():
            rec.label('control')
        for it in p.items:
            if it[0] == 'x' and it[2].paras:
                rec.label('list')
                rec.nontrivial()
            if it[0] == 'x' and it[2].node.content.get('chid') in docgen.L.FIELDS:
                rec.label('field')
                rec.nontrivial()
            if it[0] == 'c' and it[1]['code'] in (9, 10):
                rec.label('tab or line break')
                rec.nontrivial()
        if len(p.shapes) > 1:
            rec.label('shapes')
            rec.nontrivial()
        if p.lines and len(p.lines) > 1:
            rec.label('lines')
            rec.nontrivial()


def compare(got, exp):
    if got != exp:
        for i, (g, e) in enumerate(zip(got.split('\n'), exp.split('\n'))):
            if g != e:
                fail('line %d: expected %r, got %r', i, e, g)
        eq(got, exp, 'text')


def check(doc, rec):
    label(doc, rec)
    compare(convert(doc.hwp5file()), lines_of(doc))


def check_metamorphic(case, rec):
    doc, seed = case
    label(doc, rec)
    before = convert(doc.hwp5file())
    rng = random.Random(seed)
    for p in doc.paragraphs():
        n = p.units()
        if not p.shapes:
            continue
        ids = [v for _, v in p.shapes]
        cuts = sorted(set([0] + [rng.randrange(n) for _ in range(rng.randrange(4)) if n]))
        p.shapes = [(c, rng.choice(ids)) for c in cuts]
        if p.lines:
            proto = p.lines[0]
            cuts = sorted(set([0] + [rng.randrange(n) for _ in range(rng.randrange(4)) if n]))
            p.lines = [relined(proto, c) for c in cuts]
        counts = dict(charshapes=len(p.shapes), linesegs=len(p.lines or ()))
        for values in p.node.values + [p.node.content]:
            for k in counts:
                if k in values:
                    values[k] = counts[k]
    compare(convert(doc.hwp5file()), before)


def relined(line, chpos):
    v = dict(line)
    v['chpos'] = chpos
    return v


def check_cli(case, rec):
    doc, how = case
    label(doc, rec)
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/a.hwp')
        if how == 'stdout':
            out = cli.success('hwp5txt', [path]).out
        else:
            r = cli.success('hwp5txt', ['--output', d + '/a.txt', path])
            eq(r.out, b'', 'output besides the file')
            with open(d + '/a.txt', 'rb') as f:
                out = f.read()
    compare(out.decode('utf-8'), lines_of(doc))


def check_deep(case, rec):
    doc, n, seed = case
    with deep.unbounded():
        doc = deep.deepen(doc, n, seed)
        exp = lines_of(doc)
        hwp5file = doc.hwp5file()
    rec.label('%d00 levels' % (n // 100))
    rec.nontrivial(n > 100)
    with deep.ordinary():
        got = convert(hwp5file)
    compare(got, exp)


def check_big(case, rec):
    doc, kind, seed = case
    doc = big.make(doc, kind, seed)
    rec.label(kind[0])
    rec.nontrivial()
    with deep.unbounded():
        exp = lines_of(doc)
        hwp5file = doc.hwp5file()
    compare(convert(hwp5file), exp)


def tests(tier):
    docs = docgen.docs(info='small')
    return [
        Test('documents', docs, check, 500, 20000),
        Test('tables and lists', docgen.docs(info='small', weights=docgen.LISTS), check, 150, 8000),
        Test('fields', docgen.docs(info='small', weights=docgen.FIELDS), check, 150, 8000),
        Test('formatting', st.tuples(docgen.docs(info='small', weights=docgen.TEXTS, maxparas=6),
                                     st.integers(0, 2 ** 32)), check_metamorphic, 150, 8000),
        Test('deep lists', deep_docs(300, info='small'), check_deep, 16, 400),
        Test('large documents', st.tuples(docgen.docs(maxparas=2, maxsections=1, info='small'),
                                          st.sampled_from(big.KINDS), st.integers(0, 2 ** 32)), check_big,
             24, 600),
        Test('section order', docgen.docs(info='small', maxparas=4, maxsections=5,
                                          numbers='sparse'), check, 100, 4000),
        Test('command line', st.tuples(docgen.docs(info='small', maxparas=6),
                                       st.sampled_from(['stdout', 'output'])), check_cli, 80, 3000),
    ]
