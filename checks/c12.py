# -*- coding: utf-8 -*-
from io import BytesIO

from hypothesis import strategies as st

from lib import docgen, project, refxml
from lib.runner import Test, eq, ok
from .xmldoc import VIA, checker, paras

RULE = 'the document has two or more sections, or a paragraph after the first opens a column set'


def label(doc, rec):
    if len(doc.sections) > 1:
        rec.nontrivial()
        rec.label('several sections')
        if any(n > 9 for n in doc.sections) and any(n < 10 for n in doc.sections):
            rec.label('numbers of different length')
    for s in doc.sections.values():
        for p in s[1:]:
            if p.node.content['split'] & 2:
                rec.nontrivial()
                rec.label('column set opened later')
        for p in docgen.walk(s):
            if p not in s and p.node.content['split'] & 2:
                rec.label('column set in a nested list')


view = project.columns


def check_listing(doc, rec):
    '''section names and numbers as reported by the API'''
    label(doc, rec)
    f = doc.hwp5file()
    nos = sorted(doc.sections)
    eq(list(f.bodytext.section_indexes()), nos, 'section_indexes()')
    eq(len(f.bodytext.sections), len(nos), 'number of sections')
    for no, s in zip(nos, f.bodytext.sections):
        eq(s.open().read(), doc.section_bytes(no), 'data of the section at its place')
        eq(f.bodytext.section(no).open().read(), doc.section_bytes(no), 'section(%d)' % no)


FAR = [99, 100, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 32767, 32768, 65535, 65536, 99999,
       10 ** 6, 2 ** 31, 2 ** 32]


@st.composite
def many(draw):
    '''many small sections'''
    n = draw(st.integers(2, 13))
    numbers = draw(st.one_of(st.just(list(range(n))), st.lists(
        st.one_of(st.integers(0, 200), st.sampled_from(FAR), st.integers(0, 10 ** 9)), unique=True,
        min_size=n, max_size=n)))
    if draw(st.integers(0, 19)) == 0:
        numbers = range(draw(st.sampled_from([100, 257, 400])))
    doc = draw(docgen.docs(weights=docgen.TEXTS, info='small', maxparas=2, maxsections=1))
    extra = draw(docgen.docs(weights=docgen.TEXTS, info='small', maxparas=2, maxsections=1,
                             version=doc.version))
    parts = [doc.sections[0], extra.sections[0]]
    doc.sections = {no: parts[i % 2] for i, no in enumerate(sorted(numbers))}
    return doc


STRAYS = ['Section', 'Section01', 'Section+1', 'Section-1', 'Section 1', 'Section1 ', 'Section0_1',
          'Section1_0', 'Section\uff11', 'Section1.bak', 'SectionX', 'Section0x1', 'Sect', 'OldSection1']


@st.composite
def stray(draw):
    '''sections among streams with similar names'''
    doc = draw(many())
    doc.strays = draw(st.lists(st.sampled_from(STRAYS), min_size=1, max_size=3, unique=True))
    doc.order = draw(st.integers(0, 1000))
    return doc


def tests(tier):
    return [
        Test('sections', docgen.docs(weights=docgen.TEXTS, info='small', maxparas=9, maxsections=4,
                                     numbers='sparse'), checker(view, label), 600, 30000),
        Test('many sections', many(), checker(view, label), 300, 10000),
        Test('section listing', many(), check_listing, 200, 6000),
        Test('similar names', stray(), checker(view, label), 150, 5000),
        Test('similar names listing', stray(), check_listing, 150, 5000),
        Test('columns', docgen.docs(info='small'), checker(view, label), 400, 15000),
        Test('command line', st.tuples(many(), st.sampled_from(VIA)), checker(view, label, True),
             80, 3000),
    ]
