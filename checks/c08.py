# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from lib import big, docgen, project
from lib.runner import Test
from .xmldoc import VIA, big_checker, big_docs, checker, paras

RULE = ('some paragraph has two or more controls, text around a control, or a control inside a '
        'nested text list')


def label(doc, rec):
    top = [p for s in doc.sections.values() for p in s]
    for p in paras(doc):
        cs = p.controls()
        if len(cs) > 1 or (cs and (p.text() or p not in top)):
            rec.nontrivial()
        for c in cs:
            rec.label(c.node.content['chid'])
        if cs and p not in top:
            rec.label('nested control')


view = project.anchors
MIXED = {'top': ['text'] * 3 + ['char', 'field', 'end', 'tbl', 'gso', 'list', 'list', 'simple',
                                'simple', 'simple'],
         'nested': ['text'] * 3 + ['field', 'end', 'tbl', 'gso', 'list', 'simple', 'simple']}


def tests(tier):
    return [
        Test('controls', docgen.docs(weights=MIXED, info='small'), checker(view, label), 900, 40000),
        Test('documents', docgen.docs(info='small', maxparas=16), checker(view, label), 300, 15000),
        Test('many controls', big_docs([70, 9, 17, 33, 130, 300, 1100]), big_checker(
            view, big.controls, 17), 60, 2000),
        Test('command line', st.tuples(docgen.docs(weights=MIXED, info='small', maxparas=6),
                                       st.sampled_from(VIA)), checker(view, label, True), 100, 4000),
    ]
