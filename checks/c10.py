# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from lib import big, docgen, project
from lib.runner import Test
from .xmldoc import VIA, big_checker, big_docs, checker, paras

RULE = ('some paragraph has a field whose content is divided into lines, nested fields, or an '
        'unmatched start or end')


def label(doc, rec):
    for p in paras(doc):
        depth = 0
        for it in p.items:
            if it[0] == 'x' and it[2].node.content['chid'] in docgen.L.FIELDS:
                depth += 1
                rec.label('field')
                if depth > 1:
                    rec.label('nested fields')
                    rec.nontrivial()
                if p.lines and len(p.lines) > 1:
                    rec.label('field in several lines')
                    rec.nontrivial()
            elif it[1] != '' and isinstance(it[1], dict) and it[1]['code'] == 4:
                if depth == 0:
                    rec.label('end without start in the paragraph')
                    rec.nontrivial()
                else:
                    depth -= 1
        if depth:
            rec.label('open at the end of the paragraph')
            rec.nontrivial()


view = project.field_structure


def tests(tier):
    return [
        Test('fields', docgen.docs(weights=docgen.FIELDS, info='small'), checker(view, label),
             1000, 40000),
        Test('documents', docgen.docs(info='small'), checker(view, label), 300, 15000),
        Test('many fields', big_docs([70, 5, 9, 17, 33, 130, 300]), big_checker(view, big.fields, 9),
             60, 2000),
        Test('command line', st.tuples(docgen.docs(weights=docgen.FIELDS, info='small', maxparas=6),
                                       st.sampled_from(VIA)), checker(view, label, True), 100, 4000),
    ]
