# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from lib import big, docgen, project
from lib.runner import Test
from .xmldoc import VIA, big_checker, big_docs, checker, deep_checker, deep_docs

RULE = 'the document has a nested text list with two or more paragraphs, or lists within lists'


def label(doc, rec):
    def look(e, depth):
        if e.paras is not None:
            rec.label(e.name)
            if len(e.paras) > 1 or depth:
                rec.nontrivial()
            if depth:
                rec.label('list in a list')
            for p in e.paras:
                for c in p.controls():
                    look(c, depth + 1)
        for k in e.kids:
            look(k, depth)
    for s in doc.sections.values():
        for p in s:
            for c in p.controls():
                look(c, 0)
    if len(doc.sections) > 1:
        rec.label('several sections')


view = project.lists


def tests(tier):
    return [
        Test('lists', docgen.docs(weights=docgen.LISTS, info='small', maxparas=16), checker(view, label),
             900, 40000),
        Test('documents', docgen.docs(info='small', maxparas=14, maxsections=4), checker(view, label),
             300, 15000),
        Test('deep lists', deep_docs(320, info='small'), deep_checker(view), 24, 600),
        Test('many paragraphs', big_docs([1100, 300, 5000] + ([] if tier == "quick" else [66000])),
             big_checker(view, big.paragraphs, 300), 24, 100),
        Test('command line', st.tuples(docgen.docs(weights=docgen.LISTS, info='small', maxparas=8),
                                       st.sampled_from(VIA)), checker(view, label, True), 100, 4000),
    ]
