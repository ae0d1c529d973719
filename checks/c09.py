# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from lib import big, docgen, project
from lib.runner import Test
from .xmldoc import VIA, big_checker, big_docs, checker, paras

RULE = 'some table has two or more rows or a caption or a nested table'


def label(doc, rec):
    for p in paras(doc):
        for c in p.controls():
            if c.name != 'TableControl':
                continue
            body = [k for k in c.kids if k.name == 'TableBody'][0]
            rc = body.node.content['rowcols']
            rec.label('table')
            if 0 in rc:
                rec.label('row without cells')
            if len(rc) > 1:
                rec.nontrivial()
                rec.label('several rows')
            if any(k.name == 'TableCaption' for k in c.kids):
                rec.nontrivial()
                rec.label('caption')
            for q in docgen.walk_elem(c):
                if any(x.name == 'TableControl' for x in q.controls()):
                    rec.nontrivial()
                    rec.label('nested table')


view = project.tables


def tests(tier):
    return [
        Test('tables', docgen.docs(weights=docgen.TABLES, info='small', maxparas=14, maxsections=1),
             checker(view, label), 1000, 40000),
        Test('spans', docgen.docs(mode='sane', weights=docgen.TABLES, info='small', maxparas=14,
                                  maxsections=1), checker(view, label), 300, 10000),
        Test('large tables', big_docs([5000, 260, 1100, 4097, 9000]), big_checker(view, big.table, 1000),
             24, 200),
        Test('command line', st.tuples(docgen.docs(weights=docgen.TABLES, info='small', maxparas=8),
                                       st.sampled_from(VIA)), checker(view, label, True), 100, 4000),
    ]
