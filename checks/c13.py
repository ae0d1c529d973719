# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from lib import docgen, layout as L, project, refxml
from lib.runner import Test, fail
from .xmldoc import VIA, paras, trees

RULE = 'a document with field values other than zero (value seed not 0)'


def check(case, rec, how='memory'):
    doc = case
    rec.label('version %d.%d.%d.%d' % doc.version)
    nodes = [r for e in doc.docinfo for r in e.records()]
    nodes += [r for no in doc.sections for p in doc.sections[no] for r in p.records()]
    for n in nodes:
        rec.label(n.name)
        if any(v for v in n.content.values()) and n.name not in ('Paragraph', 'ParaText'):
            rec.nontrivial()
    exp, act = trees(doc, how)
    act.kids = [k for k in act.kids if k.name != 'HwpSummaryInfo']
    for t in act.iter('TableBody'):
        # consumed by the grouping into rows (C09)
        t.attrs.pop('rowcols', None)
    d = refxml.diff(project.attributes(exp), project.attributes(act))
    if d:
        fail('%s', d)


def check_cli(case, rec):
    check(case[0], rec, case[1])


ALL = {'top': ['field', 'field', 'tbl', 'gso', 'gso', 'list', 'simple', 'simple', 'simple', 'text'],
       'nested': ['field', 'tbl', 'gso', 'list', 'simple', 'text']}


def tests(tier):
    return [
        Test('documents', docgen.docs(weights=ALL, maxparas=8), check, 700, 40000),
        Test('document information', docgen.docs(weights=docgen.TEXTS, maxparas=2, maxsections=1),
             check, 500, 20000),
        Test('command line', st.tuples(docgen.docs(weights=ALL, maxparas=5), st.sampled_from(VIA[:3])),
             check_cli, 100, 4000),
    ]
