# -*- coding: utf-8 -*-
'''Shared by the document XML checks C07-C13 and C35.'''
from io import BytesIO

from hypothesis import strategies as st

from lib import cli, deep, docgen, gen, project, refxml
from lib.runner import fail, ok


def trees(doc, via='memory'):
    exp = refxml.expected(doc)
    if via == 'memory':
        act = refxml.actual(doc.hwp5file())
    else:
        with gen.workdir() as d:
            path = gen.write_ole(doc.tree(), d + '/a.hwp')
            if via == 'cli':
                out = cli.success('hwp5proc', ['xml', path]).out
            elif via == 'output':
                cli.success('hwp5proc', ['xml', '--output', d + '/a.xml', path])
                with open(d + '/a.xml', 'rb') as f:
                    out = f.read()
            elif via == 'nodecl':
                out = cli.success('hwp5proc', ['xml', '--no-xml-decl', path]).out
                ok(not out.startswith(b'<?xml'), 'unexpected XML declaration')
            else:
                out = cli.success('hwp5proc', ['xml', '--embedbin', '--format=nested', path]).out
        act = refxml.parse(out)
    return exp, act


def deep_checker(view):
    '''text lists nested far deeper than people do, but well within the format'''
    def check(case, rec):
        doc, n, seed = case
        with deep.unbounded():
            doc = deep.deepen(doc, n, seed)
            exp = refxml.expected(doc)
            hwp5file = doc.hwp5file()
        out = BytesIO()
        with deep.ordinary():
            hwp5file.xmlevents().dump(out)
        rec.label('%d00 levels' % (n // 100))
        if n > 100:
            rec.nontrivial()
        with deep.unbounded():
            d = project.first_difference(view(exp), view(refxml.parse(out.getvalue())))
        if d:
            fail('%s', d)
    return check


def big_checker(view, make, rule):
    '''make(doc, size, seed): a large document'''
    def check(case, rec):
        doc, n, seed = case
        doc = make(doc, n, seed)
        rec.label('size %d' % (10 ** (len(str(n)) - 1)))
        rec.nontrivial(n >= rule)
        with deep.unbounded():
            exp = view(refxml.expected(doc))
            hwp5file = doc.hwp5file()
        out = BytesIO()
        hwp5file.xmlevents().dump(out)
        with deep.unbounded():
            d = project.first_difference(exp, view(refxml.parse(out.getvalue())))
        if d:
            fail('%s', d)
    return check


def big_docs(sizes):
    return st.tuples(docgen.docs(maxparas=2, maxsections=1, info='small', weights=docgen.TEXTS),
                     st.sampled_from(sizes), st.integers(0, 2 ** 32))


def deep_docs(limit, **kw):
    return st.tuples(docgen.docs(maxparas=3, maxsections=1, **kw),
                     st.one_of(st.integers(10, limit), st.just(limit)), st.integers(0, 2 ** 32))


VIA = ['cli', 'output', 'nodecl', 'embedbin']


def checker(view, label, via=None):
    def check(case, rec):
        if via:
            doc, how = case
        else:
            doc, how = case, 'memory'
        label(doc, rec)
        rec.label('version %d.%d.%d.%d' % doc.version)
        exp, act = trees(doc, how)
        d = project.first_difference(view(exp), view(act))
        if d:
            fail('%s', d)
    return check


def paras(doc):
    return list(doc.paragraphs())
