# -*- coding: utf-8 -*-
'''Large documents: made from a small generated one, a size and a seed.'''
import random

from . import docgen, layout as L


class Maker(object):

    def __init__(self, doc, seed):
        self.doc = doc
        self.rng = random.Random(seed)
        self.g = docgen.G(None, doc.mode, doc.version, seed + 1, 0, docgen.WEIGHTS, {})
        self.instance = 20000
        self.shapeids = [0, 1, 2, 3, 255, 256, 65536, 65537]
        if doc.mode == 'sane':
            maps = [e for e in doc.docinfo if e.name == 'IdMappings'][0]
            self.shapeids = list(range(len([1 for e in maps.kids if e.name == 'CharShape']))) or [0]

    def para(self, level, items=(), shapes=((0, 0),), lines=(0,), simple=False):
        g = self.g
        items = g.merge_texts(list(items))
        pos = sum(L.chunk_units(it[1]) for it in items)
        self.instance += 1
        rng = None if simple else g.rng
        lines = [docgen.rstruct(rng, L.LineSeg, {}, self.doc.mode, {'chpos': p}) for p in lines]
        force = dict(text=pos, charshapes=len(shapes), linesegs=len(lines), rangetags=0, split=0,
                     instance_id=self.instance, parashape_id=0, style_id=0)
        node = g.node(L.PARA_HEADER, level, None, None, force, extra=False)
        return docgen.Para(node, items, [tuple(s) for s in shapes], lines, None)

    def field(self, level, chid):
        self.g.fieldid += 1
        return self.g.ext(3, chid, docgen.Elem(self.g.node(
            L.CTRL_HEADER, level + 1, None, chid, dict(id=1000 + self.g.fieldid), extra=False)))

    def table(self, level, rowcols, texts=True):
        g = self.g
        node = g.node(L.CTRL_HEADER, level + 1, None, 'tbl ', extra=False)
        e = docgen.Elem(node)
        e.kids.append(docgen.Elem(docgen.rnode(
            g.rng, self.doc.mode, L.TABLE, level + 2, node, self.doc.version, None,
            dict(rows=len(rowcols), cols=max(list(rowcols) + [0]), rowcols=list(rowcols),
                 borderfill_id=1), b'')))
        for r, n in enumerate(rowcols):
            for c in range(n):
                force = dict(paragraphs=1, col=c, row=r, colspan=1, rowspan=1, borderfill_id=1)
                e.kids.append(docgen.Elem(
                    g.node(L.LIST_HEADER, level + 2, node, None, force, extra=False),
                    paras=[self.para(level + 2, [('t', '%d:%d' % (r, c))], simple=True)]))
        return g.ext(11, 'tbl ', e)

    def add(self, *paras):
        self.doc.sections[max(self.doc.sections)].extend(paras)
        return self.doc


def table(doc, n, seed):
    '''a table of about n cells'''
    m = Maker(doc, seed)
    rowcols, left = [], n
    while left > 0:
        k = min(left, m.rng.choice([0, 1, 2, 7, 63, 255, 256, 300, 1000]))
        rowcols.append(k)
        left -= k
    return m.add(m.para(0, [m.table(0, rowcols)]))


def fields(doc, n, seed):
    '''a paragraph with n fields open at a time, in several lines'''
    m = Maker(doc, seed)
    items, depth = [], 0
    chids = ['%clk', '%hlk'] + docgen.FIELDIDS
    for i in range(n):
        items.append(m.field(0, m.rng.choice(chids)))
        if m.rng.randrange(3) == 0:
            items.append(('t', 'f%d ' % i))
    items.append(('t', 'middle'))
    for i in range(n + m.rng.choice([-1, 0, 0, 0, 1])):
        items.append(('c', m.g.plainchar(4)[1]))
        if m.rng.randrange(3) == 0:
            items.append(('t', ' e%d' % i))
    return m.add(cut(m, items, m.rng.randint(2, 6), m.rng.randint(1, 3)))


def cut(m, items, nlines, nshapes):
    '''a paragraph with so many lines and shapes'''
    items = m.g.merge_texts(items)
    bounds, pos = [], 0
    for it in items:
        if it[0] == 't':
            for ch in it[1]:
                bounds.append(pos)
                pos += 2 if ord(ch) > 0xffff else 1
        else:
            bounds.append(pos)
            pos += L.chunk_units(it[1])
    bounds = bounds[1:]

    def some(n):
        return [0] + sorted(m.rng.sample(bounds, min(n - 1, len(bounds))))
    shapes = [(p, m.rng.choice(m.shapeids)) for p in some(nshapes)]
    return m.para(0, items, shapes, some(nlines))


def controls(doc, n, seed):
    '''a paragraph with n controls'''
    m = Maker(doc, seed)
    items = []
    for i in range(n):
        chid = m.rng.choice(docgen.SIMPLE + docgen.LISTLIKE)
        e = docgen.Elem(m.g.node(L.CTRL_HEADER, 1, None, chid, extra=False))
        if chid in docgen.LISTLIKE:
            paras = [m.para(2, [('t', '%s %d' % (chid.strip(), i))], simple=True)]
            e.kids.append(docgen.Elem(m.g.node(L.LIST_HEADER, 2, e.node, None, dict(
                paragraphs=len(paras)), extra=False), paras=paras))
        items.append(m.g.ext(docgen.CODE[chid], chid, e))
        if m.rng.randrange(3) == 0:
            items.append(('t', 'c%d ' % i))
    return m.add(cut(m, items, m.rng.randint(1, 4), m.rng.randint(1, 4)))


def runs(doc, n, seed):
    '''a paragraph with about n runs of formatting'''
    m = Maker(doc, seed)
    items = []
    for i in range(n // 3 + 1):
        items.append(('t', m.rng.choice(['abc', ' ', '\uac00\ub098', 'a\u4e00 b', '\U0001f600x', '12'])))
        k = m.rng.randrange(6)
        if k < 3:
            items.append(m.g.plainchar([10, 9, 24][k]))
    return m.add(cut(m, items, m.rng.randint(1, n), n))


def paragraphs(doc, n, seed):
    '''n short paragraphs and a table in between'''
    m = Maker(doc, seed)
    paras = [m.para(0, [('t', 'p%d' % i)] if i % 5 else [], simple=True) for i in range(n)]
    paras.insert(n // 2, m.para(0, [m.table(0, [2, 1])]))
    m.add(*paras)
    return m.add(m.para(0, [m.table(0, [1, 1])]), m.para(0, [('t', 'the end')]))


MAKERS = dict(controls=controls, table=table, fields=fields, runs=runs, paragraphs=paragraphs)
KINDS = [('table', 1100), ('runs', 3300), ('paragraphs', 3300), ('fields', 130), ('controls', 130), ('table', 300), ('runs', 300),
         ('paragraphs', 300), ('fields', 40), ('controls', 40)]


def make(doc, kind, seed):
    return MAKERS[kind[0]](doc, kind[1], seed)
