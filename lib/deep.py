# -*- coding: utf-8 -*-
'''Deeply nested documents: control over the recursion limit.

The code under test runs with about what a program of the command line has; the
harness (reference, comparison) as much as it needs.'''
from contextlib import contextmanager
import random
import sys

from . import docgen, layout as L


@contextmanager
def frames(n):
    depth, f = 0, sys._getframe()
    while f:
        depth, f = depth + 1, f.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + n)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


def ordinary():
    return frames(950)


def unbounded():
    return frames(30000)


KINDS = ['head', 'foot', 'fn  ', 'en  ', 'tcmt', 'tbl ']


def deepen(doc, n, seed, kinds=KINDS):
    '''append a paragraph with n text lists within one another to the last section'''
    rng = random.Random(seed)
    g = docgen.G(None, doc.mode, doc.version, seed + 1, 0, docgen.WEIGHTS, {})
    kinds = [rng.choice(kinds) for _ in range(n)] if rng.randrange(2) else [rng.choice(kinds)] * n

    def para(level, no, items):
        items = [('t', 'level %d ' % no)] * rng.randrange(2) + items
        if rng.randrange(2):
            items.append(('t', 'after %d' % no))
        items = g.merge_texts(items)
        pos = sum(L.chunk_units(it[1]) for it in items)
        g.instance += 1
        lines = [docgen.rstruct(g.rng, L.LineSeg, {}, doc.mode, {'chpos': 0})]
        force = dict(text=pos, charshapes=1, linesegs=1, rangetags=0, split=0,
                     instance_id=10000 + g.instance, parashape_id=0, style_id=0)
        node = g.node(L.PARA_HEADER, level, None, None, force, extra=False)
        return docgen.Para(node, items, [(0, 0)], lines, None)

    def inner(level, no, items):
        '''the paragraphs of a list'''
        out = [para(level, no, items)]
        if rng.randrange(8) == 0:
            out.append(para(level, no, []))
        return out

    paras = inner(2 * n, n, [])
    for no in range(n - 1, -1, -1):
        level, chid = 2 * no, kinds[no]
        node = g.node(L.CTRL_HEADER, level + 1, None, chid, extra=False)
        e = docgen.Elem(node)
        force = dict(paragraphs=len(paras))
        if chid == 'tbl ':
            e.kids.append(docgen.Elem(docgen.rnode(
                g.rng, doc.mode, L.TABLE, level + 2, node, doc.version, None,
                dict(rows=1, cols=1, rowcols=[1], borderfill_id=1), b'')))
            force.update(col=0, row=0, colspan=1, rowspan=1, borderfill_id=1)
        e.kids.append(docgen.Elem(g.node(L.LIST_HEADER, level + 2, node, None, force, extra=False),
                                  paras=paras))
        item = g.ext(docgen.CODE[chid], chid, e)
        paras = inner(level, no, [item]) if no else [para(0, 0, [item])]
    doc.sections[max(doc.sections)].extend(paras)
    return doc
