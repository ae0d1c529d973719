# -*- coding: utf-8 -*-
'''Views of a document XML tree (refxml.X), applied alike to the expected and the
actual tree, so that each property compares only what it speaks about.'''
from . import layout as L
from .refxml import X

FIELDNAMES = set(L.FIELDS.values())
LISTNAMES = {'ListHeader', 'TableCaption', 'TableCell', 'GShapeObjectCaption',
             'TextboxParagraphList', 'HeaderParagraphList', 'FooterParagraphList'}
WRAPPERS = ('ColumnSet', 'TableRow', 'Array')
IDS = ('paragraph-id', 'table-id', 'gshape-id', 'shape-id')


def own(p):
    '''events of one paragraph: ('line', attrs), ('text', Text), ('char', ControlChar),
    ('ctl', element), ('open', element), ('close', element)'''
    def content(x):
        for k in x.kids:
            if isinstance(k, str):
                if k.strip():
                    yield 'stray', k
            elif k.name == 'Text':
                yield 'text', k
            elif k.name == 'ControlChar':
                yield 'char', k
            elif k.name in FIELDNAMES:
                yield 'open', k
                for e in content(k):
                    yield e
                yield 'close', k
            elif x.name in FIELDNAMES and k.name in ('ControlData', 'FieldClickHereData'):
                yield 'data', k
            else:
                yield 'ctl', k
    for l in p.kids:
        if isinstance(l, str):
            yield 'stray', l
        elif l.name == 'LineSeg':
            yield 'line', l
            for e in content(l):
                yield e
        else:
            yield 'beside', l


def key(p):
    return p.attrs.get('instance-id')


def text_positions(root):
    '''C07: [(paragraph, [(char, charshape, line)])]'''
    out = []
    for p in root.iter('Paragraph'):
        seq, line = [], None
        for kind, x in own(p):
            if kind == 'line':
                line = x.attrs.get('chpos')
                seq.append(('line', line))
            elif kind == 'text':
                for ch in x.text():
                    seq.append((ch, x.attrs.get('charshape-id')))
            elif kind == 'char':
                seq.append(tuple(sorted(x.attrs.items())))
            elif kind == 'stray':
                seq.append((kind, x))
        out.append((key(p), seq))
    return out


def anchors(root):
    '''C08: nested names with the position of every control in its paragraph'''
    seen = set()

    def para(p):
        seq = []
        for kind, x in own(p):
            if kind == 'text':
                seq.extend(x.text())
            elif kind == 'char':
                seq.append('#' + x.attrs.get('code', '?'))
            elif kind == 'open':
                fid = x.attrs.get('id')
                if fid not in seen:
                    seen.add(fid)
                    seq.append(('field', x.name, fid))
            elif kind in ('ctl', 'beside', 'data'):
                seq.append(elem(x))
        return ('Paragraph', key(p), seq)

    def flat(x):
        for k in x.kids:
            if isinstance(k, X):
                if k.name in ('ColumnSet', 'TableRow'):
                    for y in flat(k):
                        yield y
                else:
                    yield k

    def elem(x):
        if x.name == 'Paragraph':
            return para(x)
        return (x.name, x.attrs.get('chid'), [elem(k) for k in flat(x)])
    body = root.find('BodyText')
    return [elem(s) for s in body.kids if isinstance(s, X)]


def direct(x, name, through=WRAPPERS):
    for k in x.kids:
        if isinstance(k, X):
            if k.name == name:
                yield k
            elif k.name in through:
                for y in direct(k, name, through):
                    yield y


CELL = ('col', 'row', 'colspan', 'rowspan', 'width', 'height', 'padding-left', 'padding-right',
        'padding-top', 'padding-bottom', 'borderfill-id', 'unknown-width')


def tables(root):
    '''C09'''
    def cell(c):
        return ([(a, c.attrs.get(a)) for a in CELL],
                [(key(p), ''.join(x.text() for k, x in own(p) if k == 'text'),
                  [x.name for k, x in own(p) if k == 'ctl'],
                  [table(x) for x in nested(p)]) for p in direct(c, 'Paragraph')])

    def nested(p):
        return [x for k, x in own(p) if k == 'ctl' and x.name == 'TableControl']

    def table(t):
        out = []
        for k in t.kids:
            if not isinstance(k, X):
                continue
            if k.name == 'TableBody':
                rows = []
                for r in k.kids:
                    if not isinstance(r, X) or r.name == 'Array':
                        continue
                    rows.append((r.name, [cell(c) if c.name == 'TableCell' else c.name
                                          for c in r.kids if isinstance(c, X)]))
                out.append(('TableBody', k.attrs.get('rows'), k.attrs.get('cols'), rows))
            else:
                out.append((k.name, [key(p) for p in direct(k, 'Paragraph')]))
        return out
    return [table(t) for t in root.iter('TableControl')]


def field_structure(root):
    '''C10: nesting of fields, lines and text in every paragraph'''
    def content(x):
        out = []
        for k in x.kids:
            if isinstance(k, str):
                out.append(('stray', k))
            elif k.name == 'Text':
                for ch in k.text():
                    out.append(ch)
            elif k.name == 'ControlChar':
                out.append('#' + k.attrs.get('code', '?'))
            elif k.name in FIELDNAMES:
                out.append((k.name, k.attrs.get('id'), content(k)))
            elif not (x.name in FIELDNAMES and k.name in ('ControlData', 'FieldClickHereData')):
                out.append((k.name,))
        return out
    return [(key(p), [content(l) for l in p.kids if isinstance(l, X) and l.name == 'LineSeg'])
            for p in root.iter('Paragraph')]


def lists(root):
    '''C11: lists with their own paragraphs, numbering ids'''
    out = []
    for x in root.iter():
        if x.name in LISTNAMES or x.name == 'SectionDef':
            out.append((x.name, [key(p) for p in direct(x, 'Paragraph', ('ColumnSet',))]))
        for i in IDS:
            if i in x.attrs:
                out.append((x.name, i, x.attrs[i]))
    return out


def columns(root):
    '''C12'''
    def kids(x):
        out = []
        for k in x.kids:
            if not isinstance(k, X):
                continue
            if k.name in ('ColumnSet', 'BodyText') or k.name in LISTNAMES:
                out.append((k.name, kids(k)))
            elif k.name == 'SectionDef':
                out.append((k.name, k.attrs.get('section-id'), kids(k)))
            elif k.name == 'Paragraph':
                out.append(('Paragraph', key(k), kids(k)))
            else:
                out.extend(kids(k))
        return out
    return kids(root)


def attributes(root):
    '''C13: every element with its attributes, without text and numbering'''
    def strip(x):
        y = X(x.name, {k: v for k, v in x.attrs.items() if k not in IDS})
        y.kids = [strip(k) for k in x.kids if isinstance(k, X)
                  and k.name not in ('Text', 'ControlChar')]
        return y
    return strip(root)


def runs(root):
    '''C35: Text pieces per paragraph'''
    out = []
    for p in root.iter('Paragraph'):
        seq = []
        for kind, x in own(p):
            if kind == 'text':
                seq.append((x.attrs.get('charshape-id'), x.attrs.get('lang'), x.text()))
            elif kind != 'open' and kind != 'close':
                seq.append(kind)
        out.append((key(p), seq))
    return out


def first_difference(exp, act, path=''):
    if type(exp) != type(act) or not isinstance(exp, (list, tuple)):
        if exp != act:
            return '%s: expected %r, got %r' % (path or '/', exp, act)
        return None
    for i, (e, a) in enumerate(zip(exp, act)):
        d = first_difference(e, a, '%s/%d' % (path, i))
        if d:
            return d
    if len(exp) != len(act):
        n = min(len(exp), len(act))
        if len(exp) > n:
            return '%s: missing %r after %r' % (path or '/', exp[n], exp[max(0, n - 3):n])
        return '%s: unexpected %r after %r' % (path or '/', act[n], act[max(0, n - 3):n])
