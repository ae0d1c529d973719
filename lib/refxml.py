# -*- coding: utf-8 -*-
'''The nested document XML expected for a generated document (docgen.Doc).

Written from the document structure alone: a paragraph's characters are laid out
one unit at a time, each with the shape and line that covers its position, fields
open and closed by a stack, controls at their control character.
Elements are Node(name, attrs, children); text is a str child.
'''
import ast
import re

from . import layout as L

PUA = {0xF046: '\u261e', 0xF06C: '\u25cf', 0xF09F: '\u2022', 0xF0A1: '\u25cb', 0xF06E: '\u25a0',
       0xF0A7: '\u25aa', 0xF06F: '\u2610', 0xF075: '\u25c6', 0xF077: '\u2b29', 0xF076: '\u2756',
       0xF0A4: '\u25c9', 0xF0AB: '\u2605', 0xF0FC: '\u2713', 0xF0FE: '\u2611'}
ILLEGAL = re.compile('[\x01-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]')


def legal(s):
    return ILLEGAL.sub('\ufffd', s.replace('\0', ''))


class X(object):
    __slots__ = ('name', 'attrs', 'kids', 'src')

    def __init__(self, name, attrs=None, kids=None, src=None):
        self.name, self.attrs = name, attrs if attrs is not None else {}
        self.kids = kids if kids is not None else []
        self.src = src

    def iter(self, name=None):
        if name is None or self.name == name:
            yield self
        for k in self.kids:
            if isinstance(k, X):
                for x in k.iter(name):
                    yield x

    def find(self, name):
        return next(self.iter(name), None)

    def text(self):
        return ''.join(k if isinstance(k, str) else k.text() for k in self.kids)

    def key(self):
        return (self.name, tuple(sorted(self.attrs.items())),
                tuple(k if isinstance(k, str) else k.key() for k in self.kids))

    def dump(self, ind=0):
        out = '%s<%s %s>' % ('  ' * ind, self.name,
                             ' '.join('%s=%r' % kv for kv in sorted(self.attrs.items())))
        for k in self.kids:
            out += '\n' + ('%s%r' % ('  ' * (ind + 1), k) if isinstance(k, str)
                           else k.dump(ind + 1))
        return out


def parse(data):
    from lxml import etree
    root = etree.fromstring(data, etree.XMLParser(huge_tree=True))
    return from_lxml(root)


def from_lxml(e):
    x = X(e.tag, dict(e.attrib))
    if e.text:
        x.kids.append(e.text)
    for c in e:
        x.kids.append(from_lxml(c))
        if c.tail:
            x.kids.append(c.tail)
    return x


# ---------------------------------------------------------------- attributes
class Literal(object):
    '''an array shown by its Python representation'''

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        if isinstance(other, Literal):
            return self.value == other.value
        try:
            v = ast.literal_eval(other)
        except (ValueError, SyntaxError):
            return False
        return list(v) == list(self.value)

    def __repr__(self):
        return 'Literal(%r)' % (self.value,)


def dash(name):
    return name.replace('_', '-')


def scalar(t, v):
    if isinstance(t, tuple):
        return v.decode('ascii')
    if t == 'f64':
        return repr(v)
    if t == 'color':
        return '#%02x%02x%02x' % (v & 0xff, (v >> 8) & 0xff, (v >> 16) & 0xff)
    if t == 'binid':
        return 'BIN%04X' % v
    if t == 'wchar':
        return legal(PUA.get(v, chr(v)))
    if t in ('bstr', 'chid'):
        return legal(v)
    return '%d' % v


def set_attr(attrs, name, value):
    n = dash(name)
    assert n not in attrs, n
    attrs[n] = value


def fields(structs, values, ctx, skip=()):
    '''attributes and child elements of a record or nested struct'''
    attrs, kids = {}, []
    for s, vals in zip(structs, values):
        sub = dict(ctx, vals=vals, types={n: t for n, t, _ in s.fields})
        for name, t, opts in s.fields:
            if not L.present(opts, vals, sub) or name in skip:
                continue
            v = vals[name]
            if isinstance(t, L.Sel):
                t = t.table[t.keyfn(vals, sub)]
            if isinstance(t, L.Flags):
                set_attr(attrs, name, '%0*X' % (L.SIZE[t.base] * 2, v))
                for bn, (x, en, enum) in t.split(v).items():
                    set_attr(attrs, bn, en.lower() if en is not None else '%d' % x)
            elif isinstance(t, L.Struct) and t.name == 'Margin':
                for pos in ('left', 'right', 'top', 'bottom'):
                    set_attr(attrs, name + '-' + pos, '%d' % v[pos])
            elif isinstance(t, L.Struct):
                a, k = fields([t], [v], ctx)
                a['attribute-name'] = name
                kids.append(X(t.name, a, k))
            elif isinstance(t, (L.Arr, L.NArr, L.XArr)):
                if isinstance(t.item, L.Struct):
                    arr = X('Array', {'name': name})
                    for item in v:
                        a, k = fields([t.item], [item], ctx)
                        arr.kids.append(X(t.item.name, a, k))
                    kids.append(arr)
                elif t.item == 'color':
                    for c in v:
                        kids.append(X(name, {
                            'r': str(c & 255), 'g': str(c >> 8 & 255), 'b': str(c >> 16 & 255),
                            'alpha': str(c >> 24 & 255), 'hex': scalar('color', c)}))
                else:
                    set_attr(attrs, name, Literal(v))
            else:
                set_attr(attrs, name, scalar(t, v))
    return attrs, kids


def record(node, skip=()):
    a, k = fields(node.structs, node.values, node.ctx, skip)
    return X(node.name, a, k, src=node)


# ---------------------------------------------------------------- languages
def lang(ch):
    c = ord(ch)
    for lo, hi, name in (
            (0xac00, 0xd7ff, 'ko'), (0, 0x40, None), (0x1100, 0x11ff, 'ko'),
            (0x3130, 0x318f, 'ko'), (0xa960, 0xa97f, 'ko'), (0x41, 0x24f, 'en'),
            (0x4e00, 0x9fff, 'cn'), (0x2e80, 0x2fdf, 'cn'), (0x3400, 0x4dbf, 'cn'),
            (0xf900, 0xfaff, 'cn'), (0x3000, 0x303f, 'symbol'), (0x3040, 0x30ff, 'jp')):
        if lo <= c <= hi:
            return name
    return 'other'


def tokens(text):
    out = []
    for ch in text:
        l = lang(ch)
        if not out:
            out.append([l, ch])
        elif l is None or out[-1][0] is None or out[-1][0] == l:
            out[-1][1] += ch
            out[-1][0] = out[-1][0] or l
        else:
            out.append([l, ch])
    return [(l or 'ko', t) for l, t in out]


# ---------------------------------------------------------------- paragraphs
def at(ranges, pos):
    cur = None
    for start, v in ranges:
        if start <= pos:
            cur = v
    return cur


class Builder(object):
    def __init__(self, doc):
        self.doc = doc
        self.ids = dict.fromkeys(('Paragraph', 'TableControl', 'GShapeObjectControl',
                                  'ShapeComponent'), 0)

    def build(self):
        d = self.doc
        body = X('BodyText')
        for no in sorted(d.sections):
            body.kids.append(self.section(no, d.sections[no]))
        info = X('DocInfo', kids=[self.plain(e) for e in d.docinfo])
        root = X('HwpDoc', {'version': '.'.join(map(str, d.version))}, [info, body])
        self.number(root)
        return root

    NUMBERED = {'Paragraph': 'paragraph-id', 'TableControl': 'table-id',
                'GShapeObjectControl': 'gshape-id', 'ShapeComponent': 'shape-id'}

    def number(self, root):
        n = dict.fromkeys(self.NUMBERED, 0)
        for x in root.iter():
            if x.name in self.NUMBERED:
                x.attrs[self.NUMBERED[x.name]] = str(n[x.name])
                n[x.name] += 1

    def plain(self, e):
        x = record(e.node)
        x.kids.extend(self.plain(k) for k in e.kids)
        return x

    def section(self, no, paras):
        out, secd = self.columns(paras, want_section=True)
        x = record(secd.node)
        x.attrs['section-id'] = str(no)
        x.kids.extend(self.elems(secd, [[]]))
        x.kids.extend(out)
        return x

    # paragraphs of one list, grouped under the column sets they open
    def columns(self, paras, fstack=None, want_section=False):
        out, cur, secd = [], None, None
        fstack = [] if fstack is None else fstack
        for p in paras:
            x, s = self.para(p, fstack, want_section and secd is None)
            secd = secd or s
            if p.node.content['split'] & 2:
                cur = X('ColumnSet')
                out.append(cur)
            (cur.kids if cur is not None else out).append(x)
        return out, secd

    def list(self, e):
        x = record(e.node)
        x.kids.extend(self.columns(e.paras)[0])
        return x

    def elem(self, e):
        if e.paras is not None:
            return self.list(e)
        x = record(e.node)
        x.kids.extend(self.elems(e, None))
        return x

    def elems(self, e, _):
        if e.name == 'TableControl':
            return self.table(e)
        return [self.elem(k) for k in e.kids]

    def table(self, e):
        out, i = [], 0
        while i < len(e.kids) and e.kids[i].name != 'TableBody':
            out.append(self.elem(e.kids[i]))
            i += 1
        if i == len(e.kids):
            return out
        body = record(e.kids[i].node, skip=('rowcols',))
        cells = e.kids[i + 1:]
        for n in e.kids[i].node.content['rowcols']:
            if n:
                body.kids.append(X('TableRow', kids=[self.elem(c) for c in cells[:n]]))
                cells = cells[n:]
        assert not cells
        return out + [body]

    def para(self, p, fstack, want_section):
        x = record(p.node)
        secd = None
        lines = [(l['chpos'], i) for i, l in enumerate(p.lines)] if p.lines is not None else [(0, None)]
        cur_line, cur = object(), None       # line index, LineSeg element
        run = None                           # (text, shape) being collected

        opened = []      # chain of open elements inside the line

        def target():
            return opened[-1] if opened else cur

        def flush():
            if run is not None and run[0]:
                text = ''.join(run[0])
                for l, t in tokens(text):
                    t = legal(t)
                    target().kids.append(X('Text', {'charshape-id': str(run[1]), 'lang': l},
                                           [t] if t else []))

        def line_at(pos):
            nonlocal cur_line, cur, opened, run
            l = at(lines, pos)
            if l != cur_line:
                flush()
                run = None
                cur_line = l
                if l is None:
                    cur = X('LineSeg', {'?': '?', 'chpos': '0'})
                else:
                    a, k = fields([L.LineSeg], [p.lines[l]], p.node.ctx)
                    cur = X('LineSeg', a, k)
                x.kids.append(cur)
                opened = []
                for f in fstack:
                    e = X(f.node.name, fields(f.node.structs, f.node.values, f.node.ctx)[0],
                          src=('reopened', f.node))
                    target().kids.append(e)
                    opened.append(e)

        if not p.items:
            line_at(0)
        for (start, end), it in p.chunks():
            if it[0] == 't':
                pos = start
                for ch in it[1]:
                    line_at(pos)
                    s = at(p.shapes, pos)
                    if run is None or run[1] != s or pos in [a for a, _ in p.shapes]:
                        flush()
                        run = ([], s)
                    run[0].append(ch)
                    pos += L.chunk_units(ch)
                flush()
                run = None
                continue
            line_at(start)
            c = it[1]
            if it[0] == 'x':
                e = it[2]
                if e.name == 'SectionDef' and want_section:
                    secd = e
                elif e.node.content['chid'] in L.FIELDS:
                    f = record(e.node)
                    f.kids.extend(self.elems(e, None))
                    target().kids.append(f)
                    fstack.append(e)
                    opened.append(f)
                else:
                    target().kids.append(self.elem(e))
            elif c['code'] == 4:
                if fstack:
                    fstack.pop()
                    opened.pop()
            else:
                code = c['code']
                name, kind = L.CC.get(code, ('CTLCHR%02X' % code, 'CHAR'))
                a = {'name': name, 'code': str(code), 'kind': kind,
                     'charshape-id': str(at(p.shapes, start))}
                if code in (9, 10, 13):
                    a['char'] = chr(code)
                target().kids.append(X('ControlChar', a))
        return x, secd


def expected(doc):
    return Builder(doc).build()


# ---------------------------------------------------------------- comparison
def diff(exp, act, path=''):
    '''first difference, or None'''
    here = path + '/' + exp.name
    if exp.name != act.name:
        return '%s: expected <%s>, got <%s>' % (path, exp.name, act.name)
    if '?' not in exp.attrs:
        for k in exp.attrs:
            if k not in act.attrs:
                return '%s: attribute %s missing (expected %r)' % (here, k, exp.attrs[k])
            if exp.attrs[k] != act.attrs[k]:
                return '%s: attribute %s expected %r, got %r' % (here, k, exp.attrs[k],
                                                                  act.attrs[k])
        for k in act.attrs:
            if k not in exp.attrs:
                return '%s: unexpected attribute %s=%r' % (here, k, act.attrs[k])
    for i, (e, a) in enumerate(zip(exp.kids, act.kids)):
        if isinstance(e, str) or isinstance(a, str):
            if e != a:
                return '%s[%d]: expected %s, got %s' % (here, i, brief(e), brief(a))
            continue
        d = diff(e, a, '%s[%d]' % (here, i))
        if d:
            return d
    if len(exp.kids) != len(act.kids):
        n = min(len(exp.kids), len(act.kids))
        if len(exp.kids) > n:
            return '%s: missing %s' % (here, brief(exp.kids[n]))
        return '%s: unexpected %s' % (here, brief(act.kids[n]))


def brief(x):
    return repr(x) if isinstance(x, str) else x.dump()[:300]


def actual(hwp5file, **kw):
    from io import BytesIO
    out = BytesIO()
    hwp5file.xmlevents(**kw).dump(out)
    return parse(out.getvalue())
