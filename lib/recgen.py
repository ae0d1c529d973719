# -*- coding: utf-8 -*-
'''Strategies for record values and well-formed record trees, from layout.py.'''
from hypothesis import strategies as st

from . import layout as L
from .gen import ints

VERSIONS = [(5, 0, 0, 0), (5, 0, 0, 4), (5, 0, 0, 5), (5, 0, 0, 6), (5, 0, 0, 7), (5, 0, 1, 6),
            (5, 0, 1, 7), (5, 0, 2, 1), (5, 0, 2, 2), (5, 0, 2, 3), (5, 0, 2, 4), (5, 0, 2, 5),
            (5, 0, 2, 9), (5, 0, 3, 0), (5, 0, 3, 3), (5, 0, 3, 4), (5, 0, 255, 255),
            (5, 1, 0, 1)]
versions = st.sampled_from(VERSIONS)

CHARS = st.one_of(
    st.characters(exclude_categories=['Cs']),
    st.sampled_from(list('ab <>&"\'\t\n\r]') + ['\0', '\x01', '\x1f', '\x7f', '\xa0', '\u3000',
                                             '\uac00', '\ud55c', '\u1100', '\u119e', '\uf784',
                                             '\ufffe', '\uffff', '\ufeff', '\U0001f600', '\U0010ffff',
                                             '\u4e00', '\u3042', '\ue000', '\u2028', '\x85']))
TEXT = st.text(CHARS, max_size=10)
# characters every XML 1.0 parser keeps as they are
SAFE = st.text(st.one_of(
    st.sampled_from(list('abcXYZ019 .,<>&"\'-;]')),
    st.characters(min_codepoint=0x21, max_codepoint=0x7e),
    st.sampled_from(['\uac00', '\ud55c', '\uae00', '\u4e00', '\u3042', '\u1100', '\u3001', '\xe9',
                     '\u0416', '\u2022', '\U0001f600', '\U00020000', '\ufeff', '\xad', '\u200b'])), max_size=10)


def bstr():
    return st.one_of(TEXT, TEXT, TEXT, st.builds(lambda t, n: t * n, TEXT, st.just(40)))


CHID_ANY = st.one_of(st.sampled_from(sorted(L.CONTROLS) + ['$lin', '$rec', '$ell', '$con', '$pic']),
                     st.text(st.characters(max_codepoint=255), min_size=4, max_size=4))
DOUBLE = st.one_of(st.floats(allow_nan=False, width=64),
                   st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.0, 100.25]))


def small_count(draw, n=4):
    return draw(st.integers(0, n))


@st.composite
def control_chars(draw, code=None, chid=None):
    if code is None:
        code = draw(st.sampled_from(sorted(L.CC) + [0x19, 0x1d]))
    kind = L.CC[code][1] if code in L.CC else 'CHAR'
    if kind == 'CHAR':
        return {'code': code}
    if code == 9:
        return {'code': 9, 'param': {
            'width': draw(ints(0, 2 ** 32 - 1)), 'unknown0': draw(st.integers(0, 255)),
            'unknown1': draw(st.integers(0, 255)),
            'unknown2': draw(st.binary(min_size=6, max_size=6))}}
    return {'code': code, 'chid': chid or draw(CHID_ANY),
            'param': draw(st.binary(min_size=8, max_size=8))}


PRINTABLE = st.text(CHARS.filter(lambda c: c >= ' '), min_size=1, max_size=12)


@st.composite
def chunks(draw, maxn=6, texts=PRINTABLE):
    '''[((start, end), text or control)] with alternating text'''
    out, pos, was_text = [], 0, False
    for _ in range(draw(st.integers(0, maxn))):
        if was_text or draw(st.booleans()):
            c = draw(control_chars())
            was_text = False
        else:
            c = draw(texts)
            was_text = True
        n = L.chunk_units(c)
        out.append(((pos, pos + n), c))
        pos += n
    return out


def value(draw, t, ctx, name=None):
    if isinstance(t, str):
        if t == 'f64':
            return draw(DOUBLE)
        if t in L.PRIM:
            return draw(ints(*L.RANGE[t]))
        if t == 'bstr':
            return draw(bstr())
        if t == 'chid':
            return draw(CHID_ANY)
        if t == 'chunks':
            return draw(chunks())
    if isinstance(t, tuple) and t[0] == 'hex':
        return draw(st.binary(min_size=t[1], max_size=t[1])).hex().encode('ascii')
    if isinstance(t, L.Flags):
        v = draw(ints(*L.RANGE[t.base]))
        if draw(st.booleans()):
            # one bit field at a time
            lsb, msb, _, enum = draw(st.sampled_from(t.bits)) if t.bits else (0, 0, '', None)
            top = min((1 << (msb - lsb + 1)) - 1, L.RANGE[t.base][1] >> lsb)
            x = draw(st.sampled_from(sorted(x for x in enum.values() if x <= top))
                     if enum and draw(st.booleans()) else ints(0, top))
            v = (v & ~(((1 << (msb - lsb + 1)) - 1) << lsb) | (x << lsb)) & L.RANGE[t.base][1]
        return v
    if isinstance(t, L.Struct):
        return struct(draw, t, ctx)
    if isinstance(t, L.Arr):
        return tuple(value(draw, t.item, ctx) for _ in range(t.n))
    if isinstance(t, L.NArr):
        return [value(draw, t.item, ctx) for _ in range(small_count(draw))]
    if isinstance(t, L.XArr):
        n = t.countfn(ctx['vals'], ctx)
        return [value(draw, t.item, ctx) for _ in range(n)]
    if isinstance(t, L.Sel):
        return struct(draw, t.table[t.keyfn(ctx['vals'], ctx)], ctx)
    raise TypeError(t)


SMALL = {('TableBody', 'rows'): 5, ('ShapeComponent', 'scalerotations_count'): 3,
         ('Paragraph', 'charshapes'): 4, ('Paragraph', 'linesegs'): 3,
         ('Paragraph', 'rangetags'): 3}


def struct(draw, s, ctx, force=None):
    vals = {}
    sub = dict(ctx, vals=vals, types={n: t for n, t, _ in s.fields})
    for name, t, opts in s.fields:
        if not L.present(opts, vals, sub):
            continue
        if force and name in force:
            vals[name] = force[name]
        elif (s.name, name) in SMALL:
            vals[name] = small_count(draw, SMALL[s.name, name])
        elif (s.name, name) == ('BinData', 'flags'):
            vals[name] = draw(ints(0, 0xffff)) & ~0xf | draw(st.integers(0, 2))
        elif (s.name, name) == ('ColumnsDef', 'flags'):
            vals[name] = (draw(ints(0, 0xffff)) & ~(0xff << 2)) | (draw(st.integers(0, 4)) << 2)
        else:
            vals[name] = value(draw, t, sub)
    return vals


class Node(object):
    '''A generated record: values per struct, encoded payload, tree position'''

    def __init__(self, tagid, level, name, structs, values, ctx, extra=b''):
        self.tagid, self.level, self.name = tagid, level, name
        self.structs, self.values, self.extra = structs, values, extra
        self.ctx = ctx
        self.seen_table = False     # as a parent: a TableBody child was seen
        self.after_table = False    # as a child: created after the TableBody
        self.content = {}
        for v in values:
            self.content.update(v)

    def __getstate__(self):
        d = dict(self.__dict__)
        chid = self.values[0].get('chid') if self.values else None
        d['structs'] = (self.tagid, self.ctx['parent'], chid, self.after_table)
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self.structs = L.model_structs(*d['structs'])[1]

    def body(self):
        return b''.join(L.encode_struct(s, v, self.ctx) for s, v in zip(self.structs, self.values))

    def payload(self):
        return self.body() + self.extra

    def __repr__(self):
        return '<%s tag=%d level=%d %r extra=%r>' % (
            self.name, self.tagid, self.level, self.content, self.extra)


def make_node(draw, tagid, level, parent, version, chid=None, force=None, extra=b''):
    '''parent: Node or None'''
    ctx = dict(version=version,
               parent=(parent.name, parent.content) if parent is not None else None)
    seen = bool(parent is not None and parent.seen_table)
    if tagid == L.CTRL_HEADER and chid is None:
        chid = draw(CHID_ANY)
    name, structs = L.model_structs(tagid, ctx['parent'], chid, seen)
    values = []
    for i, s in enumerate(structs):
        f = dict(force or {})
        if tagid == L.CTRL_HEADER:
            f['chid'] = chid
        values.append(struct(draw, s, ctx, f))
    node = Node(tagid, level, name, structs, values, ctx, extra)
    node.after_table = seen
    if parent is not None and parent.name == 'TableControl' and tagid == L.TABLE:
        parent.seen_table = True
    return node


NEED_PARA = (L.PARA_CHAR_SHAPE, L.PARA_LINE_SEG, L.PARA_RANGE_TAG)
LIKELY = {
    'Paragraph': [L.PARA_TEXT, L.PARA_CHAR_SHAPE, L.PARA_LINE_SEG, L.PARA_RANGE_TAG,
                  L.CTRL_HEADER, L.CTRL_HEADER],
    'TableControl': [L.TABLE, L.LIST_HEADER, L.LIST_HEADER, L.PARA_HEADER],
    'GShapeObjectControl': [L.SHAPE_COMPONENT, L.LIST_HEADER],
    'ShapeComponent': [L.SHAPE_COMPONENT, L.LIST_HEADER, L.SHAPE_PICTURE, L.SHAPE_RECT,
                       L.SHAPE_LINE, L.SHAPE_OLE, L.SHAPE_CONTAINER, L.SHAPE_CURVE,
                       L.SHAPE_POLYGON, L.SHAPE_ARC, L.SHAPE_ELLIPSE],
    'SectionDef': [L.PAGE_DEF, L.FOOTNOTE_SHAPE, L.PAGE_BORDER_FILL, L.CTRL_DATA],
    'Header': [L.LIST_HEADER], 'Footer': [L.LIST_HEADER],
    'BookmarkControl': [L.CTRL_DATA], 'FieldClickHere': [L.CTRL_DATA],
    'IdMappings': list(range(18, 27)),
}
ALLTAGS = sorted(L.RECORDS)


@st.composite
def trees(draw, maxn=10, version=None, extra=True, tags=None):
    '''a list of Nodes with valid levels, each decodable at its place'''
    version = version or draw(versions)
    out, stack = [], []
    n = draw(st.integers(1, maxn))
    for i in range(n):
        depth = draw(st.one_of(st.just(len(stack)), st.integers(0, len(stack))))
        if depth > 7:
            depth = 7
        del stack[depth:]
        parent = stack[-1] if stack else None
        options = LIKELY.get(parent.name if parent is not None else None, [])
        if options and draw(st.integers(0, 9)) < 7:
            tag = draw(st.sampled_from(options))
        elif parent is None and draw(st.booleans()):
            tag = draw(st.sampled_from([L.PARA_HEADER, L.PARA_HEADER, 17, L.CTRL_HEADER]))
        else:
            tag = draw(st.sampled_from(ALLTAGS + [13, 48, 200, 1023]))
        if tag in NEED_PARA and (parent is None or parent.name != 'Paragraph'):
            tag = L.PARA_HEADER
        if tag in (L.CTRL_DATA, L.LIST_HEADER, L.SHAPE_COMPONENT) and parent is None:
            tag = L.PARA_HEADER
        chid = None
        if tag == L.CTRL_HEADER:
            chid = draw(st.one_of(st.sampled_from(['tbl ', 'gso ', 'secd', 'cold', 'head', 'bokm',
                                                   '%clk', 'foot']), CHID_ANY))
        ex = b''
        if extra and tag != L.PARA_TEXT and draw(st.integers(0, 3)) == 0:
            ex = draw(st.binary(min_size=1, max_size=20))
        node = make_node(draw, tag, depth, parent, version, chid, extra=ex)
        out.append(node)
        stack.append(node)
    return version, out


def stream(nodes):
    return b''.join(L.record_bytes(n.tagid, n.level, n.payload()) for n in nodes)
