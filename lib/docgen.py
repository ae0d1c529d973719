# -*- coding: utf-8 -*-
'''Whole documents as an abstract tree, with an encoder to record streams.

The structure is drawn by Hypothesis; field values come from random.Random(seed)
with a drawn seed (seed 0 means all-zero values, which is what cases shrink to).
mode 'wild': any value; 'sane': defined enumerations, moderate numbers, texts
that XML can represent and references that resolve.
'''
import random
import zlib

from hypothesis import strategies as st

from . import gen, layout as L, propset
from .recgen import Node, SAFE, TEXT, VERSIONS

WILD_TEXT = st.one_of(SAFE.filter(bool), st.text(st.one_of(
    st.sampled_from(list('ab1 <&"]>\u20ac\uac00\u4e00\u3042\u1100\xe9\u3001\ue000\ufffe\uffff\ufeff')
                    + ['\U0001f600', '\U00020000', '\x7f', '\xa0', '\x85', '\u2028']),
    st.characters(min_codepoint=0x20, exclude_categories=['Cs'])), min_size=1, max_size=8))
SANE_TEXT = SAFE.filter(bool)


# ------------------------------------------------------------------ values
def rint(rng, lo, hi, mode):
    if rng is None:
        return max(lo, 0)
    if mode == 'sane':
        return rng.randint(max(lo, 0), min(hi, 3000))
    k = rng.randrange(10)
    if k < 3:
        return rng.choice([lo, hi, max(lo, 0), min(hi, 1), min(max(lo, -1), hi), hi // 2 + 1])
    if k < 6:
        return rng.randint(max(lo, 0), min(hi, 300))
    return rng.randint(lo, hi)


# values that are treated specially, which random ones would seldom hit
COMMON = {('Panose1', 'family_type'): [2, 2, 2, 3, 4, 5, 1],
          ('Panose1', 'proportion'): [8, 9, 9, 10],
          ('Panose1', 'serif_style'): [9, 10, 11, 12],
          ('Bullet', 'width'): [0],
          ('FillImage', 'flags'): [5],
          ('FillImage', 'bindata_id'): [1, 1, 2],
          ('ParaShape', 'numbering_bullet_id'): [0, 1]}
# lengths that are below zero in ordinary documents
NEGATIVE = ('indent', 'doubled_margin_left', 'doubled_margin_right', 'x', 'y')


CH = list('abcXYZ 0129<>&"\'\t]') + ['\uac00', '\ud55c', '\u4e00', '\u3042', '\u1100', '\xe9',
                                    '\U0001f600']
WILDCH = CH + ['\0', '\x01', '\n', '\r', '\x1f', '\ufffe', '\uffff', '\ufeff', '\ue000', '\x85', '\u2028']


def rtext(rng, mode, n=8):
    if rng is None:
        return ''
    return ''.join(rng.choice(WILDCH if mode == 'wild' else CH[:7] + CH[9:])
                   for _ in range(rng.randint(0, n)))


def rflags(rng, t, mode):
    lo, hi = L.RANGE[t.base]
    if rng is None:
        return 0
    v = rng.randint(lo, hi) if mode == 'wild' else 0
    for lsb, msb, name, enum in t.bits:
        top = min((1 << (msb - lsb + 1)) - 1, hi >> lsb)
        if top <= 0:
            continue
        if enum and (mode == 'sane' or rng.randrange(2)):
            x = rng.choice(sorted(x for x in enum.values() if x <= top))
        elif mode == 'sane':
            x = rng.randint(0, min(top, 3))
        else:
            continue
        v = (v & ~(((1 << (msb - lsb + 1)) - 1) << lsb)) | (x << lsb)
    return v & hi


def rvalue(rng, t, ctx, mode):
    if isinstance(t, str):
        if t == 'f64':
            return 0.0 if rng is None else rng.choice([0.0, 1.0, -1.0, 0.5, 100.25, 1e-7, 12345678.9,
                                                       rng.uniform(-1000, 1000)])
        if t == 'wchar' and mode == 'sane':
            return 0 if rng is None else rng.choice([0, 0x28, 0x29, 0x2d, 0x41, 0xf06c, 0x2022])
        if t in L.PRIM:
            return rint(rng, *L.RANGE[t], mode)
        if t == 'bstr':
            return rtext(rng, mode)
        if t == 'chid':
            return '$rec' if rng is None else rng.choice(['$rec', '$lin', '$ell', '$con', '$pic',
                                                          'gso ', 'ab12'])
    if isinstance(t, tuple) and t[0] == 'hex':
        return (bytes(t[1]) if rng is None else rng.randbytes(t[1])).hex().encode('ascii')
    if isinstance(t, L.Flags):
        return rflags(rng, t, mode)
    if isinstance(t, L.Struct):
        return rstruct(rng, t, ctx, mode)
    if isinstance(t, L.Arr):
        return tuple(rvalue(rng, t.item, ctx, mode) for _ in range(t.n))
    if isinstance(t, L.NArr):
        n = 0 if rng is None else rng.randint(1 if mode == 'sane' else 0, 3)
        return [rvalue(rng, t.item, ctx, mode) for _ in range(n)]
    if isinstance(t, L.XArr):
        return [rvalue(rng, t.item, ctx, mode) for _ in range(t.countfn(ctx['vals'], ctx))]
    if isinstance(t, L.Sel):
        return rstruct(rng, t.table[t.keyfn(ctx['vals'], ctx)], ctx, mode)
    raise TypeError(t)


def rstruct(rng, s, ctx, mode, force=None):
    vals = {}
    sub = dict(ctx, vals=vals, types={n: t for n, t, _ in s.fields})
    for name, t, opts in s.fields:
        if not L.present(opts, vals, sub):
            continue
        if force and name in force:
            vals[name] = force[name]
        elif (s.name, name) == ('ShapeComponent', 'scalerotations_count'):
            vals[name] = 0 if rng is None else rng.randint(1 if mode == 'sane' else 0, 2)
        elif (s.name, name) == ('TableBody', 'rows'):
            vals[name] = 0
        elif (s.name, name) == ('BinData', 'flags'):
            v = rflags(rng, t, mode)
            vals[name] = v & ~0xf | (0 if rng is None else rng.randrange(3))
        elif (s.name, name) == ('ColumnsDef', 'flags'):
            v = rflags(rng, t, mode)
            vals[name] = (v & ~(0xff << 2)) | ((1 if rng is None else rng.randint(1, 3)) << 2)
        elif rng and (s.name, name) in COMMON and rng.randrange(3):
            vals[name] = rng.choice(COMMON[s.name, name])
        elif rng and mode == 'sane' and name in NEGATIVE and t in ('i32', 'shwpunit') \
                and rng.randrange(4) == 0:
            vals[name] = -rng.randint(1, 3000)
        elif (s.name, name) == ('TableControl', 'width') and mode == 'sane':
            # a table has a width; ODT has no table that is 0mm wide
            vals[name] = rng.randint(100, 3000) if rng else 1000
        elif s.name == 'Style' and name in ('local_name', 'name') and mode == 'sane':
            vals[name] = rng.choice(['Normal', 'Body', '\ubc14\ud0d5\uae00', 'Outline 1', 'a b<c',
                                     '1. Title', '-x', '.5', '']) \
                if rng else 'Normal'
        elif (s.name, name) == ('BinDataEmbedding', 'ext') and mode == 'sane':
            # others make the ODT invalid (known finding odt-ext-symbols)
            vals[name] = rng.choice(['jpg', 'PNG', 'bmp', 'OLE', 'wmf', 'jpeg', '\ud55c', '']) if rng else 'jpg'
        elif s.name == 'FaceName' and name == 'name' and mode == 'sane':
            vals[name] = rng.choice(['Batang', '\ubc14\ud0d5', 'Font "x"', "it's"]) if rng else 'B'
        else:
            vals[name] = rvalue(rng, t, sub, mode)
    return vals


def rnode(rng, mode, tagid, level, parent, version, chid=None, force=None, extra=b''):
    ctx = dict(version=version,
               parent=(parent.name, parent.content) if parent is not None else None)
    seen = bool(parent is not None and parent.seen_table)
    name, structs = L.model_structs(tagid, ctx['parent'], chid, seen)
    values = []
    for s in structs:
        f = dict(force or {})
        if tagid == L.CTRL_HEADER:
            f['chid'] = chid
        values.append(rstruct(rng, s, ctx, mode, f))
    node = Node(tagid, level, name, structs, values, ctx, extra)
    node.after_table = seen
    if parent is not None and parent.name == 'TableControl' and tagid == L.TABLE:
        parent.seen_table = True
    return node


# ------------------------------------------------------------------ tree
class Elem(object):
    '''a record with children; paras is a list for list headers'''

    def __init__(self, node, kids=None, paras=None):
        self.node, self.kids, self.paras = node, kids if kids is not None else [], paras

    @property
    def name(self):
        return self.node.name

    def records(self):
        yield self.node
        for k in self.kids:
            for r in k.records():
                yield r
        for p in self.paras or ():
            for r in p.records():
                yield r

    def __repr__(self):
        return 'Elem(%r%s%s)' % (self.node, ', kids=%r' % self.kids if self.kids else '',
                                 ', paras=%r' % self.paras if self.paras is not None else '')


class Para(object):
    '''items: ('t', text) | ('c', controlchar dict) | ('x', controlchar dict, Elem)'''

    def __init__(self, node, items, shapes, lines, tags):
        self.node, self.items, self.shapes = node, items, shapes
        self.lines, self.tags = lines, tags     # None: no such record
        self.rest = []

    def chunks(self):
        pos, out = 0, []
        for it in self.items:
            n = L.chunk_units(it[1])
            out.append(((pos, pos + n), it))
            pos += n
        return out

    def units(self):
        return sum(L.chunk_units(it[1]) for it in self.items)

    def controls(self):
        return [it[2] for it in self.items if it[0] == 'x']

    def text(self):
        return ''.join(it[1] for it in self.items if it[0] == 't')

    def records(self):
        n = self.node
        yield n

        def sub(tag, **vals):
            name, structs = L.model_structs(tag, None)
            return Node(tag, n.level + 1, name, structs, [vals],
                        dict(n.ctx, parent=(n.name, n.content)))
        if self.items:
            yield sub(L.PARA_TEXT, chunks=[(r, it[1]) for r, it in self.chunks()])
        yield sub(L.PARA_CHAR_SHAPE, charshapes=[tuple(s) for s in self.shapes])
        if self.lines is not None:
            yield sub(L.PARA_LINE_SEG, linesegs=self.lines)
        if self.tags is not None:
            yield sub(L.PARA_RANGE_TAG, range_tags=self.tags)
        for c in self.controls() + self.rest:
            for r in c.records():
                yield r

    def __repr__(self):
        return 'Para(%r, items=%r, shapes=%r, lines=%r)' % (
            self.node.content, self.items, self.shapes,
            None if self.lines is None else [l['chpos'] for l in self.lines])


def walk(paras):
    '''all paragraphs below, depth first in file order, with their list path'''
    for p in paras:
        yield p
        for c in p.controls():
            for q in walk_elem(c):
                yield q


def walk_elem(e):
    for k in e.kids:
        for q in walk_elem(k):
            yield q
    if e.paras:
        for q in walk(e.paras):
            yield q


class Doc(object):
    strays = ()                     # streams of BodyText which are no sections

    def __init__(self, version, flags, docinfo, sections, bindata=None, mode='wild', order=0):
        self.version, self.flags, self.docinfo = version, flags, docinfo
        self.sections, self.mode = sections, mode       # sections: {number: [Para]}
        self.bindata = bindata or {}                    # name -> bytes
        self.order = order
        self.summary = {}

    def section_bytes(self, no):
        return b''.join(L.record_bytes(r.tagid, r.level, r.payload())
                        for p in self.sections[no] for r in p.records())

    def docinfo_bytes(self):
        return b''.join(L.record_bytes(r.tagid, r.level, r.payload())
                        for e in self.docinfo for r in e.records())

    def deflate(self, data):
        if self.flags & 1:
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            return c.compress(data) + c.flush()
        return data

    def tree(self):
        nos = list(self.sections)
        random.Random(self.order).shuffle(nos)
        t = {'FileHeader': gen.fileheader(self.version, self.flags),
             'DocInfo': self.deflate(self.docinfo_bytes()),
             '\x05HwpSummaryInformation': propset.simple(**self.summary),
             'BodyText': {'Section%d' % i: self.deflate(self.section_bytes(i)) for i in nos}}
        for name in self.strays:
            t['BodyText'][name] = self.deflate(b'not a section')
        if self.strays:
            items = sorted(t['BodyText'].items())
            random.Random(self.order).shuffle(items)
            t['BodyText'] = dict(items)
        if self.bindata:
            t['BinData'] = {n: self.deflate(d) for n, d in self.bindata.items()}
        return t

    def hwp5file(self):
        from hwp5 import xmlmodel
        from .memstg import MemStorage
        return xmlmodel.Hwp5File(MemStorage(self.tree()))

    def paragraphs(self):
        for no in sorted(self.sections):
            for p in walk(self.sections[no]):
                yield p

    def __repr__(self):
        return 'Doc(version=%r, flags=%r, docinfo=%r, sections=%r)' % (
            self.version, self.flags, self.docinfo, self.sections)


# ------------------------------------------------------------------ generator
CODE = {'secd': 2, 'cold': 2, 'tbl ': 11, 'gso ': 11, 'tcmt': 15, 'head': 16, 'foot': 16,
        'fn  ': 17, 'en  ': 17, 'atno': 18, 'nwno': 21, 'pghd': 21, 'pgct': 21, 'pgnp': 21,
        'bokm': 22, 'idxm': 22, 'tdut': 23, 'tcps': 23, 'eqed': 11, 'form': 11, 'xxxx': 1}
EXT = sorted(k for k, v in L.CC.items() if v[1] == 'EXTENDED')
LISTLIKE = ['head', 'foot', 'tcmt', 'fn  ', 'en  ']
SIMPLE = ['atno', 'nwno', 'pghd', 'pgct', 'pgnp', 'idxm', 'tdut', 'tcps', 'bokm', 'cold',
          'eqed', 'xxxx']
FIELDIDS = sorted(L.FIELDS)


class G(object):
    '''generator state for one document'''

    def __init__(self, draw, mode, version, seed, maxparas, weights, refs):
        self.draw, self.mode, self.version = draw, mode, version
        self.rng = random.Random(seed) if seed else None
        self.left = maxparas
        self.instance = 0
        self.fieldid = 0
        self.weights = weights
        self.refs = refs

    def node(self, tagid, level, parent, chid=None, force=None, extra=True):
        ex = b''
        if extra and self.mode == 'wild' and self.rng and self.rng.randrange(8) == 0:
            ex = self.rng.randbytes(self.rng.randint(1, 5))
        return rnode(self.rng, self.mode, tagid, level, parent, self.version, chid, force, ex)

    def ref(self, what):
        n = self.refs.get(what, 0)
        if not n or (self.mode == 'wild' and self.rng and self.rng.randrange(4) == 0):
            return rint(self.rng, 0, 0xff, self.mode)
        return self.rng.randrange(n) if self.rng else 0

    # -- paragraphs
    def paras(self, level, depth, lo=1, hi=3, **kw):
        n = self.draw(st.integers(lo, hi))
        n = max(lo, min(n, self.left))
        out = []
        for i in range(n):
            out.append(self.para(level, depth, **kw))
        return out

    def item(self, level, depth, prev_text):
        kinds = self.weights['nested' if depth else 'top']
        kind = self.draw(st.sampled_from(kinds))
        if kind == 'text' and prev_text:
            kind = 'char'
        if depth >= 3 and kind in ('tbl', 'gso', 'list'):
            kind = 'text' if not prev_text else 'char'
        if self.left <= 0 and kind in ('tbl', 'gso', 'list'):
            kind = 'simple'
        if kind == 'text':
            return ('t', self.draw(SANE_TEXT if self.mode == 'sane' else WILD_TEXT))
        if kind == 'char':
            codes = [10, 9, 24, 30, 31] if self.mode == 'sane' else \
                [10, 10, 9, 24, 30, 31, 0, 13, 5, 6, 7, 8, 19, 20, 4]
            return self.plainchar(self.draw(st.sampled_from(codes)))
        if kind == 'end':
            return self.plainchar(4)
        if kind == 'field':
            chid = self.draw(st.sampled_from(['%clk', '%hlk'] + FIELDIDS))
            self.fieldid += 1
            node = self.node(L.CTRL_HEADER, level + 1, None, chid,
                             dict(self.hyper(chid), id=self.fieldid))
            e = Elem(node)
            if chid == '%clk' and self.draw(st.booleans()):
                e.kids.append(Elem(self.node(L.CTRL_DATA, level + 2, node)))
            return self.ext(3, chid, e)
        if kind == 'tbl':
            return self.table(level, depth)
        if kind == 'gso':
            return self.gso(level, depth)
        if kind == 'list':
            chid = self.draw(st.sampled_from(LISTLIKE))
            node = self.node(L.CTRL_HEADER, level + 1, None, chid)
            e = Elem(node)
            e.kids.append(self.list(level + 2, depth + 1, node))
            return self.ext(CODE[chid], chid, e)
        chid = self.draw(st.sampled_from(SIMPLE))
        node = self.node(L.CTRL_HEADER, level + 1, None, chid)
        e = Elem(node)
        if chid == 'bokm' and self.draw(st.booleans()):
            e.kids.append(Elem(self.node(L.CTRL_DATA, level + 2, node)))
        elif chid == 'eqed' and self.draw(st.booleans()):
            e.kids.append(Elem(self.node(L.CTRL_EQEDIT, level + 2, node)))
        elif chid == 'xxxx' and self.mode == 'wild' and self.draw(st.booleans()):
            e.kids.append(Elem(self.node(200, level + 2, node)))
        return self.ext(CODE[chid], chid, e)

    def hyper(self, chid):
        if chid == '%hlk' and self.mode == 'sane':
            return {'command': 'http\\://example.com/;1;0;0;'}
        return {}

    def plainchar(self, code):
        kind = L.CC[code][1] if code in L.CC else 'CHAR'
        if kind == 'CHAR':
            return ('c', {'code': code})
        if code == 9:
            return ('c', {'code': 9, 'param': {
                'width': rint(self.rng, 0, 2 ** 32 - 1, self.mode), 'unknown0': 0, 'unknown1': 1,
                'unknown2': b'\0' * 6}})
        return ('c', {'code': code, 'chid': 'abcd',
                      'param': bytes(8) if self.rng is None else self.rng.randbytes(8)})

    def ext(self, code, chid, elem):
        if self.mode == 'wild' and chid not in ('secd',) and self.rng and \
                self.rng.randrange(6) == 0:
            code = self.rng.choice(EXT)
        return ('x', {'code': code, 'chid': chid,
                      'param': bytes(8) if self.rng is None else self.rng.randbytes(8)}, elem)

    def para(self, level, depth, first=(), newcol=False, newsec=False):
        self.left -= 1
        self.instance += 1
        inst = self.instance
        items = list(first)
        n = self.draw(st.integers(0, 4 if depth else 5))
        for _ in range(n):
            items.append(self.item(level, depth, bool(items) and items[-1][0] == 't'))
        if items and self.mode == 'wild' and first and self.draw(st.booleans()):
            # the first controls may follow other content
            k = self.draw(st.integers(0, len(items)))
            items = items[k:] + items[:k]
            items = self.merge_texts(items)
        if items and self.draw(st.integers(0, 5)) > 0 or (items and self.mode == 'sane'):
            items.append(('c', {'code': 13}))
        return self.finish(level, inst, items, newcol, newsec)

    @staticmethod
    def merge_texts(items):
        out = []
        for it in items:
            if it[0] == 't' and out and out[-1][0] == 't':
                out[-1] = ('t', out[-1][1] + it[1])
            else:
                out.append(it)
        return out

    def finish(self, level, inst, items, newcol=False, newsec=False):
        # cut positions: between chunks or inside texts, never inside a surrogate pair
        cuts, pos = set(), 0
        for it in items:
            if it[0] == 't':
                for ch in it[1]:
                    cuts.add(pos)
                    pos += 2 if ord(ch) > 0xffff else 1
            else:
                cuts.add(pos)
                if self.mode == 'wild' and L.chunk_units(it[1]) == 8 and self.rng and \
                        self.rng.randrange(4) == 0:
                    cuts.add(pos + self.rng.randint(1, 7))
                pos += L.chunk_units(it[1])
        cuts.discard(0)
        cuts = sorted(cuts)
        if self.mode == 'wild':
            cuts.append(pos)
        sel = [] if not cuts else self.draw(st.lists(st.sampled_from(cuts), unique=True, max_size=3))
        shapes = [(p, self.shape_id()) for p in [0] + sorted(sel)]
        lsel = [] if not cuts else self.draw(st.lists(st.sampled_from(cuts), unique=True, max_size=3))
        lines = [rstruct(self.rng, L.LineSeg, {}, self.mode, {'chpos': p})
                 for p in [0] + sorted(lsel)]
        if self.draw(st.integers(0, 9)) == 9:
            lines = None
        tags = None
        if self.draw(st.integers(0, 7)) == 7:
            tags = [rstruct(self.rng, L.RECORDS[L.PARA_RANGE_TAG].fields[0][1].item, {}, self.mode)]
        split = 0
        if newsec:
            split |= 1
        if newcol:
            split |= 2
        elif depth_newcol(self, level) and self.draw(st.integers(0, 5)) == 5:
            split |= 2
        if self.mode != 'sane' and not newsec and self.rng and self.rng.randrange(3) == 0:
            split |= 1
        if self.rng and self.rng.randrange(5) == 0:
            split |= 4 if self.mode == 'sane' else self.rng.choice([4, 8, 12, 1, 5, 13, 16, 128, 253])
        force = dict(text=pos | (0x80000000 if self.rng and self.rng.randrange(2) else 0),
                     charshapes=len(shapes), linesegs=len(lines or ()), rangetags=len(tags or ()),
                     split=split, instance_id=inst, parashape_id=self.ref('parashapes'),
                     style_id=self.ref('styles'))
        node = self.node(L.PARA_HEADER, level, None, None, force, extra=False)
        return Para(node, items, shapes, lines, tags)

    def shape_id(self):
        n = self.refs.get('charshapes', 0)
        if self.mode == 'wild' and (not n or (self.rng and self.rng.randrange(3) == 0)):
            return rint(self.rng, 0, 2 ** 32 - 1, self.mode)
        return self.draw(st.integers(0, max(n - 1, 0)))

    # -- lists
    def list(self, level, depth, parent, lo=1, hi=3, force=None):
        paras = self.paras_placeholder(level, depth, lo, hi)
        f = dict(force or {}, paragraphs=len(paras))
        node = self.node(L.LIST_HEADER, level, parent, None, f)
        return Elem(node, paras=paras)

    def paras_placeholder(self, level, depth, lo, hi):
        return self.paras(level, depth, lo, hi)

    def table(self, level, depth):
        node = self.node(L.CTRL_HEADER, level + 1, None, 'tbl ')
        e = Elem(node)
        if self.draw(st.integers(0, 3)) == 3:
            e.kids.append(self.list(level + 2, depth + 1, node))
        lo = 0 if self.mode == 'wild' else 1
        if self.mode == 'wild':
            rowcols = self.draw(st.lists(st.integers(0, 3), max_size=4))
            grid = [(c, r, 1, 1) for r, n in enumerate(rowcols) for c in range(n)]
            ncols = max(rowcols or [0])
        else:
            rowcols, grid, ncols = self.grid()
        body = rnode(self.rng, self.mode, L.TABLE, level + 2, node, self.version, None, dict(
            rows=len(rowcols), cols=ncols, rowcols=list(rowcols),
            borderfill_id=self.border()), b'')
        e.kids.append(Elem(body))
        for c, r, cs, rs in grid:
            if self.mode == 'wild':
                force = {}
            else:
                force = dict(col=c, row=r, colspan=cs, rowspan=rs, borderfill_id=self.border())
            e.kids.append(self.list(level + 2, depth + 1, node, lo, 2, force))
        return self.ext(11, 'tbl ', e)

    def grid(self):
        rows, cols = self.draw(st.integers(1, 3)), self.draw(st.integers(1, 3))
        taken, grid, rowcols = set(), [], []
        for r in range(rows):
            n = 0
            for c in range(cols):
                if (c, r) in taken:
                    continue
                cs = rs = 1
                if self.draw(st.integers(0, 4)) == 4:
                    cs = self.draw(st.integers(1, cols - c))
                    rs = self.draw(st.integers(1, rows - r))
                    while any((x, y) in taken for x in range(c, c + cs) for y in range(r, r + rs)):
                        cs = rs = 1
                for x in range(c, c + cs):
                    for y in range(r, r + rs):
                        taken.add((x, y))
                grid.append((c, r, cs, rs))
                n += 1
            rowcols.append(n)
        if self.draw(st.integers(0, 5)) == 5:
            return self.stretched(rowcols, grid, cols)
        return rowcols, grid, cols

    def stretched(self, rowcols, grid, cols):
        '''the same cells spanning many columns and rows'''
        def edges(n):
            at = [0]
            for i in range(n):
                at.append(at[-1] + self.draw(st.sampled_from([1, 1, 2, 9, 10, 11, 20, 100])))
            return at
        x, y = edges(cols), edges(len(rowcols)) if self.draw(st.booleans()) else list(range(len(rowcols) + 1))
        counts = [0] * y[-1]
        for r, n in enumerate(rowcols):
            counts[y[r]] = n
        return counts, [(x[c], y[r], x[c + cs] - x[c], y[r + rs] - y[r]) for c, r, cs, rs in grid], x[-1]

    def border(self):
        n = self.refs.get('borderfills', 0)
        if not n:
            return rint(self.rng, 0, 0xffff, self.mode)
        return 1 + (self.rng.randrange(n) if self.rng else 0)

    def gso(self, level, depth):
        node = self.node(L.CTRL_HEADER, level + 1, None, 'gso ')
        e = Elem(node)
        if self.draw(st.integers(0, 4)) == 4:
            e.kids.append(self.list(level + 2, depth + 1, node))
        e.kids.append(self.component(level + 2, depth, node, 0))
        return self.ext(11, 'gso ', e)

    SHAPES = {'$rec': L.SHAPE_RECT, '$lin': L.SHAPE_LINE, '$ell': L.SHAPE_ELLIPSE,
              '$pic': L.SHAPE_PICTURE, '$con': L.SHAPE_CONTAINER, '$ole': L.SHAPE_OLE,
              '$arc': L.SHAPE_ARC, '$pol': L.SHAPE_POLYGON, '$cur': L.SHAPE_CURVE}

    def component(self, level, depth, parent, nest):
        kinds = ['$rec', '$pic', '$lin', '$con', '$ell', '$pol', '$cur', '$arc', '$ole']
        chid = self.draw(st.sampled_from(kinds))
        if chid == '$con' and nest >= 2:
            chid = '$rec'
        force = dict(chid=chid, chid0=chid)
        node = self.node(L.SHAPE_COMPONENT, level, parent, None, force)
        e = Elem(node)
        if chid == '$con':
            for _ in range(self.draw(st.integers(0, 2))):
                e.kids.append(self.component(level + 1, depth, node, nest + 1))
        if chid != '$pic' and self.left > 0 and self.draw(st.integers(0, 2)) == 2:
            e.kids.append(self.list(level + 1, depth + 1, node))
        f = {}
        if chid == '$pic' and self.refs.get('bindata'):
            info = rstruct(self.rng, L.RECORDS[L.SHAPE_PICTURE].fields[4][1], {}, self.mode,
                           dict(bindata_id=1 + (self.rng.randrange(self.refs['bindata'])
                                                if self.rng else 0)))
            f = dict(picture=info)
        e.kids.append(Elem(self.node(self.SHAPES[chid], level + 1, node, None, f)))
        return e

    # -- sections
    def section(self):
        w = self.draw(st.integers(0, 3)) if self.mode == 'wild' else 1
        secd = self.node(L.CTRL_HEADER, 1, None, 'secd')
        e = Elem(secd)
        e.kids.append(Elem(self.node(L.PAGE_DEF, 2, secd)))
        for _ in range(2 if self.mode == 'sane' else self.draw(st.integers(0, 2))):
            e.kids.append(Elem(self.node(L.FOOTNOTE_SHAPE, 2, secd)))
        for _ in range(3 if self.mode == 'sane' else self.draw(st.integers(0, 3))):
            e.kids.append(Elem(self.node(L.PAGE_BORDER_FILL, 2, secd, None,
                                         dict(borderfill_id=self.border()))))
        if self.mode == 'wild' and self.draw(st.integers(0, 5)) == 5:
            e.kids.append(self.list(2, 2, secd))       # master page
        if self.mode == 'wild' and self.draw(st.integers(0, 5)) == 5:
            e.kids.append(Elem(self.node(L.CTRL_DATA, 2, secd)))
        cold = Elem(self.node(L.CTRL_HEADER, 1, None, 'cold'))
        first = [self.ext(2, 'secd', e)]
        if w or self.mode == 'sane':
            first.append(self.ext(2, 'cold', cold))
        newcol = self.mode == 'sane' or self.draw(st.integers(0, 3)) > 0
        out = [self.para(0, 0, first, newcol=newcol, newsec=True)]
        for _ in range(self.draw(st.integers(0, 4))):
            if self.left <= 0:
                break
            out.append(self.para(0, 0))
        return out


def depth_newcol(g, level):
    # columns also occur within cells, text boxes and other lists
    return g.mode == 'wild' or level == 0 or g.draw(st.integers(0, 2)) == 2


WEIGHTS = {'top': ['text'] * 6 + ['char'] * 2 + ['field', 'end', 'tbl', 'gso', 'list', 'simple'],
           'nested': ['text'] * 7 + ['char', 'char', 'field', 'end', 'tbl', 'gso', 'list', 'simple']}
TABLES = {'top': ['text'] * 2 + ['tbl'] * 4 + ['char', 'gso'],
          'nested': ['text'] * 4 + ['tbl'] * 2 + ['char', 'gso']}
FIELDS = {'top': ['text'] * 3 + ['field'] * 3 + ['end'] * 3 + ['char', 'tbl', 'list'],
          'nested': ['text'] * 3 + ['field'] * 2 + ['end'] * 2 + ['char', 'list']}
LISTS = {'top': ['text'] * 2 + ['tbl', 'gso', 'list', 'list', 'gso'],
         'nested': ['text'] * 2 + ['tbl', 'gso', 'list', 'char']}
TEXTS = {'top': ['text'] * 6 + ['char'] * 3 + ['simple'],
         'nested': ['text'] * 4 + ['char'] * 2}

DOCINFO_MAPPED = [('bindata', 18), ('ko_fonts', 19), ('en_fonts', 19), ('cn_fonts', 19),
                  ('jp_fonts', 19), ('other_fonts', 19), ('symbol_fonts', 19),
                  ('user_fonts', 19), ('borderfills', 20), ('charshapes', 21), ('tabdefs', 22),
                  ('numberings', 23), ('bullets', 24), ('parashapes', 25), ('styles', 26)]


def docinfo(draw, mode, version, seed, nsections, bindata=None, small=False, lookups=False):
    '''list of Elem, counts. bindata: list of (flags, content) for the BinData records'''
    rng = random.Random(seed + 1) if seed else None

    def node(tag, level, parent, force=None):
        ex = rng.randbytes(3) if rng and mode == 'wild' and rng.randrange(8) == 0 else b''
        return rnode(rng, mode, tag, level, parent, version, None, force, ex)
    counts = {}
    for name, tag in DOCINFO_MAPPED:
        if small:
            counts[name] = 0
        elif lookups == 'big':
            counts[name] = draw(st.sampled_from([130, 1, 2, 11, 257, 300] + [0] * (tag == 19)))
            if name == 'styles':
                counts[name] = min(counts[name], 256)
        elif lookups:
            counts[name] = draw(st.integers(0, 3 if tag == 19 else 2)) \
                + (0 if tag == 19 or mode == 'wild' else 1)
        elif mode == 'sane':
            counts[name] = 1 if tag == 19 else draw(st.integers(1, 3)) \
                if name in ('charshapes', 'parashapes', 'styles', 'borderfills') else 1
        else:
            counts[name] = draw(st.integers(0, 2))
    if bindata is not None:
        counts['bindata'] = len(bindata)
    out = [Elem(node(16, 0, None, dict(section_count=nsections)))]
    maps = node(17, 0, None, counts)
    if 'memoshapes' in maps.content:
        for v in maps.values:
            v['memoshapes'] = 0
        maps.content['memoshapes'] = 0
    e = Elem(maps)
    out.append(e)
    for name, tag in DOCINFO_MAPPED:
        for i in range(counts[name]):
            force = {}
            if name == 'bindata' and bindata is not None:
                force = dict(flags=bindata[i][0], bindata=bindata[i][1])
            elif mode == 'sane' or lookups:
                force = sane_refs(name, rng, counts)
                if name.endswith('_fonts'):
                    force['name'] = '%s%d%s' % (name[:2], i, rng.choice(
                        ['', ' Sans', '\ubc14\ud0d5', '-1', ' \uba85\uc870', '\ub3cb\uc6c0', ' \uace0\ub515', '']) if rng else '')
            e.kids.append(Elem(node(tag, 1, maps, force)))
    if mode == 'wild' and not small:
        for tag in draw(st.lists(st.sampled_from([27, 28, 30, 31, 94, 200]), max_size=2)):
            out.append(Elem(node(tag, 0, None)))
    elif not small:
        for tag in (27, 30):
            c = Elem(node(tag, 0, None))
            out.append(c)
            if tag == 30:
                c.kids.append(Elem(node(31, 1, c.node)))
    return out, counts


def sane_refs(name, rng, counts):
    def r(what):
        n = counts[what]
        return rng.randrange(n) if rng and n else 0
    if name == 'charshapes':
        return dict(font_face={l: r(l + '_fonts') for l in L.LANGS},
                    basesize=100 * rng.randint(5, 30) if rng else 1000,
                    letter_width_expansion={l: 100 for l in L.LANGS},
                    relative_size={l: rng.choice([100, 100, 90, 120, 50]) if rng else 100
                                   for l in L.LANGS})
    if name == 'parashapes':
        return dict(tabdef_id=r('tabdefs'), numbering_bullet_id=rng.randint(0, 1) if rng else 1,
                    borderfill_id=1 + r('borderfills'))
    if name == 'styles':
        return dict(parashape_id=r('parashapes'), charshape_id=r('charshapes'), next_style_id=0)
    if name == 'borderfills':
        return dict(fillflags=(rng.choice([0, 1, 2, 4]) if rng else 0))
    return {}


STRAYS = ['bin00ff.png', 'Image1.jpg', 'thumbnail', '\uadf8\ub9bc.bmp', 'BINFFFE', 'OLE 1', 'BIN.OLE',
          'BIN0001', 'BIN0001.pn', 'IN0001.png', 'BIN00011.png']


@st.composite
def docs(draw, mode='wild', maxparas=10, weights=WEIGHTS, version=None, maxsections=2,
         flags=None, info='full', numbers=None, images=0, links=False):
    version = version or draw(st.sampled_from(VERSIONS))
    seed = draw(st.integers(0, 2 ** 16))
    if flags is None:
        flags = 0
    nsec = draw(st.integers(1, maxsections)) if maxsections > 1 else 1
    if numbers == 'sparse':
        nos = sorted(draw(st.lists(st.one_of(st.integers(0, 120), st.sampled_from(
            [255, 256, 999, 1000, 65535, 65536])), unique=True, min_size=nsec,
                                   max_size=nsec)))
    elif numbers == 'prefix':
        # names which start with one another
        nos = sorted(draw(st.lists(st.sampled_from([0, 1, 2, 10, 11, 20, 100, 112]), unique=True,
                                   min_size=nsec, max_size=nsec)))
    else:
        nos = list(range(nsec))
    bindata, bins = None, {}
    if images:
        bindata = []
        n = draw(st.integers(1, images))
        sids = list(range(1, n + 1))
        if draw(st.booleans()):
            sids = draw(st.lists(st.one_of(st.integers(1, 12), st.sampled_from(
                [0x10, 0xab, 0xfff, 0x1000, 0xffff])), unique=True, min_size=n, max_size=n))
        for sid in sids:
            kind = draw(st.sampled_from([1] * 6 + [0, 2])) if links else 1
            if kind == 0:
                bindata.append((0, dict(abspath='C:\\a.png', relpath='a.png')))
                continue
            ext = draw(st.sampled_from(['png', 'jpg', 'bmp', 'OLE']))
            if kind == 2:
                bindata.append((2, dict(storage_id=sid)))
            else:
                bindata.append((1, dict(storage_id=sid, ext=ext)))
            bins['BIN%04X.%s' % (sid, ext)] = draw(gen.payloads())
        if draw(st.integers(0, 3)) == 0:
            # streams without a record
            for name in draw(st.lists(st.sampled_from(STRAYS), unique=True, max_size=2)):
                if name.lower() not in [n.lower() for n in bins]:
                    bins[name] = draw(gen.payloads())
    dinfo, counts = docinfo(draw, mode, version, seed, nsec, bindata, small=info == 'small',
                            lookups={'lookups': True, 'big': 'big'}.get(info, False))
    g = G(draw, mode, version, seed, maxparas, weights, counts)
    sections = {}
    for no in nos:
        g.left = max(g.left, 2)
        sections[no] = g.section()
    return Doc(version, flags, dinfo, sections, bins, mode, draw(st.integers(0, 5)))


def stretch(para, index, filler, before):
    '''lengthen a text of the paragraph; positions behind it move along'''
    (a, b), item = para.chunks()[index]
    n = L.chunk_units(filler)
    old = item[1]
    para.items[index] = ('t', filler + old if before else old + filler)
    edge = a if before else b

    def moved(pos):
        # a boundary at the very start of the paragraph stays there
        return pos + n if pos >= edge and pos else pos
    para.shapes = [(moved(p), s) for p, s in para.shapes]
    for seg in para.lines or ():
        seg['chpos'] = moved(seg['chpos'])
    c = para.node.values[0]
    c['text'] += n
    para.node.content['text'] = c['text']


@st.composite
def longdocs(draw, **kwargs):
    '''documents with a paragraph which is longer than 2 ** 16 characters'''
    doc = draw(docs(maxparas=4, maxsections=1, info='small', weights=TEXTS, **kwargs))
    texts = [(p, i) for p in doc.paragraphs() for i, it in enumerate(p.items) if it[0] == 't']
    if texts:
        p, i = draw(st.sampled_from(texts))
        filler = draw(st.sampled_from(['x', 'ab \uac00', '\U0001f600', '\u4e00 ']))
        n = draw(st.sampled_from([65536, 70000, 131072, 40000]))
        stretch(p, i, (filler * n)[:n], draw(st.booleans()))
    return doc
