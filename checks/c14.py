# -*- coding: utf-8 -*-
import ast
import io
import re
import struct

from hypothesis import strategies as st

from lib import cli, docgen, gen, layout as L, recgen, refxml
from lib.memstg import MemStorage
from lib.refxml import X
from lib.runner import Test, eq, fail, ok

RULE = ('a document with records that have several structures, arrays, bit fields or paragraph '
        'text')


# ------------------------------------------------------------------ reference
def prim(t):
    return L.PRIMNAME[t]


def bits(t, v):
    size = L.SIZE[t.base]
    kids = []
    for lsb, msb, name, enum in t.bits:
        x, en, table = t.split(v)[name]
        kids.append(X('bits', {'type': prim(t.base), 'name': name, 'lsb': str(lsb),
                               'msb': str(msb), 'value': str(x)},
                      [X('enum', {'value': en or str(x)})] if table else []))
    return [X('bitflags', {'bin': format(v, '0%db' % (size * 8)),
                           'hex': format(v, '0%dx' % (size * 2))}, kids)]


def chunk(c):
    return c if isinstance(c, str) else dict(c)


class Walk(object):
    '''elements of one record with the offset of each item'''

    def __init__(self, ctx):
        self.pos, self.ctx = 0, ctx

    def item(self, t, value, name, size, kids=()):
        a = {'type': t, 'value': value, 'offset': str(self.pos)}
        if name:
            a['name'] = name
        self.pos += size
        return [X('item', a, list(kids))]

    def value(self, t, v, ctx, name):
        if isinstance(t, str):
            if t == 'chunks':
                kids = []
                for _, c in v:
                    kids += self.item('Text' if isinstance(c, str) else 'ControlChar', chunk(c),
                                      None, L.chunk_units(c) * 2)
                return [X('array', {'name': name}, kids)]
            if t in ('bstr', 'chid'):
                return self.item(prim(t), v, name, len(L.encode(t, v, ctx)))
            return self.item(prim(t), v if t == 'f64' else str(v), name, L.SIZE[t])
        if isinstance(t, tuple):
            return self.item('HexBytes', v.decode('ascii'), name, t[1])
        if isinstance(t, L.Flags):
            return self.item(prim(t.base), str(v), name, L.SIZE[t.base], bits(t, v))
        if isinstance(t, L.Struct):
            return [self.struct(t, v, ctx, name)]
        if isinstance(t, L.NArr):
            out = self.item(prim(t.count), str(len(v)), None, L.SIZE[t.count])
            return out + [self.array(t.item, v, ctx, name)]
        if isinstance(t, (L.Arr, L.XArr)):
            return [self.array(t.item, v, ctx, name)]
        if isinstance(t, L.Sel):
            return [self.struct(t.table[t.keyfn(ctx['vals'], ctx)], v, ctx, name)]
        raise TypeError(t)

    def array(self, t, v, ctx, name):
        return X('array', {'name': name} if name else {},
                 [y for x in v for y in self.value(t, x, ctx, None)])

    def struct(self, s, v, ctx, name=None):
        sub = dict(ctx, vals=v, types={n: t for n, t, _ in s.fields})
        kids = []
        for n, t, opts in s.fields:
            if L.present(opts, v, sub):
                kids += self.value(t, v[n], sub, n)
        a = {'type': s.name}
        if name:
            a['name'] = name
        return X('struct', a, kids)


def record(node, seqno):
    w = Walk(node.ctx)
    kids = [w.struct(s, v, node.ctx) for s, v in zip(node.structs, node.values)]
    eq(w.pos, len(node.body()), 'size of the reference')        # of the harness itself
    return X('Record', {
        'tagname': L.TAGNAMES.get(node.tagid), 'tagid': str(node.tagid),
        'seqno': str(seqno), 'level': str(node.level), 'size': str(len(node.payload()))}, kids)


def records(nodes):
    return [record(n, i) for i, n in enumerate(nodes)]


FLAGBITS = ['compressed', 'password', 'distributable', 'script', 'drm', 'xmltemplate_storage',
            'history', 'cert_signed', 'cert_encrypted', 'cert_signature_extra', 'cert_drm', 'ccl']


def header(version, flags, reserved=b'\0' * 216):
    t = L.Flags('u32', *[L.bit(i, n) for i, n in enumerate(FLAGBITS)])
    return X('FileHeader', {}, [X('struct', {'type': 'FileHeader'}, [
        X('item', {'name': 'signature', 'offset': '0', 'type': 'BYTES(32)',
                   'value': 'HWP Document File'}),
        X('item', {'name': 'version', 'offset': '32', 'type': 'VERSION',
                   'value': tuple(version)}),
        X('item', {'name': 'flags', 'offset': '36', 'type': 'UINT32', 'value': str(flags)},
          bits(t, flags)),
        X('item', {'name': 'reserved', 'offset': '40', 'type': 'BYTES(216)',
                   'value': reserved})])])


def document(version, flags, docinfo, sections):
    '''sections: {number: [Node]}'''
    return X('Hwp5Doc', {'version': '%d.%d.%d.%d' % tuple(version),
                         'hexversion': '%02x%02x%02x%02x' % tuple(version)},
             [header(version, flags), X('DocInfo', {}, records(docinfo))] +
             [X('Section', {'name': 'Section%d' % i}, records(sections[i]))
              for i in sorted(sections)])


# ------------------------------------------------------------------ compare
def normal(x):
    '''the values as Python values'''
    a = dict(x.attrs)
    if x.name == 'item' and isinstance(a.get('value'), str):
        t, v = a['type'], a['value']
        if t == 'DOUBLE':
            a['value'] = float(v)
        elif t == 'ControlChar':
            try:
                d = ast.literal_eval(v)
                for k in ('chid',):
                    if k in d and isinstance(d[k], bytes):
                        d[k] = d[k].decode('latin1')
                a['value'] = d
            except (ValueError, SyntaxError):
                pass
        elif t == 'VERSION':
            a['value'] = tuple(int(i) for i in re.findall(r'\d+', v))
    if x.name == 'item' and a.get('type', '').startswith('HexBytes'):
        a['type'] = 'HexBytes'
    if x.name == 'item' and a.get('type', '').startswith('BYTES'):
        v = a['value']
        v = v.decode('latin1') if isinstance(v, bytes) else v
        # NUL is removed from XML
        a['value'] = refxml.legal(v)
    if isinstance(a.get('value'), float):
        a['value'] = struct.pack('<d', a['value']) if a['value'] == a['value'] else 'nan'
    if x.name == 'enum':
        a.pop('type', None)
    if x.name == 'item' and a.get('type') in ('Text', 'BSTR', 'CHID') and isinstance(a['value'], str):
        a['value'] = refxml.legal(a['value'])
    kids = [normal(k) for k in x.kids if not isinstance(k, str)]
    if x.name == 'Record':
        if int(a['tagid']) not in L.TAGNAMES:
            a.pop('tagname')    # of the unknown tags only some have a name
        # how the fields are divided among base and derived structures is not compared
        kids = [y for k in kids for y in (k.kids if k.name == 'struct' else [k])]
    return X(x.name, a, kids)


def compare(want, data):
    got = refxml.parse(data)
    d = refxml.diff(normal(want), normal(got))
    if d:
        fail('%s', d)


def nodes_of(doc):
    info = [r for e in doc.docinfo for r in e.records()]
    return info, {n: [r for p in doc.sections[n] for r in p.records()] for n in doc.sections}


def label(nodes, rec):
    for n in nodes:
        rec.label(n.name)
        if len(n.structs) > 1 or n.name == 'ParaText':
            rec.nontrivial()


def flat(hwp5file):
    from hwp5.xmldump_flat import xmldump_flat
    f = io.BytesIO()
    xmldump_flat(hwp5file, f)
    return f.getvalue()


def check(doc, rec):
    info, sections = nodes_of(doc)
    label(info + [n for v in sections.values() for n in v], rec)
    compare(document(doc.version, doc.flags, info, sections), flat(doc.hwp5file()))


def check_records(case, rec):
    '''any decodable records, in the document information and in the sections'''
    (version, info), (_, body), compressed, num = case
    label(info + body, rec)
    from hwp5.xmlmodel import Hwp5File
    tree = tree_of(version, info, body, compressed, num)
    compare(document(version, compressed, info, {num: body}), flat(Hwp5File(MemStorage(tree))))


def tree_of(version, info, body, compressed, num):
    import zlib

    def z(d):
        if not compressed:
            return d
        c = zlib.compressobj(6, zlib.DEFLATED, -15)
        return c.compress(d) + c.flush()
    return {'FileHeader': gen.fileheader(version, compressed), 'DocInfo': z(recgen.stream(info)),
            'BodyText': {'Section%d' % num: z(recgen.stream(body))}}


@st.composite
def two(draw):
    version = draw(recgen.versions)
    return (draw(recgen.trees(version=version)), draw(recgen.trees(version=version)),
            draw(st.integers(0, 1)), draw(st.sampled_from([0, 1, 10])))


def check_cli(case, rec):
    doc, how = case
    info, sections = nodes_of(doc)
    label(info + [n for v in sections.values() for n in v], rec)
    rec.label(how)
    opts = {'stdout': [], 'output': [], 'nodecl': ['--no-xml-decl'],
            'unchecked': ['--no-validate-wellformed']}[how]
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/a.hwp')
        if how == 'output':
            cli.success('hwp5proc', ['xml', '--format=flat', '--output', d + '/o.xml', path])
            with open(d + '/o.xml', 'rb') as f:
                out = f.read()
        else:
            out = cli.success('hwp5proc', ['xml', '--format=flat'] + opts + [path]).out
    if how == 'nodecl':
        ok(not out.startswith(b'<?xml'), 'unexpected XML declaration')
    compare(document(doc.version, doc.flags, info, sections), out)


ALL = {'top': ['field', 'field', 'tbl', 'gso', 'gso', 'list', 'simple', 'simple', 'simple', 'text'],
       'nested': ['field', 'tbl', 'gso', 'list', 'simple', 'text']}


def tests(tier):
    return [
        Test('documents', docgen.docs(weights=ALL, images=2, links=True), check, 800, 25000),
        Test('records', two(), check_records, 1800, 60000),
        Test('sections', docgen.docs(maxparas=3, maxsections=6, numbers='sparse'), check, 200, 6000),
        Test('command line', st.tuples(docgen.docs(weights=ALL, maxparas=5), st.sampled_from(
            ['stdout', 'output', 'nodecl', 'unchecked'])), check_cli, 250, 8000),
    ]
