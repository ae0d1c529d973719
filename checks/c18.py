# -*- coding: utf-8 -*-
import base64
import io
import os
import zipfile

from hypothesis import strategies as st

from checks import c36
from checks.c17 import paragraphs_of
from lib import big, cli, deep, docgen, env, gen, refxml
from lib.refxml import X
from lib.runner import Test, eq, fail, ok
from .xmldoc import deep_docs

RULE = ('the document has a table, a nested list, a field, a drawing, a picture, a note, several '
        'shapes in one paragraph or several sections')

NS = {
    'urn:oasis:names:tc:opendocument:xmlns:office:1.0': 'office',
    'urn:oasis:names:tc:opendocument:xmlns:style:1.0': 'style',
    'urn:oasis:names:tc:opendocument:xmlns:text:1.0': 'text',
    'urn:oasis:names:tc:opendocument:xmlns:table:1.0': 'table',
    'urn:oasis:names:tc:opendocument:xmlns:drawing:1.0': 'draw',
    'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0': 'fo',
    'urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0': 'svg',
    'http://www.w3.org/1999/xlink': 'xlink',
}


# ------------------------------------------------------------------ reference
class Odt(object):
    '''the text of the document, as elements of their names, styles, anchors and spans'''

    def __init__(self, root, inline=None):
        self.root = root
        self.inline = inline        # {name: bytes}, if data is embedded
        maps = root.find('DocInfo').find('IdMappings')
        self.kinds = {}
        for k in (maps.kids if maps else ()):
            self.kinds.setdefault(k.name, []).append(k)
        self.need = {}              # style name -> (family, description of the properties)

    def nth(self, kind, i):
        i = int(i)
        l = self.kinds.get(kind, ())
        return l[i] if 0 <= i < len(l) else None

    def body(self):
        out = []
        for s in self.root.find('BodyText').kids:
            if s.name == 'SectionDef':
                for p in section_paragraphs(s):
                    out += self.paragraph(p)
        return X('office:text', {}, out)

    def paragraphs(self, x):
        out = []
        for p in paragraphs_of(x):
            out += self.paragraph(p)
        return out

    def paragraph(self, p):
        style = self.nth('Style', p.attrs['style-id'])
        n = int(p.attrs['paragraph-id']) + 1
        sname = c36.ncname(style.attrs['local-name'])
        if style.attrs['parashape-id'] != p.attrs['parashape-id'] or p.attrs.get('new-page') == '1':
            name = 'Paragraph-%d' % n
            self.need[name] = ('paragraph', dict(parent=sname, page=p.attrs.get('new-page'),
                                                 shape=p.attrs['parashape-id']))
        else:
            name = sname
            self.need[name] = ('paragraph', None)
        kids, tables = [], []
        for i, line in enumerate(l for l in p.kids if l.name == 'LineSeg'):
            self.inlines(line.kids, style, 'p%d-%d-' % (n, i + 1), kids, tables)
        out = [X('text:p', {'text:style-name': name}, kids)]
        return out + [self.table(t) for t in tables]

    def inlines(self, items, style, prefix, kids, tables):
        n = 0
        for k in items:
            if isinstance(k, str):
                continue
            field = k.name.startswith('Field')
            if k.name == 'Text' or field:
                n += 1
            if k.name == 'Text':
                attrs = {}
                if style.attrs['charshape-id'] != k.attrs['charshape-id']:
                    attrs['text:style-name'] = prefix + str(n)
                    self.need[prefix + str(n)] = ('text', k.attrs['charshape-id'])
                kids.append(X('text:span', attrs, [k.text()]))
            elif field:
                self.inlines(k.kids, style, prefix + str(n) + '-', kids, tables)
            elif k.name == 'ControlChar':
                if k.attrs['name'] == 'TAB':
                    kids.append(X('text:tab'))
                elif k.attrs['name'] == 'LINE_BREAK':
                    kids.append(X('text:line-break'))
            elif k.name == 'TableControl':
                tables.append(k)
            elif k.name == 'GShapeObjectControl':
                for s in k.kids:
                    if s.name == 'ShapeComponent':
                        kids += self.shape(s, k)
            elif k.name in ('FootNote', 'EndNote'):
                kids.append(X('text:note', {'text:note-class': k.name.lower()}, [
                    X('text:note-citation', {}, [k.attrs['number']]),
                    X('text:note-body', {}, [p for l in k.kids if l.name == 'ListHeader'
                                             for p in self.paragraphs(l)])]))

    def table(self, t):
        tid = int(t.attrs['table-id']) + 1
        body = [k for k in t.kids if k.name == 'TableBody'][0]
        self.need['Table-%d' % tid] = ('table', t)
        rows = []
        for r, row in enumerate(k for k in body.kids if k.name == 'TableRow'):
            cells = []
            for c, cell in enumerate(k for k in row.kids if k.name == 'TableCell'):
                name = 'Table-%d-%d-%d' % (tid, r + 1, c + 1)
                self.need[name] = ('table-cell', cell)
                cells.append(X('table:table-cell', {
                    'table:style-name': name,
                    'table:number-columns-spanned': cell.attrs['colspan'],
                    'table:number-rows-spanned': cell.attrs['rowspan']}, self.paragraphs(cell)))
            if not cells:
                cells = [X('table:covered-table-cell',
                           {'table:number-columns-repeated': body.attrs['cols']})]
            rows.append(X('table:table-row', {}, cells))
        return X('table:table', {'table:style-name': 'Table-%d' % tid},
                 [X('table:table-column',
                    {'table:number-columns-repeated': body.attrs['cols']})] + rows)

    def shape(self, s, control):
        name = 'Shape-%d' % (int(s.attrs['shape-id']) + 1)
        attrs = {'draw:style-name': name}
        if control is not None:
            attrs['text:anchor-type'] = 'as-char' if control.attrs['inline'] == '1' else 'paragraph'
        boxes = [k for k in s.kids if k.name == 'TextboxParagraphList']
        chid = s.attrs['chid']
        if chid == '$con':
            kids = [y for k in s.kids if k.name == 'ShapeComponent' for y in self.shape(k, None)]
            out = [X('draw:g', attrs, kids)]
        elif chid == '$pic':
            out = [X('draw:frame', attrs, [i for k in s.kids if k.name == 'ShapePicture'
                                           for i in self.image(k)])]
        elif chid == '$rec' and not any(b.find('TableControl') for b in boxes):
            out = [X('draw:rect', attrs, [p for b in boxes for p in self.paragraphs(b)])]
        elif chid == '$lin':
            out = [X('draw:line', attrs)]
        elif any(True for b in boxes for p in paragraphs_of(b)):
            out = [X('draw:frame', attrs, [X('draw:text-box', {}, [
                p for b in boxes for p in self.paragraphs(b)])])]
        else:
            return []
        self.need[name] = ('graphic', s)
        return out

    def image(self, k):
        b = self.nth('BinData', int(k.find('PictureInfo').attrs['bindata-id']) - 1)
        e = b.find('BinDataEmbedding') if b is not None else None
        if e is None:
            return []
        name = e.attrs['storage-id'] + '.' + e.attrs['ext']
        if self.inline is not None:
            return [X('draw:image', {}, [X('office:binary-data', {'bytes': self.inline[name]})])]
        return [X('draw:image', {'xlink:href': 'bindata/' + name})]


def section_paragraphs(x):
    for k in x.kids:
        if not isinstance(k, str):
            if k.name == 'Paragraph':
                yield k
            else:
                for p in section_paragraphs(k):
                    yield p


def name_of(tag):
    if not isinstance(tag, str) or tag[0] != '{':
        return str(tag)
    uri, local = tag[1:].split('}')
    return NS.get(uri, uri) + ':' + local


KEEP = {'text:p': ['text:style-name'], 'text:span': ['text:style-name'],
        'text:note': ['text:note-class'], 'table:table': ['table:style-name'],
        'table:table-column': ['table:number-columns-repeated'],
        'table:covered-table-cell': ['table:number-columns-repeated'],
        'table:table-cell': ['table:style-name', 'table:number-columns-spanned',
                             'table:number-rows-spanned'],
        'draw:frame': ['draw:style-name', 'text:anchor-type'],
        'draw:rect': ['draw:style-name', 'text:anchor-type'],
        'draw:line': ['draw:style-name', 'text:anchor-type'],
        'draw:g': ['draw:style-name', 'text:anchor-type'], 'draw:image': ['xlink:href']}


def from_odf(e):
    name = name_of(e.tag)
    if name == 'office:binary-data':
        try:
            return X(name, {'bytes': base64.b64decode(e.text or '', validate=False)})
        except ValueError as x:
            fail('embedded data is not base64: %s', x)
    attrs = {name_of(k): v for k, v in e.attrib.items()}
    attrs = {k: attrs[k] for k in KEEP.get(name, ()) if k in attrs}
    kids = []
    for t in [e.text] + [y for k in e for y in (k, k.tail)]:
        if t is not None and not isinstance(t, str):
            if name_of(t.tag) in ('text:s',):
                t = ' ' * int(dict((name_of(k), v) for k, v in t.attrib.items()).get('text:c', 1))
            elif name_of(t.tag) == 'text:sequence-decls':
                continue
            else:
                t = from_odf(t)
        if isinstance(t, str) and kids and isinstance(kids[-1], str):
            kids[-1] += t
        elif t is not None and t != '':
            kids.append(t)
    return X(name, attrs, kids)


def ns(name):
    p, l = name.split(':')
    return '{%s}%s' % ([u for u, q in NS.items() if q == p][0], l)


# ------------------------------------------------------------------ styles
class Styles(object):
    '''styles defined in one or two parts'''

    def __init__(self, parts):
        self.defined = {}
        self.pages, self.layouts = set(), set()
        for part in parts:
            for e in part.iter(ns('style:style')):
                self.defined.setdefault((e.get(ns('style:family')), e.get(ns('style:name'))),
                                        []).append(e)
            for e in part.iter(ns('style:master-page')):
                self.pages.add(e.get(ns('style:name')))
                self.need_layout = e.get(ns('style:page-layout-name'))
                self.layouts.add(self.need_layout)
        self.have = set(e.get(ns('style:name')) for part in parts
                        for e in part.iter(ns('style:page-layout')))


def mm(s):
    ok(s is not None and s.endswith('mm'), 'length %r', s)
    return round(float(s[:-2]), 2)


def near(got, want, what):
    ok(abs(got - want) <= 0.0101, '%s: %r is not %r', what, got, want)


def verify_styles(ref, parts, doc):
    s = Styles(parts)
    t = c36.Tables(doc)
    local = set(c36.ncname(x.attrs['local-name']) for x in ref.kinds.get('Style', ()))
    for name, (family, want) in sorted(ref.need.items()):
        d = s.defined.get((family, name), [])
        if name in local:
            ok(d, 'style %r is not defined', name)
            continue
        eq(len(d), 1, 'definitions of the style %r' % name)
        e = d[0]
        if family == 'paragraph':
            eq(e.get(ns('style:parent-style-name')), want['parent'], 'parent of %s' % name)
            p = e.find(ns('style:paragraph-properties'))
            ok(p is not None, 'no paragraph properties of %s', name)
            eq(p.get(ns('fo:break-before')), 'page' if want['page'] == '1' else None,
               'break before %s' % name)
            shape = ref.nth('ParaShape', want['shape'])
            w = c36.want_para(shape)
            eq([c36.pt(p.get(ns('fo:margin-' + k))) for k in ('top', 'right', 'bottom')],
               w['margin'][:3], 'margins of %s' % name)
        elif family == 'text':
            c = ref.nth('CharShape', want)
            p = e.find(ns('style:text-properties'))
            ok(p is not None, 'no text properties of %s', name)
            w = c36.want_char(c)
            eq((p.get(ns('fo:font-style')), p.get(ns('fo:font-weight'))),
               (w['font-style'], w['font-weight']), 'emphasis of %s' % name)
            c36.eqfont((p.get(ns('style:font-name')), c36.pt(p.get(ns('fo:font-size')))),
                       c36.want_font(t.fonts, c, 'en'), 'western font of %s' % name)
        elif family == 'table-cell':
            p = e.find(ns('style:table-cell-properties'))
            ok(p is not None, 'no cell properties of %s', name)
            for k in ('left', 'right', 'top', 'bottom'):
                near(mm(p.get(ns('fo:padding-' + k))),
                     int(want.attrs['padding-' + k]) / 7200. * 25.4, 'padding of %s' % name)
            b = ref.nth('BorderFill', int(want.attrs['borderfill-id']) - 1)
            for k in (b.kids if b is not None else ()):
                if k.name == 'Border' and k.attrs['attribute-name'] != 'diagonal':
                    eq(p.get(ns('fo:border-' + k.attrs['attribute-name'])),
                       ' '.join(k.attrs[a] for a in ('width', 'stroke-type', 'color')),
                       '%s border of %s' % (k.attrs['attribute-name'], name))
        elif family == 'table':
            p = e.find(ns('style:table-properties'))
            ok(p is not None, 'no table properties of %s', name)
            if want.attrs.get('width-relto') == 'absolute':
                near(mm(p.get(ns('style:width'))), int(want.attrs['width']) / 7200. * 25.4,
                     'width of %s' % name)
    for name in s.layouts:
        ok(name in s.have, 'page layout %r is not defined', name)


def verify_pages(root, styles):
    n = sum(1 for x in root.find('BodyText').kids if x.name == 'SectionDef')
    s = Styles([styles])
    eq(len(s.pages), n, 'number of master pages')
    eq(len(s.have), n, 'number of page layouts')


def compare(ref, part):
    texts = list(part.iter(ns('office:text')))
    eq(len(texts), 1, 'number of office:text')
    d = refxml.diff(norm(ref.body()), norm(from_odf(texts[0])))
    if d:
        fail('%s', d)


def norm(x):
    '''spaces at the ends of lines of text are as in the document'''
    kids = []
    for k in x.kids:
        k = k if isinstance(k, str) else norm(k)
        if isinstance(k, str) and kids and isinstance(kids[-1], str):
            kids[-1] += k
        elif k != '':
            kids.append(k)
    return X(x.name, x.attrs, kids)


# ------------------------------------------------------------------ running
_C = {}


def transform(embedbin=False):
    if 'T' not in _C:
        from hwp5.hwp5odt import ODTTransform
        _C['T'] = ODTTransform()
    _C['T'].embedbin = embedbin
    return _C['T']


def valid(data):
    '''verdict of an own instance of the schema'''
    from lxml import etree
    if 'rng' not in _C:
        _C['rng'] = etree.RelaxNG(
            file=env.SRC + '/hwp5/odf-relaxng/OpenDocument-v1.2-os-schema.rng')
    root = etree.fromstring(data, etree.XMLParser(huge_tree=True))
    if not _C['rng'].validate(root):
        return root, str(_C['rng'].error_log.last_error)
    return root, None


def parsed(data, what):
    root, error = valid(data)
    ok(not error, '%s is not valid: %s', what, error)
    return root


def output(doc, what, **kw):
    f = io.BytesIO()
    getattr(transform(**kw), 'transform_hwp5_to_' + what)(doc.hwp5file(), f)
    return parsed(f.getvalue(), what)


def label(doc, rec, root):
    n = 0
    for name in ('TableControl', 'GShapeObjectControl', 'ShapePicture', 'FootNote', 'EndNote'):
        if root.find('BodyText').find(name):
            rec.label(name)
            n += 1
    for x in root.find('BodyText').iter():
        if x.name.startswith('Field'):
            rec.label('field')
            n += 1
            break
    if len(doc.sections) > 1:
        rec.label('sections')
        n += 1
    if any(len(p.shapes) > 1 for p in doc.paragraphs()):
        rec.label('several shapes')
        n += 1
    if n:
        rec.nontrivial()


def check(case, rec):
    doc, embed = case
    root = refxml.expected(doc)
    label(doc, rec, root)
    ref = Odt(root, dict(doc.bindata) if embed else None)
    out = output(doc, 'single_document', embedbin=embed)
    compare(ref, out)
    verify_styles(ref, [out], doc)
    verify_pages(root, out)


def check_big(case, rec):
    doc, kind, seed = case
    doc = big.make(doc, kind, seed)
    rec.label(kind[0])
    rec.nontrivial()
    with deep.unbounded():
        root = refxml.expected(doc)
        hwp5file = doc.hwp5file()
        ref = Odt(root, None)
    f = io.BytesIO()
    transform().transform_hwp5_to_single_document(hwp5file, f)
    with deep.unbounded():
        out = parsed(f.getvalue(), 'single_document')
        compare(ref, out)
        verify_styles(ref, [out], doc)


def check_deep(case, rec):
    doc, n, seed = case
    with deep.unbounded():
        doc = deep.deepen(doc, n, seed, ['tbl '])
        root = refxml.expected(doc)
        hwp5file = doc.hwp5file()
        ref = Odt(root, None)
    rec.label('%d00 levels' % (n // 100))
    rec.nontrivial(n > 100)
    f = io.BytesIO()
    with deep.ordinary():
        transform().transform_hwp5_to_single_document(hwp5file, f)
    with deep.unbounded():
        out = parsed(f.getvalue(), 'single_document')
        compare(ref, out)
        verify_styles(ref, [out], doc)


def check_parts(doc, rec):
    root = refxml.expected(doc)
    label(doc, rec, root)
    ref = Odt(root)
    content = output(doc, 'content')
    compare(ref, content)
    styles = output(doc, 'styles')
    verify_styles(ref, [content, styles], doc)
    verify_pages(root, styles)


MANIFEST = '{urn:oasis:names:tc:opendocument:xmlns:manifest:1.0}'


def verify_package(data, doc, root, rec, embed):
    from lxml import etree
    z = zipfile.ZipFile(io.BytesIO(data))
    eq(z.testzip(), None, 'damaged member')
    names = z.namelist()
    eq(len(set(names)), len(names), 'members are unique: %r' % names)
    want = ['bindata/' + n for n in doc.bindata] + [
        'styles.xml', 'content.xml', 'manifest.rdf', 'META-INF/manifest.xml', 'mimetype']
    eq(sorted(names), sorted(want), 'members of the package')
    eq(names[0], 'mimetype', 'first member')
    eq(z.infolist()[0].compress_type, zipfile.ZIP_STORED, 'compression of mimetype')
    eq(z.read('mimetype'), b'application/vnd.oasis.opendocument.text', 'mimetype')
    m = etree.fromstring(z.read('META-INF/manifest.xml'))
    eq(m.tag, MANIFEST + 'manifest', 'root of the manifest')
    entries = [(e.get(MANIFEST + 'full-path'), e.get(MANIFEST + 'media-type')) for e in m]
    kinds = {'styles.xml': 'text/xml', 'content.xml': 'text/xml',
             'manifest.rdf': 'application/rdf+xml'}
    eq(sorted(entries), sorted([('/', 'application/vnd.oasis.opendocument.text')] + [
        (n, kinds.get(n, 'application/octet-stream')) for n in want[:-2]]), 'manifest')
    for n, d in doc.bindata.items():
        eq(z.read('bindata/' + n), d, 'bytes of bindata/%s' % n)
        rec.label('binary data')
    rdf = etree.fromstring(z.read('manifest.rdf'))
    for e in rdf.iter():
        for k, v in e.attrib.items():
            if v.endswith('.xml'):
                ok(v in names, 'manifest.rdf refers to %r', v)
    ref = Odt(root, dict(doc.bindata) if embed else None)
    content = parsed(z.read('content.xml'), 'content.xml')
    styles = parsed(z.read('styles.xml'), 'styles.xml')
    compare(ref, content)
    verify_styles(ref, [content, styles], doc)
    verify_pages(root, styles)
    for e in content.iter(ns('draw:image')):
        href = e.get(ns('xlink:href'))
        ok(href is None or href in names, 'no member %r', href)


def check_package(case, rec):
    doc, how = case
    root = refxml.expected(doc)
    label(doc, rec, root)
    rec.label(how)
    embed = 'embed' in how and 'no' not in how
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/in.hwp')
        out = d + '/out.odt'
        if how == 'api':
            from hwp5.hwp5odt import open_odtpkg
            with open_odtpkg(out) as pkg:
                transform().transform_hwp5_to_package(doc.hwp5file(), pkg)
        elif how == 'zipfile':
            from hwp5.hwp5odt import ODTPackage
            pkg = ODTPackage(zipfile.ZipFile(out, 'w'))
            transform().transform_hwp5_to_package(doc.hwp5file(), pkg)
            pkg.close()
        elif how == 'default name':
            cli.success('hwp5odt', [path], cwd=d)
            out = d + '/in.odt'
        else:
            opts = [] if how == 'output' else ['--' + how]
            cli.success('hwp5odt', opts + ['--output', out, path])
        with open(out, 'rb') as f:
            data = f.read()
        eq(sorted(os.listdir(d)), sorted(['in.hwp', os.path.basename(out)]),
           'files beside the output')
    verify_package(data, doc, root, rec, embed)


def check_nested(case, rec):
    '''storages among the binary data'''
    doc, extra, how = case
    tree = doc.tree()
    bin = tree.setdefault('BinData', {})
    for n, v in extra.items():
        bin.setdefault(n, v)
    want = dict(flat(bin))
    rec.nontrivial(any('/' in n for n in want))
    rec.label(how)
    with gen.workdir() as d:
        path = gen.write_ole(tree, d + '/in.hwp')
        out = d + '/out'
        if how == 'html':
            cli.success('hwp5html', ['--output', out, path])
            got = {}
            for top, dirs, names in os.walk(out + '/bindata'):
                for n in names:
                    with open(os.path.join(top, n), 'rb') as f:
                        got[os.path.relpath(os.path.join(top, n), out + '/bindata')] = f.read()
        else:
            cli.success('hwp5odt', ['--output', out, path])
            with zipfile.ZipFile(out) as z:
                got = {n[8:]: z.read(n) for n in z.namelist() if n.startswith('bindata/')}
                m = z.read('META-INF/manifest.xml').decode('utf-8')
                for n in want:
                    ok(xml_attr('bindata/' + n) in m, 'no entry for bindata/%s in the manifest', n)
    eq(got, want, 'binary data of %s' % how)


def xml_attr(s):
    from xml.sax.saxutils import quoteattr
    return 'full-path=' + quoteattr(s)


def flat(tree, path=''):
    for n, v in tree.items():
        if isinstance(v, dict):
            for x in flat(v, path + n + '/'):
                yield x
        else:
            yield path + n, v


def check_huge(case, rec):
    '''binary data far larger than the rest of the document'''
    doc, huge, how = case
    for n in list(doc.bindata)[:1]:
        doc.bindata[n] = gen.repeated(huge)
        rec.label('huge')
    check_package((doc, how), rec)


def check_cli(case, rec):
    doc, part, embed, to = case
    root = refxml.expected(doc)
    label(doc, rec, root)
    rec.label('%s %s' % (part, embed))
    data = dict(doc.bindata)
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/in.hwp')
        args = ['--' + part] + (['--' + embed] if embed else [])
        if to == 'stdout':
            out = cli.success('hwp5odt', args + [path]).out
        else:
            cli.success('hwp5odt', args + ['--output', d + '/o.xml', path])
            with open(d + '/o.xml', 'rb') as f:
                out = f.read()
    out = parsed(out, part)
    if part == 'styles':
        verify_pages(root, out)
        eq(len(list(out.iter(ns('office:text')))), 0, 'texts in the styles')
        return
    inline = embed == 'embed-image' or part == 'document' and embed != 'no-embed-image'
    compare(Odt(root, data if inline else None), out)


def check_wild(doc, rec):
    '''whatever the document refers to, an invalid output is an error'''
    root = refxml.expected(doc)
    label(doc, rec, root)
    from hwp5.errors import ValidationFailed
    for what in ('single_document', 'content', 'styles'):
        f = io.BytesIO()
        try:
            getattr(transform(), 'transform_hwp5_to_' + what)(doc.hwp5file(), f)
        except ValidationFailed:
            rec.label(what + ' rejected')
            eq(f.getvalue(), b'', 'output of a rejected conversion')
            f = io.BytesIO()
            T = unvalidated()
            getattr(T, 'transform_hwp5_to_' + what)(doc.hwp5file(), f)
            ok(valid(f.getvalue())[1], 'valid %s is rejected', what)
        else:
            rec.label(what + ' valid')
            parsed(f.getvalue(), what)


def unvalidated():
    if 'U' not in _C:
        from hwp5.hwp5odt import ODTTransform
        _C['U'] = ODTTransform()
        _C['U'].relaxng_compile = None
    return _C['U']


def known_probes(fid):
    from hwp5.xmlmodel import Hwp5File
    from lib import recgen
    if fid == 'odt-spaces':
        doc = Hwp5File(env.REPO + '/tests/hwp5_tests/fixtures/sample-5017.hwp')
        f = io.BytesIO()
        transform().transform_hwp5_to_content(doc, f)
        return b'> </text:span>' in f.getvalue()
    if fid == 'odt-ext-symbols':
        from hwp5.errors import ValidationFailed
        with doc_xml(Hwp5File(env.REPO + '/tests/hwp5_tests/fixtures/sample-5017.hwp')) as path:
            with open(path, encoding='utf-8') as f:
                s = f.read()
            s2 = s.replace('ext="jpg"', 'ext="j]g"')
            ok(s2 != s, 'no images')
            with open(path, 'w', encoding='utf-8') as f:
                f.write(s2)
            try:
                transform().transform_xhwp5_to_content(path, io.BytesIO())
            except ValidationFailed:
                return True
            return False
    if fid == 'odt-style-symbols':
        from hwp5.errors import ValidationFailed
        doc = Hwp5File(env.REPO + '/tests/hwp5_tests/fixtures/sample-5017.hwp')
        with doc_xml(doc) as path:
            with open(path, encoding='utf-8') as f:
                s = f.read()
            s2 = s.replace('local-name="', 'local-name="\u25a1 ')
            ok(s2 != s, 'no styles')
            with open(path, 'w', encoding='utf-8') as f:
                f.write(s2)
            try:
                transform().transform_xhwp5_to_styles(path, io.BytesIO())
            except ValidationFailed:
                return True
            return False


def doc_xml(doc):
    return transform().transformed_xhwp5_at_temp(doc)


def tests(tier):
    sane = dict(mode='sane', images=3, links=True)
    docs = docgen.docs(**sane)
    e = st.booleans()
    return [
        Test('documents', st.tuples(docs, e), check, 300, 10000),
        Test('wild documents', docgen.docs(info='full'), check_wild, 120, 6000),
        Test('tables', st.tuples(docgen.docs(weights=docgen.TABLES, **sane), e), check, 160, 6000),
        Test('fields', st.tuples(docgen.docs(weights=docgen.FIELDS, **sane), e), check, 160, 6000),
        Test('lists', st.tuples(docgen.docs(weights=docgen.LISTS, **sane), e), check, 160, 6000),
        Test('parts', docs, check_parts, 150, 6000),
        Test('deep tables', deep_docs(250, mode='sane'), check_deep, 16, 400),
        Test('large documents', st.tuples(docgen.docs(mode='sane', maxparas=2, maxsections=1),
                                          st.sampled_from(big.KINDS), st.integers(0, 2 ** 32)), check_big,
             24, 600),
        Test('sections', docgen.docs(mode='sane', maxparas=4, maxsections=5, numbers='sparse'),
             check_parts, 80, 3000),
        Test('packages', st.tuples(docs, st.sampled_from([
            'api', 'zipfile', 'output', 'default name', 'embed-image', 'no-embed-image'])),
            check_package, 150, 6000),
        Test('nested binary data', st.tuples(
            docgen.docs(mode='sane', images=2, maxparas=2, maxsections=1, flags=0), st.dictionaries(
                st.sampled_from(['BIN0101.ole', 'BIN0102', 'OLE', 'X.bin']), st.recursive(
                    st.binary(max_size=20), lambda k: st.dictionaries(st.sampled_from(
                        ['a', 'B.x', '\uac00', 'Contents']), k, min_size=1, max_size=3), max_leaves=5),
                max_size=3), st.sampled_from(['odt', 'odt', 'html'])), check_nested, 60, 3000),
        Test('huge binary data', st.tuples(docgen.docs(mode='sane', images=2, maxparas=2, maxsections=1),
                                           gen.hugedata(), st.sampled_from(['api', 'zipfile', 'output'])),
             check_huge, 16, 200),
        Test('command line', st.tuples(docs, st.sampled_from(['document', 'content', 'styles']),
                                       st.sampled_from([None, 'embed-image', 'no-embed-image']),
                                       st.sampled_from(['stdout', 'output'])), check_cli, 100, 4000),
    ]
