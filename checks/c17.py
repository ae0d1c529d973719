# -*- coding: utf-8 -*-
import base64
import io
import os
import re

from hypothesis import strategies as st

from checks import c36
from lib import big, cli, deep, docgen, gen, refxml
from lib.memstg import MemStorage
from lib.refxml import X
from lib.runner import Test, eq, fail, ok
from .xmldoc import deep_docs

RULE = ('the document has a table, a nested list, a field, a picture, an auto number, several '
        'shapes in one paragraph or several sections')

BORDER_STYLES = {'none', 'hidden', 'dotted', 'dashed', 'solid', 'double', 'groove', 'ridge',
                 'inset', 'outset'}


# ------------------------------------------------------------------ reference
def paragraphs_of(x):
    '''the paragraphs of a list, grouped in columns or not'''
    for k in x.kids:
        if not isinstance(k, str):
            if k.name == 'Paragraph':
                yield k
            elif k.name == 'ColumnSet':
                for p in paragraphs_of(k):
                    yield p


class Html(object):
    '''the body of the HTML document, as elements of their name, class and spans'''

    def __init__(self, root, inline=None):
        self.root = root
        self.inline = inline        # {storage id: bytes}, if data is embedded
        maps = root.find('DocInfo').find('IdMappings')
        self.kinds = {}
        for k in (maps.kids if maps else ()):
            self.kinds.setdefault(k.name, []).append(k)

    def nth(self, kind, i):
        try:
            i = int(i)
        except (TypeError, ValueError):
            return None
        l = self.kinds.get(kind, ())
        return l[i] if 0 <= i < len(l) else None

    def body(self):
        return X('body', {}, [self.section(x) for x in self.root.find('BodyText').kids
                              if x.name == 'SectionDef'])

    def areas(self, name, cls):
        return [X('div', {'class': cls}, self.flow([p for l in h.kids if l.name == name + 'ParagraphList'
                                                    for p in paragraphs_of(l)]))
                for h in self.root.iter(name)]

    def section(self, s):
        page = X('div', {'class': 'Page'}, self.flow(s.kids))
        return X('div', {'class': 'Section Section-%s Paper' % s.attrs['section-id']}, [
            X('div', {'class': 'HeaderPageFooter'},
              self.areas('Header', 'HeaderArea') + [page] + self.areas('Footer', 'FooterArea'))])

    def flow(self, kids):
        out = []
        for k in kids:
            if isinstance(k, str):
                out.append(k)
            elif k.name == 'Paragraph':
                out += self.paragraph(k)
            elif k.name == 'TableCaption':
                out.append(X('caption', {'class': 'TableCaption'}, self.flow(k.kids)))
            elif k.name == 'TableRow':
                out.append(X('tr', {}, self.flow(k.kids)))
            elif k.name == 'TableCell':
                out.append(X('td', {'class': 'borderfill-%s' % k.attrs['borderfill-id'],
                                    'rowspan': k.attrs['rowspan'], 'colspan': k.attrs['colspan']},
                             self.flow(k.kids)))
            elif k.name == 'ShapePicture':
                out.append(self.picture(k))
            else:
                out += self.flow(k.kids)
        return out

    def style(self, p):
        return self.nth('Style', p.attrs['style-id'])

    def bullet(self, pid):
        s = self.nth('ParaShape', pid)
        b = s.attrs['numbering-bullet-id'] if s else '0'
        return ['Bullet-' + b] if int(b) > 0 else []

    def paragraph(self, p):
        style = self.style(p)
        cls = [style.attrs['name'].replace(' ', '-')] if style else []
        pid = p.attrs['parashape-id']
        if style is None or style.attrs['parashape-id'] != pid:
            cls.append('parashape-' + pid)
        cls += self.bullet(pid)
        kids, tables, shapes = [], [], []
        for line in p.kids:
            if not isinstance(line, str) and line.name == 'LineSeg':
                self.inlines(line.kids, p, style, kids, tables, shapes)
        out = [X('p', {'class': ' '.join(cls)}, kids)]
        return out + [self.table(t) for t in tables] + [self.shape(s) for s in shapes]

    def inlines(self, items, p, style, kids, tables, shapes):
        for k in items:
            if k.name == 'Text':
                cls = 'lang-' + k.attrs['lang']
                if style is None or style.attrs['charshape-id'] != k.attrs['charshape-id']:
                    cls += ' charshape-' + k.attrs['charshape-id']
                kids.append(X('span', {'class': cls}, [k.text()]))
            elif k.name == 'ControlChar':
                kids.append(k.attrs.get('char', ''))
            elif k.name == 'AutoNumbering':
                kids.append(X('span', {'class': 'autonumbering autonumbering-' + k.attrs['kind']},
                              [''.join(k.attrs.get(a, '') for a in ('prefix', 'number', 'suffix'))]))
            elif k.name == 'TableControl':
                if k.attrs['inline'] == '1':
                    kids.append(X('span', {'class': 'TableControl'}, [self.table(k)]))
                else:
                    tables.append(k)
            elif k.name == 'GShapeObjectControl':
                if k.attrs['inline'] == '1':
                    kids.append(self.shape(k, 'span'))
                else:
                    shapes.append(k)
            elif k.name.startswith('Field'):
                self.inlines([x for x in k.kids if not isinstance(x, str)], p, style, kids,
                             tables, shapes)

    def table(self, t):
        cls = [] if t.attrs['inline'] == '1' else ['TableControl']
        body = next((k for k in t.kids if k.name == 'TableBody'), None)
        cls.append('borderfill-%s' % (body.attrs['borderfill-id'] if body else ''))
        return X('table', {'class': ' '.join(cls)}, self.flow(t.kids))

    def shape(self, s, name='div'):
        return X(name, {'class': 'GShapeObjectControl'}, self.flow(s.kids))

    def picture(self, k):
        info = k.find('PictureInfo')
        b = self.nth('BinData', int(info.attrs['bindata-id']) - 1)
        e = b.find('BinDataEmbedding') if b else None
        if e is None:
            return X('img', {})
        sid, ext = e.attrs['storage-id'], e.attrs['ext']
        if self.inline is not None:
            return X('img', {'src': self.inline[sid + '.' + ext]})
        return X('img', {'src': 'bindata/%s.%s' % (sid, ext)})


XHTML = '{http://www.w3.org/1999/xhtml}'


def from_html(data):
    from lxml import etree
    root = etree.fromstring(data, etree.XMLParser(huge_tree=True))

    def conv(e):
        if not isinstance(e.tag, str):
            return ''
        ok(e.tag.startswith(XHTML), 'element %s is not XHTML', e.tag)
        return X(e.tag[len(XHTML):], dict(e.attrib),
                 ([e.text] if e.text else []) + [y for k in e
                                                 for y in (conv(k), k.tail) if y])
    return conv(root)


KEEP = {'div': ['class'], 'p': ['class'], 'span': ['class'], 'table': ['class'],
        'caption': ['class'], 'td': ['class', 'rowspan', 'colspan'], 'img': ['src']}


def normal(x, inline=False):
    attrs = {}
    for k in KEEP.get(x.name, ()):
        if k in x.attrs:
            v = x.attrs[k]
            if k == 'class':
                v = ' '.join(v.split())
            elif k == 'src' and isinstance(v, str) and v.startswith('data:'):
                try:
                    v = base64.b64decode(v.partition(',')[2])
                except ValueError:
                    pass
            attrs[k] = v
    kids = []
    for k in x.kids:
        k = k if isinstance(k, str) else normal(k)
        if isinstance(k, str) and kids and isinstance(kids[-1], str):
            kids[-1] += k
        elif k != '':
            kids.append(k)
    return X(x.name, attrs, kids)


def compare(root, html, inline=None):
    eq(html.name, 'html', 'root element')
    eq([k.name for k in html.kids], ['head', 'body'], 'parts of the document')
    d = refxml.diff(normal(Html(root, inline).body()), normal(html.kids[1]))
    if d:
        fail('%s', d)


# ------------------------------------------------------------------ checks
def label(doc, rec, root):
    n = 0
    for name in ('TableControl', 'GShapeObjectControl', 'ShapePicture', 'AutoNumbering', 'Header',
                 'Footer', 'TableCaption'):
        if root.find(name):
            rec.label(name)
            n += 1
    for x in root.find('BodyText').iter():
        if x.name.startswith('Field'):
            rec.label('field')
            n += 1
            break
    if len(doc.sections) > 1:
        rec.label('sections')
        n += 1
    if any(len(p.shapes) > 1 for p in doc.paragraphs()):
        rec.label('several shapes')
        n += 1
    if n:
        rec.nontrivial()


def xhtml(hwp5file, **kw):
    f = io.BytesIO()
    transform(**kw).transform_hwp5_to_xhtml(hwp5file, f)
    return f.getvalue()


_T = {}


def transform(**kw):
    key = tuple(kw.items())
    if key not in _T:
        from hwp5.hwp5html import HTMLTransform
        _T[key] = HTMLTransform(**kw)
    return _T[key]


def check(doc, rec):
    root = refxml.expected(doc)
    label(doc, rec, root)
    compare(root, from_html(xhtml(doc.hwp5file())))


def check_deep(case, rec):
    doc, n, seed = case
    with deep.unbounded():
        doc = deep.deepen(doc, n, seed)
        root = refxml.expected(doc)
        hwp5file = doc.hwp5file()
    rec.label('%d00 levels' % (n // 100))
    rec.nontrivial(n > 100)
    with deep.ordinary():
        html = xhtml(hwp5file)
    with deep.unbounded():
        compare(root, from_html(html))


def check_big(case, rec):
    doc, kind, seed = case
    doc = big.make(doc, kind, seed)
    rec.label(kind[0])
    rec.nontrivial()
    with deep.unbounded():
        root = refxml.expected(doc)
        hwp5file = doc.hwp5file()
    html = xhtml(hwp5file)
    with deep.unbounded():
        compare(root, from_html(html))


def check_inline(doc, rec):
    root = refxml.expected(doc)
    label(doc, rec, root)
    data = {n: d for n, d in doc.bindata.items()}
    compare(root, from_html(xhtml(doc.hwp5file(), embedbin=True)), data)


def classes(x):
    for k in x.kids:
        if not isinstance(k, str):
            for c in k.attrs.get('class', '').split():
                yield k.name, c
            for y in classes(k):
                yield y


def check_dir(case, rec):
    doc, how = case
    root = refxml.expected(doc)
    label(doc, rec, root)
    rec.label(how)
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/in.hwp')
        out = d + '/out'
        if how == 'api':
            os.mkdir(out)
            transform().transform_hwp5_to_dir(doc.hwp5file(), out)
        elif how == 'default name':
            cli.success('hwp5html', [path], cwd=d)
            out = d + '/in'
        else:
            if how == 'again':
                os.mkdir(out)
                with open(out + '/old', 'wb') as f:
                    f.write(b'old')
            cli.success('hwp5html', ['--output', out, path])
        files = {}
        for top, dirs, names in os.walk(out):
            for n in names:
                with open(os.path.join(top, n), 'rb') as f:
                    files[os.path.relpath(os.path.join(top, n), out)] = f.read()
        eq(sorted(os.listdir(d)), sorted(['in.hwp', os.path.basename(out)]),
           'files beside the output')
    want = {'bindata/' + n: v for n, v in doc.bindata.items()}
    eq(sorted(files), sorted(list(want) + ['index.xhtml', 'styles.css']), 'files of the output')
    for n in want:
        eq(files[n], want[n], 'content of %s' % n)
        rec.label('binary data')
    html = from_html(files['index.xhtml'])
    compare(root, html)
    links = [x.attrs['href'] for x in html.kids[0].iter('link')]
    eq(links, ['styles.css'], 'linked style sheets')
    for x in html.iter('img'):
        if 'src' in x.attrs:
            ok(x.attrs['src'] in files, 'no file %r', x.attrs['src'])
    css = files['styles.css'].decode('utf-8')
    local = ''.join(x.text() for x in html.kids[0].iter('style'))
    selectors = [s for s, _ in c36.parse_css(css)] + [s for s, _ in c36.parse_css(local)]
    for elem, c in sorted(set(classes(html.kids[1]))):
        m = re.match(r'(parashape|charshape|borderfill|Bullet|Section)-(\d+)$', c)
        if m and known(doc, m.group(1), int(m.group(2))):
            ok(any(re.search(r'\.%s(?![\w-])' % re.escape(c), s) for s in selectors),
               'no rule for class %r', c)
            rec.label('class ' + m.group(1))
    for url in re.findall(r'url\(([^()]*)\)', css):
        if url and not url.startswith('data:'):     # empty: no such embedding (C38)
            ok(url in files, 'no file %r', url)
    verify_borders(css, root)


def check_huge(case, rec):
    '''binary data far larger than the rest of the document'''
    doc, huge, how = case
    for n in list(doc.bindata)[:1]:
        doc.bindata[n] = gen.repeated(huge)
        rec.label('huge')
    check_dir((doc, how), rec)


def known(doc, kind, i):
    maps = [e for e in doc.docinfo if e.name == 'IdMappings'][0].node.content
    if kind == 'Section':
        return True
    n = maps.get({'parashape': 'parashapes', 'charshape': 'charshapes', 'borderfill': 'borderfills',
                  'Bullet': 'bullets'}[kind], 0)
    return i < n if kind in ('parashape', 'charshape') else 1 <= i <= n


def verify_borders(css, root):
    rules = dict(c36.parse_css(css))
    maps = root.find('DocInfo').find('IdMappings')
    fills = [k for k in maps.kids if k.name == 'BorderFill'] if maps else []
    for i, b in enumerate(fills):
        decls = dict(rules['.borderfill-%d' % (i + 1)])
        for k in b.kids:
            if k.name == 'Border' and k.attrs['attribute-name'] != 'diagonal':
                v = decls['border-' + k.attrs['attribute-name']].split()
                eq(len(v), 3, 'border %r' % (v,))
                ok(v[1] in BORDER_STYLES, 'border style %r of stroke type %s', v[1],
                   k.attrs['stroke-type'])
                eq(v[2], k.attrs['color'], 'border colour')


def check_cli(case, rec):
    doc, how = case
    root = refxml.expected(doc)
    label(doc, rec, root)
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/in.hwp')
        if how == 'stdout':
            out = cli.success('hwp5html', ['--html', path]).out
        else:
            r = cli.success('hwp5html', ['--html', '--output', d + '/o.html', path])
            eq(r.out, b'', 'output besides the file')
            with open(d + '/o.html', 'rb') as f:
                out = f.read()
        compare(root, from_html(out))


def known_probes(fid):
    from lib.env import REPO
    from hwp5.xmlmodel import Hwp5File
    fixtures = REPO + '/tests/hwp5_tests/fixtures/'
    if fid == 'html-title':
        html = from_html(xhtml(Hwp5File(fixtures + 'sample-5017.hwp')))
        return not ''.join(x.text() for x in html.iter('title'))
    if fid == 'html-notes':
        doc = Hwp5File(fixtures + 'footnote-endnote.hwp')
        note = refxml.actual(doc).find('FootNote').text()
        return note not in from_html(xhtml(doc)).text()


def tests(tier):
    sane = dict(mode='sane', images=3, links=True)
    docs = docgen.docs(**sane)
    return [
        Test('documents', docs, check, 300, 12000),
        Test('wild documents', docgen.docs(info='full'), check, 200, 10000),
        Test('tables', docgen.docs(weights=docgen.TABLES, **sane), check, 150, 8000),
        Test('fields', docgen.docs(weights=docgen.FIELDS, **sane), check, 150, 8000),
        Test('lists', docgen.docs(weights=docgen.LISTS, **sane), check, 150, 8000),
        Test('deep lists', deep_docs(240, mode='sane'), check_deep, 16, 400),
        Test('large documents', st.tuples(docgen.docs(mode='sane', maxparas=2, maxsections=1),
                                          st.sampled_from(big.KINDS), st.integers(0, 2 ** 32)), check_big,
             24, 600),
        Test('sections', docgen.docs(mode='sane', maxparas=4, maxsections=5, numbers='sparse'),
             check, 60, 3000),
        Test('inline images', docs, check_inline, 100, 4000),
        Test('directories', st.tuples(docs, st.sampled_from(['api', 'output', 'again',
                                                              'default name'])),
             check_dir, 100, 5000),
        Test('huge binary data', st.tuples(docgen.docs(mode='sane', images=2, maxparas=2, maxsections=1),
                                           gen.hugedata(), st.sampled_from(['api', 'output'])),
             check_huge, 16, 200),
        Test('command line', st.tuples(docs, st.sampled_from(['stdout', 'output'])), check_cli,
             50, 3000),
    ]
