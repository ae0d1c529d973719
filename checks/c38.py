# -*- coding: utf-8 -*-
import io
import math
import re

from hypothesis import strategies as st

from checks import c17, c36
from checks.c17 import Html, from_html, transform, xhtml
from lib import cli, docgen, gen, refxml
from lib.runner import Test, eq, fail, ok

RULE = ('the document has a shape with a decoration, indent or fill, a table with padding, or an '
        'object placed by its position')


# ------------------------------------------------------------------ lengths
class Mm(object):
    '''a length given in HWPUNIT (1/7200 inch), written in mm with two digits'''

    def __init__(self, units):
        self.mm = units * 25.4 / 7200

    def matches(self, s):
        m = re.match(r'(-?\d+(?:\.\d+)?)mm$', s)
        return bool(m) and abs(float(m.group(1)) - self.mm) < 0.0051 + 1e-6 * abs(self.mm)

    def __repr__(self):
        return '%.3fmm' % self.mm


class Num(object):
    def __init__(self, value, unit):
        self.value, self.unit = value, unit

    def matches(self, s):
        m = re.match(r'(-?\d+(?:\.\d+)?)(\D*)$', s)
        return (bool(m) and m.group(2) == self.unit
                and math.isclose(float(m.group(1)), self.value, rel_tol=1e-9, abs_tol=1e-6))

    def __repr__(self):
        return '%r%s' % (self.value, self.unit)


def pt(units):
    return Num(units / 100, 'pt')


def matches(want, got):
    if isinstance(want, list):
        got = got.split()
        return len(got) == len(want) and all(matches(w, g) for w, g in zip(want, got))
    if isinstance(want, str):
        return want == got
    return want.matches(got)


def declarations(text):
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    out = []
    # a semicolon within url(...) or quotes does not end a declaration
    for d in re.findall(r'(?:url\([^()]*\)|"[^"]*"|[^;])+', text):
        if d.strip():
            k, colon, v = d.strip().partition(':')
            ok(colon, 'not a declaration: %r', d)
            out.append((k.strip(), v.strip()))
    return out


def verify(got, want, what, optional=()):
    '''got: [(property, value)]; want: {property: value or a list of alternatives (tuple)}'''
    last = {}
    for k, v in got:
        last.setdefault(k, []).append(v)
    for k, vs in last.items():
        if k not in want and k not in optional:
            fail('%s: unexpected %s: %s', what, k, vs[-1])
    for k, w in want.items():
        if w is None:
            # no length can be given: consumers skip an invalid one
            ok(all('NaN' in v for v in last.get(k, [])), '%s: unexpected %s: %r', what, k, last.get(k))
            continue
        ok(k in last, '%s: %s is missing, expected %r', what, k, w)
        ws = w if isinstance(w, tuple) else (w,)
        eq(len(last[k]), len(ws), '%s: number of %s declarations' % (what, k))
        for a, b in zip(ws, last[k]):
            ok(matches(a, b), '%s: %s is %r, expected %r', what, k, b, a)


# ------------------------------------------------------------------ shapes
def num(x, k):
    return float(x.attrs[k])


ALIGN = {'center': 'center', 'left': 'left', 'right': 'right'}


def para(p):
    d = {'margin': [pt(num(p, 'doubled-margin-' + k) / 2) for k in ('top', 'right', 'bottom', 'left')],
         'text-align': ALIGN.get(p.attrs['align'], 'justify'),
         'text-indent': pt(num(p, 'indent') / 2)}
    if num(p, 'indent') < 0:
        d['padding-left'] = pt(-num(p, 'indent') / 2)
    if p.attrs['linespacing-type'] == 'ratio':
        d['min-height'] = Num(num(p, 'linespacing') / 100, 'em')
    return d


def spans(p):
    if p.attrs['linespacing-type'] == 'ratio':
        return {'line-height': Num(num(p, 'linespacing') / 100, '')}
    return {}


DECORATIONS = {'underline': 'underline', 'overline': 'overline', 'line_through': 'line-through'}
STYLES = {'solid': 'solid', 'dashed': 'dashed', 'dotted': 'dotted', 'dash_dot': 'dashed',
          'dash_dot_dot': 'dashed', 'long_dashed': 'dashed', 'large_dotted': 'dotted',
          'double': 'double', 'lower_weighted': 'double', 'upper_weighted': 'double',
          'middle_weighted': 'double'}


def char(c):
    a = c.attrs
    d = {'color': a['text-color']}
    if a['italic'] == '1':
        d['font-style'] = 'italic'
    if a['bold'] == '1':
        d['font-weight'] = 'bold'
    if a['underline'] in DECORATIONS:
        d['text-decoration'] = DECORATIONS[a['underline']]
        for k in ('', '-moz-', '-webkit-'):
            d[k + 'text-decoration-color'] = a['underline-color']
            d[k + 'text-decoration-style'] = STYLES.get(a['underline-style'], '')
    return d


def generic(f):
    name = f.attrs['name']
    for part, kind in (('바탕', 'serif'), ('돋움', 'sans-serif'), ('명조', 'serif'),
                       ('고딕', 'sans-serif')):
        if part in name:
            return kind
    p = f.find('Panose1')
    if p is None:
        return None
    family = int(p.attrs['family-type'])
    if family == 2:
        if p.attrs['proportion'] == '9':
            return 'monospace'
        return 'sans-serif' if int(p.attrs['serif-style']) > 10 else 'serif'
    return {3: 'cursive', 4: 'fantasy'}.get(family)


STROKES = {'none': 'none', 'solid': 'solid', 'dashed': 'dashed', 'dotted': 'dotted',
           'dash-dot': 'dashed', 'dash-dot-dot': 'dashed', 'long-dash': 'dashed',
           'large-dot': 'dotted', 'double': 'double', 'double-2': 'double', 'double-3': 'double',
           'triple': 'double', 'wave': 'solid', 'double-wave': 'double', 'inset': 'inset',
           'outset': 'outset', 'groove': 'groove', 'ridge': 'ridge'}
WIDTHS = {'0.1mm': '1px', '0.12mm': '1px', '0.15mm': '1px', '0.2mm': '1px', '0.25mm': '1px',
          '0.4mm': '2px', '0.5mm': '2px'}


class Pattern(object):
    '''an own image for every kind of pattern'''
    seen = {}

    def __init__(self, kind):
        self.kind = kind

    def matches(self, s):
        if not re.match(r'url\(data:image/png;base64,[A-Za-z0-9+/=]+\)$', s):
            return False
        if self.seen.setdefault(self.kind, s) != s:
            return False
        return [k for k, v in self.seen.items() if v == s] == [self.kind]

    def __repr__(self):
        return 'image of pattern %s' % self.kind


def borderfill(b, html):
    d = {}
    for k in b.kids:
        if k.name == 'Border' and k.attrs['attribute-name'] != 'diagonal':
            a = k.attrs
            d['border-' + a['attribute-name']] = [WIDTHS.get(a['width'], a['width']),
                                                  STROKES.get(a['stroke-type'], 'solid'), a['color']]
    images = []
    for k in b.kids:
        if k.name == 'FillColorPattern':
            d['background-color'] = k.attrs['background-color']
            kind = k.attrs['pattern-type']
            if kind in ('horizontal', 'vertical', 'backslash', 'slash', 'grid', 'cross'):
                images.append(Pattern(kind))
        elif k.name == 'FillGradation':
            colors = ','.join(c.attrs['hex'] for c in k.kids if c.name == 'colors')
            value = 'linear-gradient(%sdeg%s)' % (k.attrs['shear'], ',' + colors if colors else '')
            images += [value, '-webkit-' + value, '-moz-' + value]
        elif k.name == 'FillImage' and k.attrs['fillimage-type'] == 'resize':
            data = html.nth('BinData', int(k.attrs['bindata-id']) - 1)
            e = data.find('BinDataEmbedding') if data else None
            images.append('url(bindata/%s.%s)' % (e.attrs['storage-id'], e.attrs['ext'])
                          if e else 'url()')
            d['background-size'] = '100% 100%'
    if images:
        d['background-image'] = tuple(images)
    return d


def bullet(b):
    a = b.attrs
    d = {'content': '"%s"' % a['char'], 'display': 'inline-block', 'text-align': a['align']}
    if int(a['width']) == 0:
        d['width'] = '1em'
        d['margin-right'] = Num(num(b, 'space') / 100, 'em')
    else:
        d['width'] = pt(num(b, 'width'))
        d['margin-right'] = pt(num(b, 'width') * num(b, 'space') / 100)
    return d


def face(fonts, size):
    return fonts, size


class Sheet(object):
    '''the rules of a style sheet, each used once'''

    def __init__(self, text):
        self.by = {}
        text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
        pos = 0
        for m in re.finditer(r'([^{}]*)\{((?:url\([^()]*\)|"[^"]*"|[^{}])*)\}', text):
            ok(not text[pos:m.start()].strip(), 'text between rules: %r', text[pos:m.start()])
            pos = m.end()
            self.by.setdefault(m.group(1).strip(), []).append(declarations(m.group(2)))
        ok(not text[pos:].strip(), 'text after the rules: %r', text[pos:])

    def take(self, sel):
        ok(self.by.get(sel), 'no (further) rule for %s', sel)
        return self.by[sel].pop(0)

    def rest(self):
        return sorted(k for k, v in self.by.items() if v)


def fontrules(sheet, sel, c, html, fonts):
    for l in ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user'):
        s = '%s.lang-%s' % (sel, l)
        got = sheet.take(s)
        size = pt(num(c, 'basesize') * float(c.find('RelativeSize').attrs[l]) / 100)
        i = int(c.find('FontFace').attrs[l])
        if i < len(fonts[l]):
            f = fonts[l][i]
            g = generic(f)
            verify(got, {'font-family': Words('"%s"%s' % (f.attrs['name'], ', ' + g if g else '')),
                         'font-size': size}, s)
        else:
            verify(got, {'font-size': size}, s, optional=['font-family'])


class Words(object):
    def __init__(self, s):
        self.s = s

    def matches(self, s):
        return self.s == s

    def __repr__(self):
        return repr(self.s)


LANGS = ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')


def fonts_of(html, maps):
    faces = list(html.kinds.get('FaceName', ()))
    out = {}
    for l in LANGS:
        n = int(maps.attrs[l + '-fonts'])
        out[l], faces = faces[:n], faces[n:]
    return out


FIXED = ['body', '.Paper', '.Paper:first-child', '.Paper:last-child']


def verify_styles(text, root, extra=()):
    html = Html(root)
    maps = root.find('DocInfo').find('IdMappings')
    fonts = fonts_of(html, maps)
    sheet = Sheet(text)
    for sel in extra:
        sheet.take(sel)
    k = html.kinds
    paras, chars = k.get('ParaShape', []), k.get('CharShape', [])
    for i, s in enumerate(k.get('Style', [])):
        name = '.' + s.attrs['name'].replace(' ', '-')
        if s.attrs['kind'] == 'paragraph':
            p = html.nth('ParaShape', s.attrs['parashape-id'])
            got = sheet.take(name)
            more = sheet.take(name + ' > span')
            if p is not None:
                verify(got, para(p), 'style %d %s' % (i, name))
                verify(more, spans(p), 'style %d %s' % (i, name))
        c = html.nth('CharShape', s.attrs['charshape-id'])
        if c is not None:
            verify(sheet.take(name + ' > span'), char(c), 'style %d %s' % (i, name))
            fontrules(sheet, name + ' > span', c, html, fonts)
    for i, p in enumerate(paras):
        sel = 'p.parashape-%d' % i
        verify(sheet.take(sel), para(p), sel)
        verify(sheet.take(sel + ' > span'), spans(p), sel)
    for i, c in enumerate(chars):
        sel = 'span.charshape-%d' % i
        verify(sheet.take(sel), char(c), sel)
        fontrules(sheet, sel, c, html, fonts)
    for i, b in enumerate(k.get('BorderFill', [])):
        sel = '.borderfill-%d' % (i + 1)
        verify(sheet.take(sel), borderfill(b, html), sel)
    for i, b in enumerate(k.get('Bullet', [])):
        sel = '.Bullet-%d::before' % (i + 1)
        verify(sheet.take(sel), bullet(b), sel)
    eq(sheet.rest(), [], 'further rules')


def verify_sections(text, root):
    sheet = Sheet(text)
    for s in root.find('BodyText').kids:
        if s.name != 'SectionDef':
            continue
        sel = '.Section-' + s.attrs['section-id']
        page = next((k for k in s.kids if k.name == 'PageDef'), None)
        paper, area, body = sheet.take(sel), sheet.take(sel + ' .HeaderPageFooter'), \
            sheet.take(sel + ' .Page')
        if page is None:
            continue
        wide = {'portrait': 'width', 'landscape': 'height'}[page.attrs['orientation']]
        verify(paper, {'width': Mm(num(page, wide))}, sel)
        d = {'margin-' + k: Mm(num(page, k + '-offset')) for k in ('top', 'right', 'bottom', 'left')}
        d['position'] = 'relative'
        verify(area, d, sel + ' .HeaderPageFooter')
        verify(body, {'padding-top': Mm(num(page, 'header-offset')),
                      'padding-bottom': Mm(num(page, 'footer-offset'))}, sel + ' .Page')
    for name, edge in (('Header', 'top'), ('Footer', 'bottom')):
        for h in root.iter(name):
            got = sheet.take('.%sArea' % name)
            l = next((x for x in h.kids if x.name == name + 'ParagraphList'), None)
            if l is not None:
                verify(got, {'position': 'absolute', 'left': '0', edge: '0',
                             'width': Mm(num(l, 'width')), 'height': Mm(num(l, 'height'))},
                       '.%sArea' % name)
    eq(sheet.rest(), [], 'further rules')


# ------------------------------------------------------------------ objects
def hpos(o, p, page, html):
    '''left margin of an object placed by its position; None: not known'''
    rel, align = o.attrs['hrelto'], o.attrs['halign']
    if align not in ('left', 'right', 'center'):
        return {}
    shape = html.nth('ParaShape', p.attrs['parashape-id'])
    inner = (0, 0)
    if rel == 'paragraph':
        if shape is None:
            return {'margin-left': None}
        inner = (num(shape, 'doubled-margin-left') / 2, num(shape, 'doubled-margin-right') / 2)
    x, width = num(o, 'x'), num(o, 'width')
    if align == 'left':
        left = inner[0] + num(o, 'margin-left') + x
        if rel == 'paper':
            if page is None:
                return {'margin-left': None}
            left -= num(page, 'left-offset')
        return {'margin-left': Mm(left)}
    if page is None:
        return {'margin-left': None}
    paper = num(page, 'width' if page.attrs['orientation'] == 'portrait' else 'height')
    # the extent of what the position refers to, from the left edge of the page body
    lo = -num(page, 'left-offset') if rel == 'paper' else inner[0]
    hi = paper - num(page, 'left-offset')
    if rel != 'paper':
        hi -= num(page, 'right-offset') + inner[1]
    if align == 'right':
        return {'margin-left': Mm(hi - x - num(o, 'margin-right') - width)}
    return {'margin-left': Mm((lo + hi) / 2 - width / 2 + x)}


class Styled(Html):
    '''(element, declarations) of every element with a style, in document order'''

    def __init__(self, root):
        Html.__init__(self, root)
        self.out = []
        self.wants, self.pictures, self.spacing = {}, {}, {}
        self.page = None
        self.para = None

    def section(self, s):
        self.page = next((k for k in s.kids if k.name == 'PageDef'), None)
        self.direct = set(id(p) for c in s.kids if c.name == 'ColumnSet' for p in c.kids)
        return Html.section(self, s)

    def paragraph(self, p):
        outer, self.para = self.para, p
        r = Html.paragraph(self, p)
        self.para = outer
        return r

    def width(self, o):
        return {'width': Mm(num(o, 'width'))}

    def pos(self, o):
        page = self.page if id(self.para) in self.direct else None
        return hpos(o, self.para, page, self)

    def tag(self, x, *decls):
        d = {}
        for k in decls:
            d.update(k)
        self.wants[id(x)] = d
        return x

    def table(self, t):
        x = Html.table(self, t)
        body = next((k for k in t.kids if k.name == 'TableBody'), None)
        d = [self.width(t), {'border-collapse': 'collapse'}]
        if t.attrs['inline'] != '1':
            d.append(self.pos(t))
        self.spacing[id(x)] = body.attrs['cellspacing'] if body else ''
        return self.tag(x, *d)

    def shape(self, s, name='div'):
        x = Html.shape(self, s, name)
        return self.tag(x, self.width(s), {'display': 'inline-block'} if name == 'span'
                        else self.pos(s))

    def flow(self, kids):
        out = Html.flow(self, kids)
        # attach what is wanted of cells, captions and pictures, which are made in order
        made = [x for x in out if not isinstance(x, str)]
        for k in kids:
            if isinstance(k, str):
                continue
            if k.name == 'TableCell':
                x = next(m for m in made if m.name == 'td' and id(m) not in self.wants)
                self.tag(x, {'width': Mm(num(k, 'width')), 'height': Mm(num(k, 'height')),
                             'padding': [Mm(num(k, 'padding-' + e))
                                         for e in ('top', 'right', 'bottom', 'left')]})
            elif k.name == 'TableCaption':
                x = next(m for m in made if m.name == 'caption' and id(m) not in self.wants)
                at = k.attrs['position']
                self.tag(x, {'caption-side': at, 'width': Mm(num(k, 'width')),
                             {'top': 'margin-bottom', 'bottom': 'margin-top'}[at]:
                             Mm(num(k, 'separation'))} if at in ('top', 'bottom') else {})
        return out

    def picture(self, k):
        x = Html.picture(self, k)
        self.pictures[id(x)] = k
        return x


def parents(x, out=None):
    out = {} if out is None else out
    for k in x.kids:
        if not isinstance(k, str):
            out[id(k)] = x
            parents(k, out)
    return out


def elements(x):
    yield x
    for k in x.kids:
        if not isinstance(k, str):
            for y in elements(k):
                yield y


def verify_body(root, html, rec=None):
    want = Styled(root)
    up = parents(root)
    body = want.body()
    a = list(elements(body))
    b = list(elements(html.kids[1]))
    eq([x.name for x in b], [x.name for x in a], 'elements')
    for x, y in zip(a, b):
        style = declarations(y.attrs.get('style', ''))
        what = '%s %s' % (y.name, y.attrs.get('class', ''))
        # which rules of the style sheet apply
        eq(sorted(y.attrs.get('class', '').split()), sorted(x.attrs.get('class', '').split()),
           'class of ' + y.name)
        w = want.wants.get(id(x), {})
        if id(x) in want.pictures:
            comp = up[id(want.pictures[id(x)])]
            w = {'width': Mm(num(comp, 'width')), 'height': Mm(num(comp, 'height'))}
        if x.name == 'span' and x.attrs['class'] == 'TableControl':
            w = {'display': 'inline-block'}
        if id(x) in want.spacing:
            eq(y.attrs.get('cellspacing'), want.spacing[id(x)], 'cellspacing')
        verify(style, w, what)
        if rec is not None and w.get('margin-left'):
            rec.label('placed object')
            rec.nontrivial()


# ------------------------------------------------------------------ checks
def label(root, rec):
    for x in root.iter('CharShape'):
        if x.attrs['underline'] in DECORATIONS:
            rec.label('decoration')
            rec.nontrivial()
    for name in ('FillColorPattern', 'FillGradation', 'FillImage', 'TableCell', 'Bullet',
                 'TableCaption', 'ShapePicture'):
        if root.find(name):
            rec.label(name)
            rec.nontrivial()
    for x in root.iter('ParaShape'):
        if num(x, 'indent'):
            rec.nontrivial()
    for x in root.iter('PageDef'):
        rec.label(x.attrs['orientation'])


def head(html):
    return [x for x in html.kids[0].kids if not isinstance(x, str) and x.name == 'style']


def check_css(doc, rec):
    root = refxml.expected(doc)
    label(root, rec)
    f = io.BytesIO()
    transform().transform_hwp5_to_css(doc.hwp5file(), f)
    verify_styles(f.getvalue().decode('utf-8'), root, FIXED)


def check_html(doc, rec):
    root = refxml.expected(doc)
    label(root, rec)
    html = from_html(xhtml(doc.hwp5file()))
    styles = head(html)
    eq(len(styles), 1, 'number of style elements')
    verify_sections(styles[0].text(), root)
    verify_body(root, html, rec)


def check_embedded(doc, rec):
    root = refxml.expected(doc)
    label(root, rec)
    html = from_html(xhtml(doc.hwp5file(), embedbin=True))
    styles = [x.text() for x in head(html)]
    verify_sections(styles[-1], root)
    if len(styles) > 1:
        verify_styles(styles[0], root)
    verify_body(root, html, rec)


def check_cli(case, rec):
    doc, how = case
    root = refxml.expected(doc)
    label(root, rec)
    rec.label(how)
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/in.hwp')
        if how == 'css':
            verify_styles(cli.success('hwp5html', ['--css', path]).out.decode('utf-8'), root, FIXED)
        elif how == 'html':
            html = from_html(cli.success('hwp5html', ['--html', path]).out)
            styles = [x.text() for x in head(html)]
            verify_sections(styles[-1], root)
            if len(styles) > 1:
                verify_styles(styles[0], root)
            verify_body(root, html, rec)
        else:
            cli.success('hwp5html', ['--output', d + '/out', path])
            with open(d + '/out/styles.css', encoding='utf-8') as f:
                verify_styles(f.read(), root, FIXED)
            with open(d + '/out/index.xhtml', 'rb') as f:
                html = from_html(f.read())
            verify_sections(head(html)[-1].text(), root)
            verify_body(root, html, rec)


def tests(tier):
    sane = dict(mode='sane', images=3, links=True)
    docs = docgen.docs(**sane)
    return [
        Test('style sheets', docgen.docs(info='lookups', maxparas=2, **sane), check_css, 300, 12000),
        Test('documents', docs, check_html, 250, 10000),
        Test('tables', docgen.docs(weights=docgen.TABLES, **sane), check_html, 150, 6000),
        Test('embedded', docs, check_embedded, 100, 5000),
        Test('command line', st.tuples(docs, st.sampled_from(['css', 'html', 'dir'])), check_cli,
             60, 3000),
    ]
