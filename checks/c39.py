# -*- coding: utf-8 -*-
import io
import re

from hypothesis import strategies as st

from checks import c18, c36
from checks.c18 import Odt, Styles, name_of, ns, output
from checks.c38 import Mm, Num, num
from lib import cli, docgen, gen, refxml
from lib.refxml import X
from lib.runner import Test, eq, fail, ok

RULE = ('the document has a shape with a decoration, indent or fill, a table with padding, or an '
        'object placed by its position')


class Cm(Mm):
    '''a length written in cm with two digits'''

    def matches(self, s):
        m = re.match(r'(-?\d+(?:\.\d+)?)cm$', s)
        return bool(m) and abs(float(m.group(1)) - self.mm / 10) < 0.0051 + 1e-6 * abs(self.mm)

    def __repr__(self):
        return '%.3fcm' % (self.mm / 10)


def pt(units):
    return Num(units / 100, 'pt')


class Same(object):
    '''a fixed number'''

    def __init__(self, s):
        self.value = float(s)

    def matches(self, s):
        try:
            return abs(float(s) - self.value) <= 1e-9 * abs(self.value)
        except ValueError:
            return False

    def __repr__(self):
        return repr(self.value)


class Transform(object):
    '''a list of (function, arguments)'''

    def __init__(self, steps):
        self.steps = steps

    def matches(self, s):
        got = re.findall(r'([a-z]+)\s*\(([^()]*)\)', s)
        if re.sub(r'([a-z]+)\s*\(([^()]*)\)', '', s).strip() or len(got) != len(self.steps):
            return False
        for (f, args), (name, want) in zip(got, self.steps):
            args = args.split()
            if f != name or len(args) != len(want):
                return False
            if not all(w.matches(a) for w, a in zip(want, args)):
                return False
        return True

    def __repr__(self):
        return repr(self.steps)


def matches(want, got):
    if isinstance(want, str):
        return want == got
    if isinstance(want, list):
        got = got.split()
        return len(got) == len(want) and all(matches(w, g) for w, g in zip(want, got))
    return want.matches(got)


def attributes(got, want, what, optional=()):
    for k in got:
        ok(k in want or k in optional, '%s: unexpected %s=%r', what, k, got[k])
    for k, w in want.items():
        ok(k in got, '%s: %s is missing, expected %r', what, k, w)
        ok(matches(w, got[k]), '%s: %s is %r, expected %r', what, k, got[k], w)


def attrs(e):
    return {name_of(k): v for k, v in e.attrib.items()}


# ------------------------------------------------------------------ elements
class Full(Odt):
    '''the whole of the text with the attributes of placed objects'''

    def shape(self, s, control, at=None):
        if control is not None:
            at = (num(control, 'x'), num(control, 'y'))
        out = []
        # the children of a group are placed relative to the same point
        if s.attrs['chid'] == '$con':
            kids = [y for k in s.kids if k.name == 'ShapeComponent' for y in self.shape(k, None, at)]
            out = Odt.shape(self, X(s.name, s.attrs), control)
            out[0].kids.extend(kids)
            self.need[out[0].attrs['draw:style-name']] = ('graphic', (s, control))
            return out
        out = Odt.shape(self, s, control)
        for x in out:
            self.need[x.attrs['draw:style-name']] = ('graphic', (s, control))
            x.attrs.update(self.place(x, s, control, at))
        return out

    def place(self, x, s, control, at):
        chid = s.attrs['chid']
        px, py = at
        if x.name == 'draw:line':
            c = [k for k in s.kids if k.name == 'Coord' and k.attrs['attribute-name'] == 'rotation_center'][0]
            return {'svg:x1': Mm(px), 'svg:y1': Mm(py), 'svg:x2': Mm(px + 2 * num(c, 'x')),
                    'svg:y2': Mm(py + 2 * num(c, 'y'))}
        if x.name == 'draw:rect':
            c = [k for k in s.find('ShapeRectangle').kids if k.name == 'Coord']
            return {'svg:x': Mm(px), 'svg:y': Mm(py),
                    'svg:width': Mm(num(c[1], 'x') - num(c[0], 'x')),
                    'svg:height': Mm(num(c[2], 'y') - num(c[1], 'y')),
                    'draw:transform': transform(s, at)}
        if chid == '$pic':
            d = {'draw:transform': transform(s, at)}
            if control is None:
                d['svg:width'], d['svg:height'] = (Mm(num(s, 'initial-' + k)) for k in ('width', 'height'))
                return d
            d['draw:z-index'] = control.attrs['z-order']
            if control.attrs['inline'] == '0':
                d['svg:x'], d['svg:y'] = pt(px), pt(py)
            for k in ('width', 'height'):
                if control.attrs[k + '-relto'] == 'absolute':
                    d['svg:' + k] = Mm(num(s, 'initial-' + k))
            return d
        return {'svg:x': Mm(px), 'svg:y': Mm(py), 'svg:width': Mm(num(s, 'width')),
                'svg:height': Mm(num(s, 'height'))}

    def inlines(self, items, style, prefix, kids, tables):
        Odt.inlines(self, items, style, prefix, kids, tables)
        notes = [k for k in items if not isinstance(k, str) and k.name in ('FootNote', 'EndNote')]
        for x, n in zip([k for k in kids if not isinstance(k, str) and k.name == 'text:note'
                         and 'text:id' not in k.attrs], notes):
            x.attrs['text:id'] = '%s-%s' % (n.name, n.attrs['number'])


def matrix(m):
    return ('matrix', [Same(m.attrs[k]) for k in 'abcd'] + [Mm(num(m, k)) for k in 'ef'])


def transform(s, at):
    def one(x, name):
        return [k for k in x.kids if not isinstance(k, str) and k.name == 'Matrix'
                and k.attrs['attribute-name'] == name]
    steps = [('translate', [Mm(-v) for v in at])]
    for a in s.kids:
        if a.name == 'Array':
            for k in a.kids:
                if k.name == 'ScaleRotationMatrix':
                    for n in ('scaler', 'rotator'):
                        steps += [matrix(m) for m in one(k, n)]
    steps += [matrix(m) for m in one(s, 'translation')]
    return Transform(steps + [('translate', [Mm(v) for v in at])])


# attributes which say nothing about the document
QUIET = {'xlink:actuate', 'xlink:show', 'xlink:type'}


def tree(e):
    x = X(name_of(e.tag), {k: v for k, v in attrs(e).items() if k not in QUIET})
    for t in [e.text] + [y for k in e for y in (k, k.tail)]:
        if t is None or isinstance(t, str):
            t = t or ''
        elif name_of(t.tag) == 'text:s':
            t = ' ' * int(attrs(t).get('text:c', 1))
        elif name_of(t.tag) in ('text:sequence-decls', 'office:binary-data'):
            continue
        else:
            t = tree(t)
        if isinstance(t, str) and x.kids and isinstance(x.kids[-1], str):
            x.kids[-1] += t
        elif t != '':
            x.kids.append(t)
    return x


def same(want, got, path):
    eq(got.name, want.name, 'element at %s' % path)
    path += '/' + want.name
    attributes(got.attrs, want.attrs, path)
    for i, (w, g) in enumerate(zip(want.kids, got.kids)):
        if isinstance(w, str) or isinstance(g, str):
            eq(refxml.brief(g), refxml.brief(w), '%s[%d]' % (path, i))
        else:
            same(w, g, '%s[%d]' % (path, i))
    eq(len(got.kids), len(want.kids), 'number of children of %s' % path)


def verify_text(ref, part):
    texts = list(part.iter(ns('office:text')))
    eq(len(texts), 1, 'number of office:text')
    same(c18.norm(ref.body()), tree(texts[0]), '')


# ------------------------------------------------------------------ properties
ALIGN = {'left': 'left', 'right': 'right', 'center': 'center'}


def para(p):
    indent = num(p, 'indent') / 2
    d = {'fo:text-align': ALIGN.get(p.attrs['align'], 'justify'), 'fo:text-indent': pt(indent),
         'fo:margin-left': pt(num(p, 'doubled-margin-left') / 2 - min(indent, 0))}
    for k in ('right', 'top', 'bottom'):
        d['fo:margin-' + k] = pt(num(p, 'doubled-margin-' + k) / 2)
    kind, spacing = p.attrs['linespacing-type'], num(p, 'linespacing')
    if kind == 'ratio':
        d['fo:line-height'] = Num(spacing, '%')
    elif kind == 'fixed':
        d['fo:line-height'] = pt(spacing / 2)
        d['style:vertical-align'] = 'top'
    elif kind == 'spaceonly':
        d['style:line-spacing'] = pt(spacing / 4)
    return d


LINES = {'solid': ('solid', 'single'), 'dashed': ('dash', 'single'), 'dotted': ('dotted', 'single'),
         'dash_dot': ('dot-dash', 'single'), 'dash_dot_dot': ('dot-dot-dash', 'single'),
         'long_dashed': ('long-dash', 'single'), 'large_dotted': ('dotted', 'single'),
         'double': ('solid', 'double'), 'lower_weighted': ('solid', 'double'),
         'upper_weighted': ('solid', 'double'), 'middle_weighted': ('solid', 'double')}


def char(c, fonts):
    '''-> (properties, names that may be given without being known)'''
    a = c.attrs
    d, free = {}, []
    for suffix, lang in (('', 'en'), ('-asian', 'ko')):
        i = int(c.find('FontFace').attrs[lang])
        if i < len(fonts[lang]):
            d['style:font-name' + suffix] = fonts[lang][i].attrs['name']
        else:
            free.append('style:font-name' + suffix)
    for k, lang in (('fo:font-size', 'en'), ('style:font-size-asian', 'ko'),
                    ('style:font-size-complex', 'other')):
        d[k] = Num(num(c, 'basesize') * num(c.find('RelativeSize'), lang) / 10000, 'pt')
    for k, v in (('italic', 'font-style'), ('bold', 'font-weight')):
        if a[k] == '1':
            for n in ('fo:' + v, 'style:%s-asian' % v, 'style:%s-complex' % v):
                d[n] = k
    for kind in ('underline', 'overline', 'line-through'):
        n = 'style:text-%s-' % kind
        if a['underline'] == kind.replace('-', '_'):
            style, type_ = LINES.get(a['underline-style'], ('', ''))
            d.update({n + 'type': type_, n + 'style': style, n + 'width': 'auto',
                      n + 'color': a['underline-color']})
        else:
            d[n + 'type'] = 'none'
    return d, free


def table(t):
    d = {'fo:margin-' + k: Mm(num(t, 'margin-' + k)) for k in ('top', 'bottom')}
    if t.attrs['width-relto'] == 'absolute':
        d.update({'style:width': Mm(num(t, 'width')), 'table:align': 'margins'})
        d.update({'fo:margin-' + k: Mm(num(t, 'margin-' + k)) for k in ('left', 'right')})
    body = [k for k in t.kids if k.name == 'TableBody'][0]
    d['table:border-model'] = 'collapsing' if body.attrs['cellspacing'] == '0' else 'separating'
    return d


def cell(c, ref):
    d = {'fo:padding-' + k: Mm(num(c, 'padding-' + k)) for k in ('left', 'right', 'top', 'bottom')}
    b = ref.nth('BorderFill', int(c.attrs['borderfill-id']) - 1)
    for k in (b.kids if b is not None else ()):
        if k.name == 'Border' and k.attrs['attribute-name'] != 'diagonal':
            d['fo:border-' + k.attrs['attribute-name']] = ' '.join(
                k.attrs[a] for a in ('width', 'stroke-type', 'color'))
        elif k.name == 'FillColorPattern':
            d['fo:background-color'] = k.attrs['background-color']
    return d


WRAP = {'block': 'none', 'back': 'run-through', 'front': 'run-through'}
SIDES = {'both': 'parallel', 'left': 'left', 'right': 'right', 'larger': 'biggest'}
VREL = {'page': 'page-content', 'paper': 'page'}
HREL = {'page': 'page-content', 'paper': 'page', 'column': 'page-content'}
HPOS = {'left': 'from-left', 'inside': 'from-inside', 'right': 'right', 'outside': 'outside'}
VPOS = {'top': 'from-top', 'middle': 'middle', 'bottom': 'bottom'}


def graphic(s, control):
    d = {}
    if control is not None:
        a = control.attrs
        d = {'fo:margin-' + k: Mm(num(control, 'margin-' + k))
             for k in ('left', 'right', 'top', 'bottom')}
        if a['inline'] == '0':
            wrap = SIDES.get(a['text-side']) if a['flow'] == 'float' else WRAP.get(a['flow'])
            if wrap:
                d['style:wrap'] = wrap
            d['style:vertical-rel'] = VREL.get(a['vrelto'], 'paragraph')
            d['style:horizontal-rel'] = HREL.get(a['hrelto'], 'paragraph')
            d['style:vertical-pos'] = VPOS.get(a['valign'], 'top')
            if a['halign'] == 'center':
                d['style:horizontal-pos'] = 'center' if a['x'] == '0' else 'from-left'
            else:
                d['style:horizontal-pos'] = HPOS.get(a['halign'], '')
        else:
            d.update({'style:vertical-rel': 'baseline', 'style:vertical-pos': 'top'})
    d['draw:fill'] = 'none'
    if s.attrs.get('fill-colorpattern') == '1':
        d['draw:fill'] = 'solid'
        d['draw:fill-color'] = s.find('FillColorPattern').attrs['background-color']
    for b in s.kids:
        if b.name == 'BorderLine':
            d['draw:stroke'] = {'none': 'none', 'dashed': 'dash', 'dotted': 'dash'}.get(
                b.attrs['stroke'], 'solid')
            d['svg:stroke-color'] = b.attrs['color']
            d['svg:stroke-width'] = Mm(num(b, 'width'))
    return d


def only(e, name, what):
    '''the single child that holds the properties'''
    eq([name_of(k.tag) for k in e], [name] if name else [], 'properties of %s' % what)
    return attrs(e[0]) if name else None


def verify_named(part, ref, fonts):
    '''styles of the document, in its order'''
    fixed = {'Standard', 'Heading', 'Text_20_body', 'List', 'Caption', 'Index',
             'Table_20_Contents', 'Graphics'}
    got = [e for p in part.iter(ns('office:styles')) for e in p if name_of(e.tag) == 'style:style'
           and e.get(ns('style:name')) not in fixed]
    want = ref.kinds.get('Style', [])
    eq(len(got), len(want), 'number of named styles')
    for i, (e, s) in enumerate(zip(got, want)):
        what = 'style %d %s' % (i, s.attrs['local-name'])
        n = ref.nth('Style', s.attrs['next-style-id'])
        attributes(attrs(e), {
            'style:name': c36.ncname(s.attrs['local-name']),
            'style:next-style-name': c36.ncname(n.attrs['local-name']) if n is not None else '',
            'style:family': 'paragraph', 'style:class': 'text'}, what)
        p = ref.nth('ParaShape', s.attrs['parashape-id'])
        c = ref.nth('CharShape', s.attrs['charshape-id'])
        kids = {name_of(k.tag): attrs(k) for k in e}
        eq([name_of(k.tag) for k in e], ['style:paragraph-properties'] + (
            ['style:text-properties'] if c is not None else []), 'properties of %s' % what)
        attributes(kids['style:paragraph-properties'], para(p) if p is not None else {}, what)
        if c is not None:
            d, free = char(c, fonts)
            attributes(kids['style:text-properties'], d, what, free)


def verify_automatic(part, ref, fonts):
    s = Styles(part)
    local = set(c36.ncname(x.attrs['local-name']) for x in ref.kinds.get('Style', ()))
    for name, (family, want) in sorted(ref.need.items()):
        if name in local:
            continue
        d = s.defined.get((family, name), [])
        eq(len(d), 1, 'definitions of the style %r' % name)
        e = d[0]
        a = {'style:name': name, 'style:family': family}
        if family == 'paragraph':
            shape = ref.nth('ParaShape', want['shape'])
            a['style:class'] = 'text'
            a['style:parent-style-name'] = want['parent']
            if want['section'] is not None:
                a['style:master-page-name'] = 'MasterPage-%d' % (want['section'] + 1)
            attributes(attrs(e), a, 'style %s' % name)
            w = para(shape)
            if want['page'] == '1':
                w['fo:break-before'] = 'page'
            attributes(only(e, 'style:paragraph-properties', name), w, 'style ' + name)
            continue
        attributes(attrs(e), a, 'style ' + name)
        if family == 'text':
            w, free = char(ref.nth('CharShape', want), fonts)
            attributes(only(e, 'style:text-properties', name), w, 'style ' + name, free)
        elif family == 'table':
            attributes(only(e, 'style:table-properties', name), table(want), 'style ' + name)
        elif family == 'table-cell':
            attributes(only(e, 'style:table-cell-properties', name), cell(want, ref),
                       'style ' + name)
        else:
            attributes(only(e, 'style:graphic-properties', name), graphic(*want), 'style ' + name)


def verify_fonts(part, ref):
    fixed = {'serif', 'sans-serif', '명조', '고딕', 'Lohit Hindi'}
    got = [attrs(e) for p in part.iter(ns('office:font-face-decls')) for e in p]
    own = got[len(fixed):]
    eq(set(a['style:name'] for a in got[:len(fixed)]), fixed, 'predefined fonts')
    want = ref.kinds.get('FaceName', [])
    eq(len(own), len(want), 'number of fonts')
    for a, f in zip(own, want):
        d = {'style:name': f.attrs['name'], 'svg:font-family': "'%s'" % f.attrs['name'],
             'style:font-pitch': 'variable'}
        p = f.find('Panose1')
        if p is not None:
            d['style:font-family-generic'] = 'roman' if num(p, 'serif-style') < 11 else 'swiss'
        attributes(a, d, 'font %s' % f.attrs['name'])


def verify_layouts(part, root):
    pages = {e.get(ns('style:name')): attrs(e) for e in part.iter(ns('style:master-page'))}
    layouts = {e.get(ns('style:name')): e for e in part.iter(ns('style:page-layout'))}
    for s in root.find('BodyText').kids:
        if s.name != 'SectionDef':
            continue
        n = int(s.attrs['section-id']) + 1
        what = 'MasterPage-%d' % n
        ok(what in pages, 'no master page %s', what)
        attributes(pages[what], {'style:name': what, 'style:page-layout-name': 'PageLayout-%d' % n},
                   what)
        e = layouts.get('PageLayout-%d' % n)
        ok(e is not None, 'no page layout for section %d', n - 1)
        p = next((k for k in s.kids if k.name == 'PageDef'), None)
        got = [k for k in e if name_of(k.tag) == 'style:page-layout-properties']
        eq(len(got), int(p is not None), 'properties of the pages of section %d' % (n - 1))
        if p is None:
            continue
        size = ['width', 'height']
        if p.attrs['orientation'] == 'landscape':
            size.reverse()
        d = {'style:print-orientation': p.attrs['orientation'],
             'fo:page-width': Cm(num(p, size[0])), 'fo:page-height': Cm(num(p, size[1]))}
        for k in ('top', 'left', 'right', 'bottom'):
            d['fo:margin-' + k] = Cm(num(p, k + '-offset'))
        attributes(attrs(got[0]), d, 'pages of section %d' % (n - 1))


# ------------------------------------------------------------------ checks
def label(doc, root, rec):
    n = 0
    body = root.find('BodyText')
    for c in root.iter('CharShape'):
        if c.attrs['underline'] != 'none':
            rec.label('decoration')
            n += 1
            break
    for p in root.iter('ParaShape'):
        if num(p, 'indent') < 0:
            rec.label('hanging indent')
            n += 1
            break
    for p in root.iter('ParaShape'):
        rec.label('spacing %s' % p.attrs['linespacing-type'])
    for g in body.iter('GShapeObjectControl'):
        rec.label('flow %s' % g.attrs['flow'] if g.attrs['inline'] == '0' else 'inline')
        n += 1
    for name in ('TableCell', 'ShapePicture', 'ShapeRectangle', 'ShapeLine', 'FootNote'):
        if body.find(name):
            rec.label(name)
            n += 1
    rec.nontrivial(n)


class Ref(Full):
    def body(self):
        self.section_of = {}
        for s in self.root.find('BodyText').kids:
            if s.name == 'SectionDef':
                for c in s.kids:
                    if c.name == 'ColumnSet':
                        for p in c.kids:
                            self.section_of[id(p)] = int(s.attrs['section-id'])
        return Full.body(self)

    def paragraph(self, p):
        out = Full.paragraph(self, p)
        name = out[0].attrs['text:style-name']
        family, want = self.need[name]
        if want is not None:
            want['section'] = self.section_of.get(id(p)) if p.attrs.get('new-section') == '1' else None
        return out


def verify(doc, parts, content, styles, root):
    ref = Ref(root)
    verify_text(ref, content)
    from checks.c38 import fonts_of
    fonts = fonts_of(ref, root.find('DocInfo').find('IdMappings'))
    verify_automatic([content], ref, fonts)
    verify_named(styles, ref, fonts)
    verify_fonts(styles, ref)
    verify_layouts(styles, root)


def check(case, rec):
    doc, single = case
    root = refxml.expected(doc)
    label(doc, root, rec)
    if single:
        d = output(doc, 'single_document')
        verify(doc, [d], d, d, root)
    else:
        verify(doc, None, output(doc, 'content'), output(doc, 'styles'), root)


def tests(tier):
    sane = dict(mode='sane', images=3, links=True)

    def t(**kw):
        return st.tuples(docgen.docs(**dict(sane, **kw)), st.booleans())
    return [
        Test('documents', t(), check, 250, 10000),
        Test('information', t(info='full'), check, 120, 6000),
        Test('shapes', t(weights=docgen.LISTS), check, 160, 6000),
        Test('tables', t(weights=docgen.TABLES), check, 100, 6000),
        Test('sections', t(maxparas=4, maxsections=5, numbers='sparse'), check, 80, 3000),
    ]
