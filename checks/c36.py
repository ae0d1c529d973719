# -*- coding: utf-8 -*-
import io
import re

from hypothesis import strategies as st

from lib import cli, docgen, gen, layout as L, refxml
from lib.memstg import MemStorage
from lib.runner import Test, eq, ok

RULE = ('two languages have different numbers of fonts and a shape uses a font other than the first, '
        'or styles refer to shapes other than the first')


class Tables(object):
    '''fonts and shapes of the generated document information'''

    def __init__(self, doc):
        maps = [e for e in doc.docinfo if e.name == 'IdMappings'][0]
        self.maps = maps.node.content
        self.fonts = {l: [] for l in L.LANGS}
        faces = [e.node for e in maps.kids if e.name == 'FaceName']
        for l in L.LANGS:
            n = self.maps[l + '_fonts']
            self.fonts[l] = [f.content['name'] for f in faces[:n]]
            faces = faces[n:]
        self.kids = [e.node for e in maps.kids]

    def of(self, name):
        return [n for n in self.kids if n.name == name]


def label(t, rec):
    shapes = t.of('CharShape')
    counts = set(len(v) for v in t.fonts.values())
    if len(counts) > 1:
        rec.label('different numbers of fonts')
    if 0 in counts:
        rec.label('language without fonts')
    other = any(i for s in shapes for i in s.content['font_face'].values())
    if other:
        rec.label('font other than the first')
    refs = any(s.content['charshape_id'] or s.content['parashape_id'] for s in t.of('Style'))
    if refs:
        rec.label('style of later shapes')
    rec.nontrivial(len(counts) > 1 and other or refs)


def check_api(case, rec):
    doc, order = case
    t = Tables(doc)
    label(t, rec)
    from hwp5 import binmodel
    d = binmodel.Hwp5File(MemStorage(doc.tree())).docinfo

    def mapping():
        got = d.idmappings['content']
        for k, v in t.maps.items():
            eq(got[k], v, 'idmappings %r' % k)

    def facenames():
        got = d.facenames_by_lang
        eq(sorted(got), sorted(L.LANGS), 'languages')
        eq({l: [m['content']['name'] for m in got[l]] for l in got}, t.fonts, 'fonts by language')

    def charshapes():
        eq([m['seqno'] for m in d.charshapes], [m['seqno'] for m in d.models()
                                                if m['type'].__name__ == 'CharShape'], 'charshapes')
        got = [m['content'] for m in d.charshapes]
        eq(len(got), len(t.of('CharShape')), 'number of character shapes')
        for i, (g, n) in enumerate(zip(got, t.of('CharShape'))):
            same(g, n, 'charshapes[%d]' % i)

    def by_id():
        for i, n in some(t.of('CharShape')):
            same(d.get_charshape(i)['content'], n, 'get_charshape(%d)' % i)

    def fonts():
        for i, n in some(t.of('CharShape')):
            for l in L.LANGS:
                k = n.content['font_face'][l]
                if k < len(t.fonts[l]):
                    rec.label('lookup')
                    eq(d.charshape_lang_facename(i, l)['content']['name'], t.fonts[l][k],
                       'font of shape %d for %s' % (i, l))
    steps = [mapping, facenames, charshapes, by_id, fonts]
    for k in order:
        steps[k]()


def some(items):
    '''(index, item), a few of many'''
    n = len(items)
    for i in sorted({n // 2, n - 1} if n > 20 else range(n)):
        yield i, items[i]


def same(got, node, what):
    for k in ('font_face', 'letter_width_expansion', 'relative_size', 'basesize'):
        eq(got[k], node.content[k], '%s %s' % (what, k))


# ------------------------------------------------------------------ CSS
def parse_css(text):
    '''[(selector, [(property, value)])] in file order'''
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    out = []
    pos = 0
    for m in re.finditer(r'([^{}]*)\{([^{}]*)\}', text):
        ok(not text[pos:m.start()].strip(), 'text between rules: %r', text[pos:m.start()])
        pos = m.end()
        decls = []
        for d in re.split(r';\s*\n', m.group(2)):
            if d.strip():
                k, _, v = d.strip().partition(':')
                decls.append((k.strip(), v.strip()))
        out.append((m.group(1).strip(), decls))
    ok(not text[pos:].strip(), 'text after the rules: %r', text[pos:])
    return out


def pt(s):
    ok(s.endswith('pt'), 'not in points: %r', s)
    return round(float(s[:-2]), 4)


def want_para(p):
    def a(k):
        return float(p.attrs[k])
    d = {'margin': [round(a('doubled-margin-' + k) / 200, 4)
                    for k in ('top', 'right', 'bottom', 'left')],
         'text-align': {'center': 'center', 'left': 'left', 'right': 'right'}.get(
             p.attrs['align'], 'justify'),
         'text-indent': round(a('indent') / 200, 4)}
    return d


def got_para(decls):
    d = dict(decls)
    return {'margin': [pt(x) for x in d['margin'].split()], 'text-align': d['text-align'],
            'text-indent': pt(d['text-indent'])}


def want_char(c):
    a = c.attrs
    d = {'color': a['text-color'], 'font-style': 'italic' if a['italic'] == '1' else None,
         'font-weight': 'bold' if a['bold'] == '1' else None,
         'text-decoration': {'underline': 'underline', 'overline': 'overline',
                             'line_through': 'line-through'}.get(a['underline'])}
    d['text-decoration-color'] = a['underline-color'] if d['text-decoration'] else None
    return d


def got_char(decls):
    d = dict(decls)
    return {k: d.get(k) for k in ('color', 'font-style', 'font-weight', 'text-decoration',
                                  'text-decoration-color')}


def want_font(fonts, c, lang):
    i = int(c.find('FontFace').attrs[lang])
    size = float(c.attrs['basesize']) * float(c.find('RelativeSize').attrs[lang]) / 100 / 100
    return fonts[lang][i] if i < len(fonts[lang]) else None, round(size, 4)


def eqfont(got, want, what):
    '''a shape has no font to name for a language without any'''
    eq(got if want[0] is not None else (None, got[1]), want, what)


def got_font(decls):
    d = dict(decls)
    m = re.match(r'"(.*?)"', d['font-family'])
    return m and m.group(1), pt(d['font-size'])


_T = {}


def transforms():
    if not _T:
        from hwp5.hwp5html import HTMLTransform
        from hwp5.hwp5odt import ODTTransform
        _T['html'] = HTMLTransform()
        _T['odt'] = ODTTransform()
    return _T


def check_css(doc, rec):
    t = Tables(doc)
    label(t, rec)
    f = io.BytesIO()
    transforms()['html'].transform_hwp5_to_css(doc.hwp5file(), f)
    verify_css(f.getvalue().decode('utf-8'), doc, t)


def verify_css(text, doc, t):
    rules = parse_css(text)
    by = {}
    for sel, decls in rules:
        by.setdefault(sel, []).append(decls)
    maps = refxml.expected(doc).find('DocInfo').find('IdMappings')
    kids = {}
    for k in maps.kids:
        kids.setdefault(k.name, []).append(k)
    paras, chars = kids.get('ParaShape', []), kids.get('CharShape', [])
    for i, p in enumerate(paras):
        sel = 'p.parashape-%d' % i
        eq(len(by.get(sel, ())), 1, 'number of rules %s' % sel)
        eq(got_para(by[sel][0]), want_para(p), sel)
    ok('p.parashape-%d' % len(paras) not in by, 'extra rule')
    for i, c in enumerate(chars):
        sel = 'span.charshape-%d' % i
        eq(len(by.get(sel, ())), 1, 'number of rules %s' % sel)
        eq(got_char(by[sel][0]), want_char(c), sel)
        for l in L.LANGS:
            s = '%s.lang-%s' % (sel, l)
            eq(len(by.get(s, ())), 1, 'number of rules %s' % s)
            eqfont(got_font(by[s][0]), want_font(t.fonts, c, l), s)
    ok('span.charshape-%d' % len(chars) not in by, 'extra rule')
    # styles: several may share a name, the rules follow in the order of the styles
    used = {}

    def nxt(sel):
        n = used[sel] = used.get(sel, -1) + 1
        ok(n < len(by.get(sel, ())), 'no rule %r for a style', sel)
        return by[sel][n]
    for i, s in enumerate(kids.get('Style', [])):
        name = '.' + s.attrs['name'].replace(' ', '-')
        spans = name + ' > span'
        pid, cid = int(s.attrs['parashape-id']), int(s.attrs['charshape-id'])
        if s.attrs['kind'] == 'paragraph':
            d = nxt(name)
            if pid < len(paras):
                eq(got_para(d), want_para(paras[pid]), 'style %d %s (shape %d)' % (i, name, pid))
            nxt(spans)
        if cid < len(chars):
            eq(got_char(nxt(spans)), want_char(chars[cid]), 'style %d %s (shape %d)' % (i, spans, cid))
            for l in L.LANGS:
                eqfont(got_font(nxt(spans + '.lang-' + l)), want_font(t.fonts, chars[cid], l),
                   'style %d %s.lang-%s' % (i, spans, l))


# ------------------------------------------------------------------ ODT
ST = '{urn:oasis:names:tc:opendocument:xmlns:style:1.0}'
FO = '{urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0}'


def check_odt(doc, rec):
    from lxml import etree
    t = Tables(doc)
    label(t, rec)
    f = io.BytesIO()
    transforms()['odt'].transform_hwp5_to_styles(doc.hwp5file(), f)
    root = etree.fromstring(f.getvalue())
    maps = refxml.expected(doc).find('DocInfo').find('IdMappings')
    kids = {}
    for k in maps.kids:
        kids.setdefault(k.name, []).append(k)
    styles = kids.get('Style', [])
    fixed = {'Standard', 'Heading', 'Text_20_body', 'List', 'Caption', 'Index',
             'Table_20_Contents', 'Graphics'}
    got = [e for e in root.iter(ST + 'style') if e.get(ST + 'name') not in fixed]
    eq(len(got), len(styles), 'number of styles')
    names = [ncname(s.attrs['local-name']) for s in styles]
    eq([e.get(ST + 'name') for e in got], names, 'names of the styles')
    chars, paras = kids.get('CharShape', []), kids.get('ParaShape', [])
    for i, (e, s) in enumerate(zip(got, styles)):
        nid = int(s.attrs['next-style-id'])
        if nid < len(names):
            eq(e.get(ST + 'next-style-name'), names[nid], 'style after style %d' % i)
        pid, cid = int(s.attrs['parashape-id']), int(s.attrs['charshape-id'])
        if pid < len(paras):
            p = e.find(ST + 'paragraph-properties')
            w = want_para(paras[pid])
            eq([pt(p.get(FO + 'margin-' + k)) for k in ('top', 'right', 'bottom')],
               w['margin'][:3], 'margins of style %d' % i)
            eq(pt(p.get(FO + 'text-indent')), w['text-indent'], 'indent of style %d' % i)
        if cid < len(chars):
            c = chars[cid]
            x = e.find(ST + 'text-properties')
            eqfont((x.get(ST + 'font-name'), pt(x.get(FO + 'font-size'))),
               want_font(t.fonts, c, 'en'), 'western font of style %d' % i)
            eqfont((x.get(ST + 'font-name-asian'), pt(x.get(ST + 'font-size-asian'))),
               want_font(t.fonts, c, 'ko'), 'asian font of style %d' % i)
            w = want_char(c)
            eq((x.get(FO + 'font-style'), x.get(FO + 'font-weight')),
               (w['font-style'], w['font-weight']), 'emphasis of style %d' % i)


def ncname(s):
    return ('_' if s[:1] in tuple('0123456789-.') + ('',) else '') + ''.join('_' if c in ' !"#$%&\'()*+,/:;<=>?@[\\]^`{|}~' else c for c in s)


def check_cli(doc, rec):
    t = Tables(doc)
    label(t, rec)
    with gen.workdir() as d:
        path = gen.write_ole(doc.tree(), d + '/a.hwp')
        out = cli.success('hwp5html', ['--css', path]).out
    verify_css(out.decode('utf-8'), doc, t)


def docs(mode, info='lookups'):
    return docgen.docs(mode=mode, info=info, maxparas=1, weights=docgen.TEXTS, maxsections=1)


def tests(tier):
    return [
        Test('API', st.tuples(docs('wild'), st.lists(st.integers(0, 4), min_size=1, max_size=6)),
             check_api, 500, 20000),
        Test('CSS', docs('sane'), check_css, 300, 12000),
        Test('ODT styles', docs('sane'), check_odt, 300, 12000),
        Test('large tables', st.tuples(docs('wild', 'big'), st.lists(
            st.integers(0, 4), min_size=1, max_size=4)), check_api, 16, 1000),
        Test('large tables in CSS', docs('sane', 'big'), check_css, 16, 1000),
        Test('large tables in ODT', docs('sane', 'big'), check_odt, 24, 1000),
        Test('command line', docs('sane'), check_cli, 60, 3000),
    ]
