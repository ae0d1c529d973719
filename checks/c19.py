# -*- coding: utf-8 -*-
import contextlib
import io
import os
import re
import shutil
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from lib import docgen, env, gen
from lib.runner import Test, eq, fail, ok

RULE = ('the transformation uses parameters, templates or a document with content, or fails; the '
        'validated document has children, or is invalid')

SRC = os.path.join(env.SRC, 'hwp5')
SHEETS = ['xsl/plaintext.xsl', 'xsl/hwp5css.xsl', 'xsl/hwp5html.xsl', 'xsl/odt/styles.xsl',
          'xsl/odt/content.xsl', 'xsl/odt/document.xsl']
APIS = ['xslt', 'compile', 'transform', 'stream']


@contextlib.contextmanager
def quiet():
    '''the external programs write to our standard error'''
    keep = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 2)
        yield
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(null)


def engines():
    from hwp5.plat import _lxml, xsltproc
    return [('lxml', _lxml), ('xsltproc', xsltproc)]


def canonical(data):
    '''what the serialised result says; the bytes if it is not XML'''
    from lxml import etree
    try:
        root = etree.fromstring(data, etree.XMLParser(huge_tree=True, load_dtd=False,
                                                      resolve_entities=False))
    except etree.XMLSyntaxError:
        return data
    return etree.tostring(root, method='c14n')


def transform(module, api, xsl, inp, out, params):
    '''the output, or 'failed' '''
    if params and api == 'xslt':
        api = 'compile'
    try:
        if api == 'xslt':
            r = module.xslt(xsl, inp, out)
        elif api == 'compile':
            t = module.xslt_compile(xsl, **params)
            with io.open(out, 'wb') as f:
                r = t(inp, f)
        elif api == 'transform':
            r = module.XSLT(xsl, **params).transform(inp, out)
        else:
            with io.open(out, 'wb') as f:
                r = module.XSLT(xsl, **params).transform_into_stream(inp, f)
    except Exception as e:
        return 'failed', e
    if r is not None and 'errors' in r:
        return 'failed', r
    with io.open(out, 'rb') as f:
        return 'done', f.read()


def both(d, api, xsl, inp, params, what):
    got = []
    with quiet():
        for name, module in engines():
            got.append(transform(module, api, xsl, inp, os.path.join(d, name + '.out'), params))
    (a, x), (b, y) = got
    if a != b:
        fail('%s: lxml %s (%s), xsltproc %s (%s)', what, a, str(x)[:300], b, str(y)[:300])
    if a == 'done':
        eq(canonical(y), canonical(x), '%s: xsltproc / lxml' % what)
    return a, x


def check_document(case, rec):
    doc, which, api, embed = case
    with gen.workdir() as d:
        inp = os.path.join(d, 'in.xml')
        with io.open(inp, 'wb') as f:
            doc.hwp5file().xmlevents(embedbin=embed).dump(f)
        rec.nontrivial(sum(1 for p in doc.paragraphs()) > 1)
        for i in which:
            sheet = SHEETS[i]
            state, data = both(d, api, os.path.join(SRC, sheet), inp, {}, sheet)
            eq(state, 'done', 'converting with ' + sheet)
            rec.label(sheet)


# ---------------------------------------------------------------- stylesheets
NAME = st.sampled_from(['a', 'b', 'c', 'd'])
TEXT = st.text(st.one_of(st.characters(min_codepoint=32, max_codepoint=126),
                         st.sampled_from('\n\t\u3000가힝\ud7a3é\U0001F600\U00020000\u2028&<>"\'')),
               max_size=8)
PARAM = st.one_of(TEXT, st.sampled_from(['', '"', "'", "concat('a')", '$p', '-o', '--', '%s', ' ',
                                         '가', '\U0001F600', 'a=b', '\\', 'yes'])).filter(
    lambda s: not ('"' in s and "'" in s))      # which xsltproc refuses


def tree(depth=3):
    return st.recursive(
        st.tuples(NAME, st.dictionaries(st.sampled_from(['k', 'n']), TEXT, max_size=2),
                  st.lists(TEXT, max_size=1)),
        lambda k: st.tuples(NAME, st.dictionaries(st.sampled_from(['k', 'n']), TEXT, max_size=2),
                            st.lists(st.one_of(TEXT, k), max_size=4)), max_leaves=10)


def dump(t):
    if isinstance(t, str):
        return escape(t)
    name, attrs, kids = t
    return '<%s%s>%s</%s>' % (
        name, ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in sorted(attrs.items())),
        ''.join(map(dump, kids)), name)


def value(e):
    return '<xsl:value-of select="%s"/>' % e


EXPR = st.sampled_from(['$p', '$q', '@k', '@n', '.', 'name()', 'count(*)', 'position()', 'string-length(.)',
                        "concat($p, '|', @k)", 'normalize-space(.)', 'sum(//a/@n)', "translate(., 'ab', 'cd')",
                        'substring(., 2, 3)', "format-number(count(//*), '000')", 'local-name(..)',
                        'number(@n) + 1', 'count(ancestor::*)', "key('k', @k)/@n"])
TEST = st.sampled_from(['@k', 'not(@k)', "$p = ''", 'count(*) &gt; 1', "$p = $q", 'self::a', 'position() = 1',
                        "contains(., 'a')", 'true()', 'false()', "starts-with($p, 'y')"])
PATTERN = st.sampled_from(['a', 'b', 'c', 'd', '*', 'a/b', '*[@k]', 'text()', '@*', 'a[1]', 'd//c', "*[@n='1']"])


def body(draw, n):
    if n <= 0:
        return '<xsl:apply-templates/>'
    k = draw(st.sampled_from(['value', 'value', 'value', 'element', 'apply', 'apply', 'choose', 'if', 'copy',
                              'foreach', 'text', 'attribute', 'sort', 'variable', 'comment', 'message',
                              'stop', 'number']))
    sub = lambda: body(draw, n - 1)
    if k == 'value':
        return value(draw(EXPR)) + sub()
    if k == 'element':
        return '<x>%s</x>' % sub()
    if k == 'apply':
        return '<xsl:apply-templates select="%s"/>' % draw(st.sampled_from(
            ['*', 'node()', '@*|node()', '*[last()]', 'a|b', 'text()']))
    if k == 'choose':
        return ('<xsl:choose><xsl:when test="%s">%s</xsl:when><xsl:otherwise>%s</xsl:otherwise>'
                '</xsl:choose>' % (draw(TEST), sub(), sub()))
    if k == 'if':
        return '<xsl:if test="%s">%s</xsl:if>' % (draw(TEST), sub())
    if k == 'copy':
        return '<xsl:copy>%s</xsl:copy>' % sub()
    if k == 'foreach':
        return '<xsl:for-each select="*"><y>%s</y></xsl:for-each>' % value(draw(EXPR))
    if k == 'text':
        return '<xsl:text>%s</xsl:text>' % escape(draw(TEXT)) + sub()
    if k == 'attribute':
        return '<z><xsl:attribute name="m">%s</xsl:attribute>%s</z>' % (value(draw(EXPR)), sub())
    if k == 'sort':
        return ('<xsl:for-each select="*"><xsl:sort select="@k" order="%s"/>%s,</xsl:for-each>' % (
            draw(st.sampled_from(['ascending', 'descending'])), value(draw(EXPR))))
    if k == 'variable':
        return '<xsl:variable name="v%d" select="%s"/>%s%s' % (n, draw(EXPR), value('$v%d' % n), sub())
    if k == 'comment':
        return '<xsl:comment>c</xsl:comment>' + sub()
    if k == 'message':
        return '<xsl:message>%s</xsl:message>' % value(draw(EXPR)) + sub()
    if k == 'number':
        return '<xsl:number count="*" level="%s"/>' % draw(st.sampled_from(['any', 'single', 'multiple'])) + sub()
    return ('<xsl:if test="%s"><xsl:message terminate="yes">stop</xsl:message></xsl:if>%s' % (
        draw(TEST), sub()))


@st.composite
def stylesheets(draw):
    method = draw(st.sampled_from(['xml', 'xml', 'text', 'html']))
    enc = draw(st.sampled_from(['utf-8', 'utf-8', 'UTF-16', 'us-ascii', None]))
    parts = ['<xsl:output method="%s"%s indent="%s"%s/>' % (
        method, ' encoding="%s"' % enc if enc else '', draw(st.sampled_from(['no', 'yes'])),
        draw(st.sampled_from(['', ' omit-xml-declaration="yes"'])) if method == 'xml' else ''),
        '<xsl:param name="p" select="\'dp\'"/>', '<xsl:param name="q"/>',
        '<xsl:key name="k" match="*" use="@k"/>']
    if draw(st.booleans()):
        parts.append('<xsl:strip-space elements="*"/>')
    for i in range(draw(st.integers(0, 3))):
        pat = draw(PATTERN)
        parts.append('<xsl:template match="%s" priority="%d">%s</xsl:template>' % (
            pat, i, value('.') if pat in ('text()', '@*') else body(draw, draw(st.integers(0, 3)))))
    root = draw(st.sampled_from(['/', 'root']))
    inner = body(draw, draw(st.integers(1, 3)))
    parts.append('<xsl:template match="%s" priority="9"><out p="{$p}"><q>%s</q>%s</out></xsl:template>' % (
        root, value('$q'), inner))
    return ('<?xml version="1.0" encoding="utf-8"?>\n<xsl:stylesheet version="1.0" '
            'xmlns:xsl="http://www.w3.org/1999/XSL/Transform">%s</xsl:stylesheet>' % '\n'.join(parts))


BREAK = [None] * 12 + ['xsl cut', 'xsl missing', 'xsl instruction', 'xsl expression', 'xsl variable',
                       'input cut', 'input missing', 'input empty', 'input bytes', 'output directory']
DIRS = ['w', 'w', 'a b', '가', '-x', "q'"]


@st.composite
def jobs(draw):
    return (draw(stylesheets()), draw(tree()), draw(st.dictionaries(st.sampled_from(['p', 'q']), PARAM,
                                                                    max_size=2)),
            draw(st.sampled_from(APIS)), draw(st.sampled_from(BREAK)), draw(st.sampled_from(DIRS)),
            draw(st.integers(1, 10 ** 6)))


def check_job(case, rec):
    sheet, t, params, api, broken, sub, n = case
    data = ('<?xml version="1.0" encoding="utf-8"?><root>%s</root>' % dump(t)).encode('utf-8')
    sheet = sheet.encode('utf-8')
    if broken == 'xsl cut':
        sheet = sheet[:n % (len(sheet) - 1)]
    elif broken == 'xsl instruction':
        sheet = sheet.replace(b'</xsl:stylesheet>', b'<xsl:template/></xsl:stylesheet>')
    elif broken == 'xsl expression':
        sheet = sheet.replace(b'select="$q"', b'select="$q["')
    elif broken == 'xsl variable':
        sheet = sheet.replace(b'select="$q"', b'select="$undefined"')
    elif broken == 'input cut':
        data = data[:n % (len(data) - 1)]
    elif broken == 'input empty':
        data = b''
    elif broken == 'input bytes':
        data = data.replace(b'</root>', [b'\x01', b'\xff\xfe', b'&x;', b'&#0;', b'<a b="1" b="2"/>'][n % 5]
                            + b'</root>')
    with gen.workdir() as top:
        d = os.path.join(top, sub)
        os.mkdir(d)
        xsl, inp = os.path.join(d, 't.xsl'), os.path.join(d, 'in.xml')
        if broken != 'xsl missing':
            with io.open(xsl, 'wb') as f:
                f.write(sheet)
        if broken != 'input missing':
            with io.open(inp, 'wb') as f:
                f.write(data)
        if broken == 'output directory':
            os.mkdir(os.path.join(d, 'lxml.out'))
            os.mkdir(os.path.join(d, 'xsltproc.out'))
        state, result = both(d, api, xsl, inp, params, 'a generated stylesheet')
        rec.label(state, api, broken or 'intact', 'terminated' if state == 'failed' and not broken else 'x')
        rec.nontrivial(bool(params) or sheet.count(b'<xsl:template') > 1 or state == 'failed')
        if broken:
            eq(state, 'failed', 'a transformation with: %s' % broken)
        elif b'terminate' not in sheet:
            eq(state, 'done', 'a sound transformation')
            if b'method="text"' not in sheet and b'UTF-16' not in sheet and b'method="html"' not in sheet:
                from lxml import etree
                q = etree.fromstring(result).find('.//q')
                eq(q.text or '', params.get('q', ''), 'the value of the parameter q')


# ---------------------------------------------------------------- grammars
ELEMS = 'abcde'


@st.composite
def grammars(draw):
    '''{element: (pattern, attributes {name: (required, type)}, text?)}'''
    g = {}
    for i, e in enumerate(ELEMS):
        kids = ELEMS[i + 1:]
        if draw(st.booleans()) or not kids:
            pat = None
        else:
            pat = draw(patterns(kids, 3))
        attrs = draw(st.dictionaries(st.sampled_from(['k', 'n', 'm']), st.tuples(
            st.booleans(), st.sampled_from(['string', 'integer', 'boolean', 'a|b'])), max_size=2))
        g[e] = (pat, attrs, draw(st.booleans()))
    return g


@st.composite
def patterns(draw, kids, depth):
    op = draw(st.sampled_from(['ref', 'ref', 'seq', 'choice', 'opt', 'many', 'some'])) if depth else 'ref'
    if op == 'ref':
        return ('ref', draw(st.sampled_from(kids)))
    if op in ('seq', 'choice'):
        return (op, [draw(patterns(kids, depth - 1)) for i in range(draw(st.integers(2, 3)))])
    return (op, draw(patterns(kids, depth - 1)))


TAGS = {'seq': 'group', 'choice': 'choice', 'opt': 'optional', 'many': 'zeroOrMore', 'some': 'oneOrMore'}
VALUES = {'string': ['', 'x', '가'], 'integer': ['0', '-12', '+7', '007'], 'boolean': ['true', '0'],
          'a|b': ['a', 'b']}
BAD = {'string': [], 'integer': ['', 'x', '1.5', '1 2'], 'boolean': ['yes', ''], 'a|b': ['c', 'ab', '']}


def rng_pattern(p):
    if p[0] == 'ref':
        return '<ref name="%s"/>' % p[1]
    kids = p[1] if p[0] in ('seq', 'choice') else [p[1]]
    return '<%s>%s</%s>' % (TAGS[p[0]], ''.join(map(rng_pattern, kids)), TAGS[p[0]])


def regex(p):
    if p[0] == 'ref':
        return p[1]
    if p[0] == 'seq':
        return '(?:%s)' % ''.join(map(regex, p[1]))
    if p[0] == 'choice':
        return '(?:%s)' % '|'.join(map(regex, p[1]))
    return '(?:%s)%s' % (regex(p[1]), {'opt': '?', 'many': '*', 'some': '+'}[p[0]])


def rng(g, ns):
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<grammar xmlns="http://relaxng.org/ns/structure/1.0" ns="%s" '
           'datatypeLibrary="http://www.w3.org/2001/XMLSchema-datatypes"><start><ref name="a"/></start>' % ns]
    for e, (pat, attrs, text) in g.items():
        out.append('<define name="%s"><element name="%s">' % (e, e))
        for n, (required, t) in sorted(attrs.items()):
            inner = ('<choice><value>a</value><value>b</value></choice>' if t == 'a|b'
                     else '<data type="%s"/>' % t)
            a = '<attribute name="%s" ns="">%s</attribute>' % (n, inner)
            out.append(a if required else '<optional>%s</optional>' % a)
        if pat is not None:
            out.append(rng_pattern(pat))
        else:
            out.append('<text/>' if text else '<empty/>')
        out.append('</element></define>')
    out.append('</grammar>')
    return ''.join(out)


def sample(draw, g, e, budget):
    budget[0] -= 1
    pat, attrs, text = g[e]
    have = {n: draw(st.sampled_from(VALUES[t])) for n, (r, t) in sorted(attrs.items())
            if r or draw(st.booleans())}

    def expand(p):
        if p[0] == 'ref':
            return [p[1]]
        if p[0] == 'seq':
            return [x for q in p[1] for x in expand(q)]
        if p[0] == 'choice':
            return expand(draw(st.sampled_from(p[1])))
        lo = 1 if p[0] == 'some' else 0
        hi = 1 if p[0] == 'opt' or budget[0] < 0 else 3
        return [x for i in range(draw(st.integers(lo, hi))) for x in expand(p[1])]
    kids = []
    if pat is not None:
        kids = [sample(draw, g, k, budget) for k in expand(pat)]
    elif text:
        kids = draw(st.lists(TEXT, max_size=1))
    return [e, have, kids]


def nodes(t):
    yield t
    for k in t[2]:
        if not isinstance(k, str):
            for x in nodes(k):
                yield x


def valid(g, t):
    name, have, kids = t
    if name not in g:
        return False
    pat, attrs, text = g[name]
    if set(have) - set(attrs) or any(r and n not in have for n, (r, ty) in attrs.items()):
        return False
    for n, v in have.items():
        if v in BAD[attrs[n][1]]:
            return False
        if v not in VALUES[attrs[n][1]]:
            return None     # not decided here
    elems = [k for k in kids if not isinstance(k, str)]
    words = ''.join(k for k in kids if isinstance(k, str))
    if pat is not None:
        if words.strip(' \t\r\n'):
            return False
        if any(len(k[0]) > 1 for k in elems):
            return False
        if not re.fullmatch(regex(pat), ''.join(k[0] for k in elems)):
            return False
    elif elems or (not text and words.strip(' \t\r\n')):
        return False
    r = [valid(g, k) for k in elems]
    return False if False in r else None if None in r else True


@st.composite
def validations(draw):
    g = draw(grammars())
    t = sample(draw, g, 'a', [12])
    for i in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        n = draw(st.sampled_from(list(nodes(t))))
        op = draw(st.sampled_from(['rename', 'drop', 'double', 'attr', 'noattr', 'value', 'text', 'swap',
                                   'insert']))
        ek = [i for i, k in enumerate(n[2]) if not isinstance(k, str)]
        if op == 'rename':
            n[0] = draw(st.sampled_from(list(ELEMS) + ['other']))
        elif op == 'drop' and ek:
            del n[2][draw(st.sampled_from(ek))]
        elif op == 'double' and ek:
            i = draw(st.sampled_from(ek))
            n[2].insert(i, n[2][i])
        elif op == 'attr':
            n[1][draw(st.sampled_from(['k', 'n', 'm', 'other']))] = draw(st.sampled_from(['a', '1', 'x']))
        elif op == 'noattr' and n[1]:
            del n[1][sorted(n[1])[0]]
        elif op == 'value' and n[1]:
            k = sorted(n[1])[-1]
            n[1][k] = draw(st.sampled_from(['', 'x', '1.5', 'yes', 'c', 'a', '0']))
        elif op == 'text':
            n[2].insert(0, draw(st.sampled_from(['x', ' ', '\n ', '가'])))
        elif op == 'swap' and len(n[2]) > 1:
            n[2][0], n[2][-1] = n[2][-1], n[2][0]
        elif op == 'insert':
            n[2].append([draw(st.sampled_from(list(ELEMS))), {}, []])
    return (g, t, draw(st.sampled_from(['', 'urn:x'])), draw(st.sampled_from(
        [None] * 8 + ['cut', 'empty', 'missing', 'bytes', 'namespace'])), draw(st.sampled_from(DIRS)),
        draw(st.integers(1, 10 ** 6)), draw(st.sampled_from(['utf-8', None, 'utf-16', 'euc-kr'])))


def validators():
    from hwp5.plat import _lxml, xmllint
    return [('lxml', _lxml), ('xmllint', xmllint)]


def verdict(module, rngpath, inp):
    try:
        r = module.relaxng(rngpath, inp)
    except Exception as e:
        r = False
    v = module.relaxng_compile(rngpath)
    try:
        s = v.validate(inp)
    except Exception:
        s = False
    eq(bool(s), bool(r), '%s: RelaxNG.validate / relaxng' % module.__name__)
    return bool(r)


def through(module, rngpath, data, out):
    '''(accepted, output) of validating_output'''
    v = module.relaxng_compile(rngpath)
    try:
        with io.open(out, 'wb') as f:
            with v.validating_output(f) as g:
                for i in range(0, len(data), 100):
                    g.write(data[i:i + 100])
    except Exception as e:
        return False, e
    with io.open(out, 'rb') as f:
        return True, f.read()


def check_validation(case, rec):
    g, t, ns, broken, sub, n, enc = case
    root = dump(t)
    uri = 'urn:y' if broken == 'namespace' else ns
    if uri:
        root = re.sub(r'^<(\w+)', r'<\1 xmlns="%s"' % uri, root)
    codec = enc or 'utf-8'
    text = '<?xml version="1.0"%s?>\n' % (' encoding="%s"' % enc if enc else '') + root
    if codec == 'euc-kr':
        text = ''.join(c if c == '가' or ord(c) < 128 else '&#%d;' % ord(c) for c in text)
    data = text.encode(codec)
    expected = valid(g, t) if t[0] == 'a' else False
    if broken == 'cut':
        data = data[:n % (len(data) - 1)]
    elif broken == 'empty':
        data = b''
    elif broken == 'bytes':
        data = data[:-3] + b'\0\1' + data[-3:]
    if broken:
        expected = False
    rec.label(broken or 'intact', 'expected %s' % expected)
    rec.nontrivial(bool(t[2]) or expected is False)
    from hwp5.errors import ValidationFailed
    with gen.workdir() as top:
        d = os.path.join(top, sub)
        os.mkdir(d)
        rngpath, inp = os.path.join(d, 'g.rng'), os.path.join(d, 'in.xml')
        with io.open(rngpath, 'wb') as f:
            f.write(rng(g, ns).encode('utf-8'))
        if broken != 'missing':
            with io.open(inp, 'wb') as f:
                f.write(data)
        else:
            data = b''
        got = {}
        with quiet():
            for name, module in validators():
                got[name] = verdict(module, rngpath, inp)
        eq(got['xmllint'], got['lxml'], 'verdict of xmllint / lxml')
        if expected is not None:
            eq(got['lxml'], expected, 'verdict')
        for name, module in validators():
            with quiet():
                accepted, result = through(module, rngpath, data, os.path.join(d, 'out'))
            eq(accepted, got[name], '%s: validating_output accepts / verdict (%s)' % (name, result))
            if accepted:
                eq(canonical(result), canonical(data), '%s: the output of validating_output' % name)
            elif broken in (None, 'namespace'):
                ok(isinstance(result, ValidationFailed), '%s: %r instead of ValidationFailed', name, result)


# ---------------------------------------------------------------- the schema of OpenDocument
RNG = os.path.join(SRC, 'odf-relaxng/OpenDocument-v1.2-os-schema.rng')
_odf = {}


def odf():
    if not _odf:
        from hwp5.plat import _lxml, xmllint
        _odf['lxml'] = _lxml.relaxng_compile(RNG)
        _odf['xmllint'] = xmllint.relaxng_compile(RNG)
    return _odf


def check_odf(case, rec):
    '''converted documents, some of them spoilt'''
    doc, sheet, edits = case
    from lxml import etree
    from hwp5.plat import _lxml
    with gen.workdir() as d:
        inp, out = os.path.join(d, 'in.xml'), os.path.join(d, 'out.xml')
        with io.open(inp, 'wb') as f:
            doc.hwp5file().xmlevents().dump(f)
        _lxml.xslt(os.path.join(SRC, sheet), inp, out)
        root = etree.parse(out).getroot()
        for op, at in edits:
            every = [x for x in root.iter() if isinstance(x.tag, str)]
            x = every[at % len(every)]
            if op == 'rename':
                x.tag = x.tag + 'x'
            elif op == 'drop' and x is not root:
                x.getparent().remove(x)
            elif op == 'attr':
                x.set('nonsense', '1')
            elif op == 'noattr' and x.attrib:
                del x.attrib[sorted(x.attrib)[0]]
            elif op == 'twice' and x is not root:
                import copy
                x.addnext(copy.deepcopy(x))
        with io.open(out, 'wb') as f:
            f.write(etree.tostring(root, encoding='utf-8', xml_declaration=True))
        got = {}
        with quiet():
            for name, v in odf().items():
                got[name] = bool(v.validate(out))
        eq(got['xmllint'], got['lxml'], 'verdict of xmllint / lxml for an OpenDocument file')
        rec.label('valid' if got['lxml'] else 'invalid')
        rec.nontrivial()


def check_default(case, rec):
    '''whole conversions with the engines given explicitly'''
    doc, what = case
    from hwp5.hwp5html import HTMLTransform
    from hwp5.hwp5odt import ODTTransform
    from hwp5.hwp5txt import TextTransform
    from hwp5.plat import _lxml, xmllint, xsltproc
    rec.nontrivial(sum(1 for p in doc.paragraphs()) > 1)
    rec.label(what)
    outs = []
    with gen.workdir() as d, quiet():
        for x, r in ((_lxml, _lxml), (xsltproc, xmllint), (xsltproc, _lxml), (_lxml, xmllint))[
                :4 if what == 'content' else 2]:
            if what == 'text':
                t = TextTransform(xslt_compile=x.xslt_compile).transform_hwp5_to_text
            elif what in ('css', 'xhtml'):
                t = getattr(HTMLTransform(xslt_compile=x.xslt_compile), 'transform_hwp5_to_' + what)
            else:
                t = getattr(ODTTransform(xslt_compile=x.xslt_compile, relaxng_compile=r.relaxng_compile),
                            'transform_hwp5_to_' + what)
            p = os.path.join(d, 'o')
            try:
                with io.open(p, 'wb') as f:
                    t(doc.hwp5file(), f)
                with io.open(p, 'rb') as f:
                    outs.append(canonical(f.read()))
            except Exception as e:
                outs.append(type(e).__name__)
    for o in outs[1:]:
        eq(o, outs[0], 'converting to %s with another engine' % what)


def check_large(case, rec):
    '''more text than the parsers accept by default; deep documents'''
    kind, n = case
    rec.nontrivial()
    rec.label(kind)
    with gen.workdir() as d:
        xsl, inp, rngpath = (os.path.join(d, x) for x in ('t.xsl', 'in.xml', 'g.rng'))
        with io.open(xsl, 'w') as f:
            f.write('<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform">'
                    '<xsl:output method="text"/><xsl:template match="/"><xsl:value-of select="string-length(.)"/>'
                    '<xsl:text> </xsl:text><xsl:value-of select="count(//*)"/></xsl:template></xsl:stylesheet>')
        if kind == 'text':
            data, expected = '<a>' + 'x' * (10 ** 7 + 1 + n) + '</a>', '%d 1' % (10 ** 7 + 1 + n)
        else:
            k = 260 + n % 500
            data, expected = '<a>' * k + '</a>' * k, '0 %d' % k
        with io.open(inp, 'w') as f:
            f.write(data)
        with io.open(rngpath, 'w') as f:
            f.write('<grammar xmlns="http://relaxng.org/ns/structure/1.0"><start><ref name="a"/></start>'
                    '<define name="a"><element name="a"><mixed><optional><ref name="a"/></optional></mixed>'
                    '</element></define></grammar>')
        state, out = both(d, 'stream', xsl, inp, {}, 'a large document')
        eq(state, 'done', 'transforming a large document')
        eq(out.decode(), expected, 'a large document')
        with quiet():
            for name, module in validators():
                eq(verdict(module, rngpath, inp), True, '%s: verdict on a large document' % name)
                accepted, result = through(module, rngpath, data.encode(), os.path.join(d, 'o'))
                ok(accepted, '%s: %s', name, result)
                eq(canonical(result), canonical(data.encode()), 'large output')


def tests(tier):
    docs = docgen.docs(mode='sane', images=2)
    wild = docgen.docs(info='full')
    return [
        Test('documents', st.tuples(docs, st.sets(st.integers(0, 5), min_size=1, max_size=3),
                                    st.sampled_from(APIS), st.booleans()), check_document, 150, 8000),
        Test('wild documents', st.tuples(wild, st.sets(st.integers(0, 2), min_size=1, max_size=2),
                                         st.sampled_from(APIS), st.just(False)), check_document, 80, 4000),
        Test('stylesheets', jobs(), check_job, 1000, 40000),
        Test('grammars', validations(), check_validation, 500, 20000),
        Test('OpenDocument', st.tuples(docs, st.sampled_from(SHEETS[3:]), st.lists(st.tuples(
            st.sampled_from(['rename', 'drop', 'attr', 'noattr', 'twice']), st.integers(0, 10 ** 4)),
            max_size=2)), check_odf, 40, 1500),
        Test('conversions', st.tuples(docs, st.sampled_from(['text', 'css', 'xhtml', 'styles', 'content',
                                                             'single_document'])), check_default, 60, 3000),
        Test('large', st.tuples(st.just('text'), st.integers(0, 10 ** 5)), check_large, 8, 60),
        Test('deep', st.tuples(st.just('depth'), st.integers(0, 10 ** 5)), check_large, 16, 200),
    ]
