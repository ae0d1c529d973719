# -*- coding: utf-8 -*-
import io
import os
from datetime import datetime, timedelta
from uuid import UUID

from hypothesis import strategies as st
from lxml import etree

from lib import cli, docgen, gen, propset, refxml
from lib.memstg import MemStorage
from lib.runner import Test, eq, fail, ok

RULE = ('at least 4 properties of at least 3 types, stored in an order that is not that of the '
        'property table, or a second property set')

TEXT = st.one_of(st.text(st.characters(exclude_categories=['Cs']), max_size=30),
                 st.sampled_from(['', 'None', '\ud55c\uae00 \ubb38\uc11c', 'a\0b', '\0', 'line\nline\t',
                                  '\U0001f600', '\ufeff', ' x ', 'x' * 300]))
TIMES = st.one_of(st.integers(0, 2 ** 64 - 1),
                  st.integers(130000000000000000, 140000000000000000),
                  st.sampled_from([0, 1, 9, 10, 2650467743999999999, 2650467744000000000,
                                   2 ** 63, 2 ** 64 - 1, 129000000000000005]))
VALUES = {
    propset.LPWSTR: TEXT, propset.FILETIME: TIMES, propset.I4: gen.ints(-2 ** 31, 2 ** 31 - 1),
    propset.UI4: gen.ints(0, 2 ** 32 - 1), propset.I2: gen.ints(-2 ** 15, 2 ** 15 - 1),
    propset.BOOL: st.booleans(),
}
NAMES = {propset.LPWSTR: 'VT_LPWSTR', propset.FILETIME: 'VT_FILETIME', propset.I4: 'VT_I4',
         propset.UI4: 'VT_UI4', propset.I2: 'VT_I2', propset.BOOL: 'VT_BOOL'}
USUAL = {2: propset.LPWSTR, 3: propset.LPWSTR, 4: propset.LPWSTR, 5: propset.LPWSTR,
         6: propset.LPWSTR, 8: propset.LPWSTR, 9: propset.LPWSTR, 0xb: propset.FILETIME,
         0xc: propset.FILETIME, 0xd: propset.FILETIME, 0xe: propset.I4, 0x14: propset.LPWSTR,
         0x15: propset.I4}
LABELS = {0: 'PID_DICTIONARY', 1: 'PID_CODEPAGE', 0x80000000: 'PID_LOCALE',
          0x80000003: 'PID_BEHAVIOR', 2: 'PIDSI_TITLE', 3: 'PIDSI_SUBJECT', 4: 'PIDSI_AUTHOR',
          5: 'PIDSI_KEYWORDS', 6: 'PIDSI_COMMENTS', 7: 'PIDSI_TEMPLATE', 8: 'PIDSI_LASTAUTHOR',
          9: 'PIDSI_REVNUMBER', 10: 'PIDSI_EDITTIME', 11: 'PIDSI_LASTPRINTED',
          12: 'PIDSI_CREATE_DTM', 13: 'PIDSI_LASTSAVE_DTM', 14: 'PIDSI_PAGECOUNT',
          15: 'PIDSI_WORDCOUNT', 16: 'PIDSI_CHARCOUNT', 17: 'PIDSI_THUMBNAIL',
          18: 'PIDSI_APPNAME', 19: 'PIDSI_SECURITY', 20: 'HWPPIDSI_DATE_STR',
          21: 'HWPPIDSI_PARACOUNT'}
ACCESS = [('Title', 'title', 2), ('Subject', 'subject', 3), ('Author', 'author', 4),
          ('Keywords', 'keywords', 5), ('Comments', 'comments', 6),
          ('Last saved by', 'lastSavedBy', 8), ('Revision Number', 'revisionNumber', 9),
          ('Last Printed at', 'lastPrintedTime', 0xb), ('Created at', 'createdTime', 0xc),
          ('Last saved at', 'lastSavedTime', 0xd), ('Number of pages', 'numberOfPages', 0xe),
          ('Date', 'dateString', 0x14), ('Number of paragraphs', 'numberOfParagraphs', 0x15)]


# types that are not supported: simple ones, and those of the others as vectors, arrays or references
UNSUPPORTED = [0, 1, 4, 5, 6, 7, 8, 0xa, 0x10, 0x11, 0x12, 0x14, 0x1e, 0x41, 0x42, 0x47, 0x48, 0x100, 0xff,
               0x101f, 0x1003, 0x1040, 0x201f, 0x2003, 0x401f, 0x800b, 0x1002, 0x1013, 0x081f, 0x0403]


class Raw(object):
    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return 'Raw(%#x)' % self.code


def supported(props):
    return [p for p in props if not isinstance(p[1], Raw)]


@st.composite
def propsets(draw):
    '''[(id, vt or None, value)], storage order'''
    props = []
    kind = draw(st.sampled_from(['all', 'some', 'any']))
    if kind != 'any':
        for id, vt in USUAL.items():
            if kind == 'all' or draw(st.booleans()):
                props.append((id, vt, draw(VALUES[vt])))
    ids = {p[0] for p in props}
    for id in draw(st.lists(st.one_of(st.sampled_from(sorted(LABELS)), st.integers(2, 40),
                                      st.integers(22, 2 ** 32 - 1)), max_size=5, unique=True)):
        if id not in ids and id not in (0, 1):
            vt = draw(st.sampled_from(sorted(VALUES)))
            props.append((id, vt, draw(VALUES[vt])))
            ids.add(id)
    if draw(st.integers(0, 2)) == 0:
        for id, code, value in draw(st.lists(st.tuples(
                st.one_of(st.sampled_from(sorted(LABELS)), st.integers(2, 40)), st.sampled_from(UNSUPPORTED),
                st.one_of(st.binary(max_size=24), st.builds(lambda t: propset.typed(propset.LPWSTR, t)[4:], TEXT))),
                max_size=3, unique_by=lambda e: e[0])):
            if id not in ids and id not in (0, 1):
                props.append((id, Raw(code), value))
                ids.add(id)
    if draw(st.booleans()):
        entries = draw(st.lists(st.tuples(
            st.one_of(st.sampled_from(sorted(ids) or [2]), st.integers(2, 2 ** 32 - 1)),
            st.one_of(st.text(st.characters(min_codepoint=0x20, max_codepoint=0x7e), max_size=20),
                      st.text(st.sampled_from('\0 aB\n\t'), max_size=6))),
            max_size=4, unique_by=lambda e: e[0]))
        props.append((0, None, entries))
    if draw(st.booleans()):
        props.append((1, propset.I2, draw(st.sampled_from([949, 1252, 932, 10000 , -535]))))
    props = draw(st.permutations(props))
    order = draw(st.permutations(range(len(props))))
    return list(props), list(order)


@st.composite
def streams(draw):
    sets = [(propset.HWP_CLSID, draw(propsets()))]
    if draw(st.integers(0, 3)) == 0:
        sets.append((draw(st.uuids()), draw(propsets())))
    return (sets, draw(gen.ints(0, 0xffff)), draw(gen.ints(0, 2 ** 32 - 1)),
            draw(st.sampled_from([0, 0, 4, 16])))


def encode(props, order):
    def one(id, vt, value):
        if isinstance(vt, Raw):
            return (id, vt.code.to_bytes(4, 'little') + value + b'\0' * (-len(value) % 4))
        return (id, propset.dictionary(value) if vt is None else propset.typed(vt, value))
    return propset.propset([one(*p) for p in props], order=order)


def when(value):
    try:
        return str(datetime(1601, 1, 1) + timedelta(microseconds=value // 10))
    except OverflowError:
        return str(value)


def shown(vt, value):
    return when(value) if vt == propset.FILETIME else str(value)


def plain(vt, value):
    return value.value if vt == propset.FILETIME else value


def check(case, rec, tree=None):
    sets, version, sysid, gap = case
    rec.nontrivial(len(sets) > 1 or any(
        len(props) >= 4 and len({p[1] for p in props}) >= 3 and order != sorted(order)
        for fmtid, (props, order) in sets))
    enc = [(fmtid, encode(*ps)) for fmtid, ps in sets]
    data, offsets = propset.stream([(f, e[0]) for f, e in enc], version=version, sysid=sysid,
                                   gap=gap)
    tree = tree or gen.minimal_doc([b''])
    tree['\x05HwpSummaryInformation'] = data
    from hwp5.filestructure import Hwp5File
    info = Hwp5File(MemStorage(tree)).summaryinfo
    s = info.propertySetStream
    eq((s.byteOrder, s.version, s.systemIdentifier, s.clsid),
       (0xfffe, version, sysid, propset.HWP_CLSID), 'stream header')
    eq([(p.fmtid, p.desc.offset) for p in s.propertysets],
       list(zip([f for f, e in enc], offsets)), 'property sets')
    text = ['- ByteOrder: 0xfffe', '- Version: %d' % version, '- SystemIdentifier: 0x%08x' % sysid,
            '- CLSID: 9fa2b660-1061-11d4-b4c6-006097c09d8c', '']
    for ps, (fmtid, (props, order)), (_, (_, where)), base in zip(
            s.propertysets, sets, enc, offsets):
        labels = LABELS if fmtid == propset.HWP_CLSID else {}
        stored, props = props, supported(props)
        where = {p[0]: where[p[0]] for p in props}
        eq(sorted(d.id for d in ps.header.propDescList), sorted(p[0] for p in stored), 'descriptors')
        if len(stored) > len(props):
            rec.label('unsupported type')
        want = sorted((id, labels.get(id), vt, value) for id, vt, value in props if vt)
        got = sorted((p.id, p.idLabel, p.type.code, plain(p.type.code, p.value))
                     for p in ps.properties if p.id != 0)
        eq(got, want, 'properties')
        eq([type(g[3]) for g in got], [type(w[3]) for w in want], 'types of the values')
        eq(sorted(p.id for p in ps.properties), sorted(p[0] for p in props), 'property ids')
        eq({p.id: p.desc.offset for p in ps.properties}, where, 'property offsets')
        for id, vt, value in props:
            got = ps[Id(id)]
            if vt is None:
                eq([(e.id, e.name) for e in got.entries], list(value), 'dictionary')
                for k, name in value:
                    eq(got.get(k), name, 'name of %r' % k)
                eq(got.get(0x7ffffff0, 'nothing') if all(k != 0x7ffffff0 for k, n in value)
                   else 'nothing', 'nothing', 'name of an id that has none')
            else:
                eq(plain(vt, got), value, 'property %#x' % id)
                if vt == propset.FILETIME:
                    eq(str(got), when(value), 'date')
                    if value // 10 < 265046774400000000:
                        eq(got.datetime, datetime(1601, 1, 1)
                           + timedelta(microseconds=value // 10), 'date')
        for id in list(LABELS) + [0x7ffffff0]:
            if id not in where:
                try:
                    got = ps[Id(id)]
                except KeyError:
                    continue
                fail('absent property %#x gives %r', id, got)
        title = 'Property Set %s' % fmtid
        text += ['- %08x: %s' % (base, title), ' ' * 12 + '-' * len(title)]
        for id, vt, value in sorted(props, key=lambda p: where[p[0]]):
            head = '- %08x: %s(=0x%08x):' % (base + where[id], labels.get(id, ''), id)
            if vt is None:
                text.append(head)
                text += [' ' * 12 + '- %d: %s' % e for e in value]
            else:
                text.append(head + ' ' + shown(vt, value))
    text = ''.join(l + '\n' for l in text).encode('utf-8')
    eq(info.open_text().read(), text, 'text form')
    byid = {p[0]: p for p in supported(sets[0][1][0])}
    for label, name, id in ACCESS:
        if id in byid:
            eq(plain(byid[id][1], getattr(info, name)), byid[id][2], name)
    check_xml(tree, sets, enc, offsets, version, sysid)
    return tree, byid, text


class Id(object):
    def __init__(self, id):
        self.id = id


def check_xml(tree, sets, enc, offsets, version, sysid):
    from hwp5.xmlmodel import Hwp5File
    f = io.BytesIO()
    Hwp5File(MemStorage(tree)).summaryinfo.xmlevents().dump(f)
    root = etree.fromstring(f.getvalue(), etree.XMLParser(huge_tree=True))
    eq(root.tag, 'HwpSummaryInfo', 'root')
    s, = root
    eq((s.tag, dict(s.attrib)), ('PropertySetStream', {
        'byte-order': 'fffe', 'version': str(version), 'system-identifier': '%08x' % sysid,
        'clsid': str(propset.HWP_CLSID)}), 'XML')
    eq(len(s), len(sets), 'property sets in XML')
    for e, (fmtid, (props, order)), (_, (_, where)), base in zip(s, sets, enc, offsets):
        labels = LABELS if fmtid == propset.HWP_CLSID else {}
        eq((e.tag, dict(e.attrib)), ('PropertySet', {'fmtid': str(fmtid), 'offset': str(base)}),
           'XML')
        want = []
        for id, vt, value in sorted(supported(props), key=lambda p: where[p[0]]):
            a = {'id': str(id), 'offset': str(where[id])}
            if id in labels:
                a['id-label'] = labels[id]
            if vt is not None:
                a.update({'type': NAMES[vt], 'type-code': '0x%04x' % vt,
                          'value': refxml.legal(shown(vt, value))})
            want.append((('Property', a), [('DictionaryEntry', {'id': str(k), 'name': refxml.legal(n)})
                                           for k, n in value] if vt is None else []))
        eq([((p.tag, dict(p.attrib)), [(d.tag, dict(d.attrib)) for d in p]) for p in e],
           want, 'properties in XML')


def check_cli(case, rec):
    case, doc = case
    tree, byid, text = check(case, rec, doc.tree())
    with gen.workdir() as d:
        path = gen.write_ole(tree, os.path.join(d, 'd.hwp'))
        want = ''.join('%s: %s\n' % (label, shown(*byid[id][1:]))
                       for label, name, id in ACCESS if id in byid).encode('utf-8')
        eq(cli.success('hwp5proc', ['summaryinfo', path]).out, want, 'summaryinfo')
        eq(cli.success('hwp5proc', ['cat', '--vstreams', path,
                                    '\x05HwpSummaryInformation.txt']).out, text, 'cat .txt')
        if case[2] % 4 == 0:
            out = cli.success('hwp5proc', ['xml', path]).out
            root = etree.fromstring(out, etree.XMLParser(huge_tree=True))
            eq(len(root.findall('.//HwpSummaryInfo//Property')),
               sum(len(supported(p)) for f, (p, o) in case[0]), 'properties in the document XML')


def tests(tier):
    return [Test('api', streams(), check, 2000, 40000),
            Test('cli', st.tuples(streams(), docgen.docs(mode='sane', maxparas=1)), check_cli, 400, 8000)]
