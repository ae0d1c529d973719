# -*- coding: utf-8 -*-
import json
import struct
from io import BytesIO

from hypothesis import strategies as st

from lib import cli, docgen, gen, layout as L, recgen
from lib.runner import Test, eq, ok, fail
from hwp5 import binmodel, recordstream
from hwp5.dataio import ParseError
from .c03 import compare, model_stream, singles

RULE = 'the data is cut or corrupted behind the first record header'


def error_of(models):
    got = []
    try:
        for m in models:
            got.append(m)
    except ParseError as e:
        return got, e
    return got, None


def event_models(stream):
    return list(stream.parse_model_events())


def reported(e, seqno, what):
    ok(e is not None, '%s: no parse error', what)
    ok(e.record is not None, '%s: the error does not identify the record: %s', what, e)
    eq(e.record['seqno'], seqno, '%s: offending record' % what)
    lines = []

    class Logger(object):
        @staticmethod
        def error(fmt, *args):
            lines.append(fmt % args if args else fmt)
        debug = info = warning = error
    e.print_to_logger(Logger)
    ok(any(l.startswith('Record: %d' % seqno) for l in lines),
       '%s: the printed report does not name the record: %r', what, lines[:4])


@st.composite
def cuts(draw, source):
    '''a tree, the index of a record and the number of bytes left of its payload'''
    version, nodes = draw(source)
    able = [i for i, n in enumerate(nodes) if n.tagid != L.PARA_TEXT and n.body()]
    if not able:
        nodes = nodes + [recgen.make_node(draw, L.PARA_HEADER, 0, None, version)]
        able = [len(nodes) - 1]
    i = draw(st.sampled_from(able))
    n = len(nodes[i].body())
    k = draw(st.one_of(st.integers(0, n - 1), st.integers(max(0, n - 4), n - 1)))
    return version, nodes, i, k


def cut_stream(nodes, i, k):
    out = b''
    for j, n in enumerate(nodes):
        p = n.payload()
        out += L.record_bytes(n.tagid, n.level, p[:k] if j == i else p)
    return out


def check_cut(case, rec):
    version, nodes, i, k = case
    rec.nontrivial(i > 0 or k > 0)
    rec.label(nodes[i].name)
    blob = cut_stream(nodes, i, k)
    got, e = error_of(model_stream(blob, version).models())
    what = '%s cut to %d of %d bytes' % (nodes[i].name, k, len(nodes[i].body()))
    reported(e, i, what)
    compare(nodes[:i], got)
    try:
        event_models(model_stream(blob, version))
    except ParseError as e:
        reported(e, i, what + ' (events)')
    else:
        fail('%s: parse_model_events() does not report it', what)
    groups = [0]
    for j, n in enumerate(nodes):
        groups.append(groups[-1] + (1 if j + 1 < len(nodes) and nodes[j + 1].level == 0 else 0))
    try:
        list(model_stream(blob, version).models(treegroup=groups[i]))
    except ParseError as e:
        reported(e, i, what + ' (treegroup)')
        eq(e.treegroup, groups[i], 'tree group of the error')
    else:
        fail('%s: models(treegroup=) does not report it', what)
    try:
        model_stream(blob, version).models_json().open().read()
    except ParseError as e:
        reported(e, i, what + ' (json)')
    else:
        fail('%s: models_json() does not report it', what)


def strings(value):
    if isinstance(value, str):
        if len(value) > 1:
            yield value
    elif isinstance(value, dict):
        for v in value.values():
            for x in strings(v):
                yield x
    elif isinstance(value, (list, tuple)):
        for v in value:
            for x in strings(v):
                yield x


@st.composite
def corruptions(draw):
    version, nodes = draw(recgen.trees(8))
    blob = bytearray(recgen.stream(nodes))
    texts = sorted(set(t for node in nodes for v in node.values for t in strings(v)))
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(['flip', 'byte', 'delete', 'insert', 'cut', 'header', 'big',
                                   'surrogate']))
        n = len(blob)
        if n == 0:
            break
        at = draw(st.integers(0, n - 1))
        if op == 'surrogate':
            # half of a surrogate pair in a string
            if texts:
                text = draw(st.sampled_from(texts)).encode('utf-16-le', 'surrogatepass')
                where = bytes(blob).find(text)
                if where >= 0:
                    i = draw(st.integers(0, len(text) // 2 - 1)) * 2
                    blob[where + i:where + i + 2] = struct.pack(
                        '<H', draw(st.sampled_from([0xd800, 0xdbff, 0xdc00, 0xdfff])))
        elif op == 'flip':
            blob[at] ^= 1 << draw(st.integers(0, 7))
        elif op == 'byte':
            blob[at] = draw(st.sampled_from([0, 1, 0x7f, 0x80, 0xfe, 0xff]))
        elif op == 'delete':
            del blob[at:at + draw(st.integers(1, 9))]
        elif op == 'insert':
            blob[at:at] = draw(st.binary(min_size=1, max_size=9))
        elif op == 'cut':
            del blob[at:]
        elif op == 'big':
            blob[at:at + 4] = b'\xff\xff\xff\xff'
        else:
            # a stray record at some level
            blob[at:at] = L.record_bytes(draw(st.sampled_from(recgen.ALLTAGS)),
                                         draw(st.integers(0, 9)), draw(st.binary(max_size=8)))
    return version, bytes(blob)


def consumed_within(models):
    for m in models:
        n = len(m['payload'])
        left = len(m.get('unparsed', b''))
        ok(left <= n, 'more unparsed bytes than payload')
        for ev, it in m['binevents']:
            if ev is None:
                ok(it['bin_offset'] <= n - left, 'field read at %d behind the payload (%d bytes)',
                   it['bin_offset'], n)
                made_of(m['payload'], it)


INTEGERS = {'UINT32': '<I', 'INT32': '<i', 'UINT16': '<H', 'INT16': '<h', 'UINT8': '<B',
            'INT8': '<b', 'WORD': '<H', 'BYTE': '<B', 'WCHAR': '<H', 'HWPUNIT': '<I',
            'SHWPUNIT': '<i', 'HWPUNIT16': '<h'}


def made_of(payload, item):
    '''the value is what the bytes at its offset say'''
    name = item.get('bin_type', item['type']).__name__
    value, at = item['value'], item['bin_offset']
    if name in INTEGERS:
        data = struct.pack(INTEGERS[name], int(value))
    elif name == 'BSTR':
        data = value.encode('utf-16-le', 'surrogatepass')
        data = struct.pack('<H', len(data) // 2) + data
    elif name == 'CHID':
        data = value.encode('latin1')[::-1]
    elif name == 'ParaTextChunks':
        for (start, end), chunk in value:
            if isinstance(chunk, str):
                eq(chunk.encode('utf-16-le', 'surrogatepass'), payload[start * 2:end * 2],
                   'text at %d-%d' % (start, end))
        return
    else:
        return
    eq(payload[at:at + len(data)], data, 'bytes of %s %r' % (name, value))


def check_corrupt(case, rec):
    version, blob = case
    rec.nontrivial(len(blob) > 8)
    recs = []
    try:
        for r in recordstream.read_records(BytesIO(blob)):
            recs.append(r)
    except ParseError:
        pass
    total = b''.join(r['payload'] for r in recs)
    ok(len(total) <= len(blob), 'records hold more bytes than the stream')
    got, e = error_of(model_stream(blob, version).models())
    rec.label('parse error' if e else 'parsed')
    consumed_within(got)
    if e is not None and e.record is not None:
        ok(e.record['seqno'] >= len(got), 'error names record %r after %d models',
           e.record['seqno'], len(got))
    n_events, ee = 0, None
    try:
        for ev, item in model_stream(blob, version).parse_model_events():
            n_events += 1
    except ParseError as x:
        ee = x
    eq(ee is None, e is None, 'events and models agree on the validity')


def check_random(case, rec):
    version, blob = case
    check_corrupt(case, rec)


def check_cli(case, rec):
    (version, nodes, i, k), where, cmd = case
    rec.nontrivial()
    rec.label(*cmd)
    blob = cut_stream(nodes, i, k)
    docinfo, body = (blob, b'') if where == 'DocInfo' else (b'', blob)
    with gen.workdir() as d:
        path = gen.write_ole(gen.minimal_doc([body], docinfo, 1, version), d + '/a.hwp')
        args = [cmd[0], path] + (['DocInfo' if where == 'DocInfo' else 'bodytext/0']
                                 if cmd[0] == 'models' else []) + list(cmd[1:])
        stdin = b''
        if cmd[0] == 'stdin':
            args = ['models', '-V', '.'.join(map(str, version))] + list(cmd[1:])
            stdin = blob
        r = cli.run('hwp5proc', args, stdin)
    if r.exc is not None:
        raise r.exc
    ok(b'ParseError' in r.err, 'not reported on stderr: %r', r.err[-300:])
    ok(b'Record: %d' % i in r.err, 'the record is not named on stderr: %r', r.err[-500:])
    ok(b'Traceback' not in r.err and b'--- Logging error' not in r.err, 'traceback: %r', r.err)
    if cmd[0] != 'find':
        ok(r.rc != 0, 'hwp5proc %s exits with 0', ' '.join(cmd))


@st.composite
def damaged_docs(draw):
    """a whole document, the stream and the index of the cut record, the bytes left of its payload"""
    doc = draw(docgen.docs(draw(st.sampled_from(['sane', 'sane', 'wild'])), maxparas=6, maxsections=2,
                           flags=0))
    where = draw(st.sampled_from(['DocInfo'] + ['Section%d' % n for n in sorted(doc.sections)] * 3))
    nodes = doc_records(doc, where)
    able = [i for i, n in enumerate(nodes) if n.tagid != L.PARA_TEXT and n.body()]
    i = draw(st.sampled_from(able))
    n = len(nodes[i].body())
    k = draw(st.one_of(st.integers(0, n - 1), st.integers(max(0, n - 4), n - 1)))
    cmd = draw(st.sampled_from([('hwp5proc', 'xml'), ('hwp5proc', 'xml', '--no-xml-decl'),
                                ('hwp5proc', 'xml', '--embedbin'),
                                ('hwp5txt',), ('hwp5html',), ('hwp5html', '--html'), ('hwp5odt',),
                                ('hwp5odt', '--content')]))
    return doc, where, i, k, cmd


def doc_records(doc, where):
    if where == 'DocInfo':
        return [r for e in doc.docinfo for r in e.records()]
    return [r for p in doc.sections[int(where[7:])] for r in p.records()]


def check_damaged(case, rec):
    doc, where, i, k, cmd = case
    nodes = doc_records(doc, where)
    rec.nontrivial(i > 0)
    rec.label(nodes[i].name, ' '.join(cmd))
    tree = doc.tree()
    blob = cut_stream(nodes, i, k)
    if where == 'DocInfo':
        tree['DocInfo'] = blob
    else:
        tree['BodyText'][where] = blob
    with gen.workdir() as d:
        path = gen.write_ole(tree, d + '/a.hwp')
        r = cli.run(cmd[0], list(cmd[1:]) + [path], b'', cwd=d)
    if r.exc is not None:
        raise r.exc
    ok(b'ParseError' in r.err, '%s %d: not reported on stderr: %r', where, i, r.err[-300:])
    ok(b'Record: %d' % i in r.err, 'the record is not named on stderr: %r', r.err[-500:])
    ok(b'Traceback' not in r.err and b'--- Logging error' not in r.err, 'traceback: %r', r.err)
    ok(r.rc != 0, '%s exits with 0', ' '.join(cmd))


RAW = st.one_of(
    st.binary(max_size=60),
    st.lists(st.tuples(st.integers(0, 120), st.integers(0, 3), st.binary(max_size=40)),
             max_size=5).map(lambda rs: b''.join(L.record_bytes(*r) for r in rs)))
HUGE = [  # counts far beyond the data
    L.record_bytes(22, 0, b'\0\0\0\0' + b'\xff' * 4),
    L.record_bytes(20, 0, b'\0' * 32 + b'\4\0\0\0' + b'\0' * 17 + b'\xff' * 4),
    L.record_bytes(77, 0, b'\0' * 4 + b'\xff' * 30),
    struct.pack('<II', 0xfff00042, 0xffffffff),
    struct.pack('<I', 0x00400000 | 66) + b'\0\0\0\0' + b'\x01',
]


def tests(tier):
    return [
        Test('truncated record', cuts(st.one_of(singles(), recgen.trees(6))), check_cut,
             2400, 100000),
        Test('corrupted stream', corruptions(), check_corrupt, 1600, 100000,
             examples=[((5, 0, 3, 4), b) for b in HUGE]),
        Test('arbitrary data', st.tuples(recgen.versions, RAW), check_random, 1600, 100000),
        Test('command line', st.tuples(
            cuts(recgen.trees(5)), st.sampled_from(['DocInfo', 'BodyText']),
            st.sampled_from([('models',), ('models', '--simple'), ('models', '--events'),
                             ('xml', '--format=flat'), ('find', '--tag=66'), ('stdin',),
                             ('stdin', '--events')])), check_cli, 400, 10000),
        Test('damaged document', damaged_docs(), check_damaged, 320, 8000),
    ]
