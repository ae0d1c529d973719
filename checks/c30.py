# -*- coding: utf-8 -*-
import json
import os
import re

from hypothesis import strategies as st

from checks import c14
from checks.c03 import differences, plain
from lib import cfb, cli, gen, layout as L, recgen
from lib.runner import Test, eq, fail, ok

RULE = ('find: the conditions select some of the records, not all; models: the stream has several '
        'tree groups or records')

NAMES = ['a.hwp', 'b c.hwp', '가.hwp', '100%.hwp', '%s.hwp', "q'.hwp", 'x', ' lead.hwp', 'trail.hwp ', '\u3000wide\u3000',
         'tab\t.hwp\t', '#x', 'a\\b.hwp']


def tagname(n):
    from hwp5.tagids import tagnames
    return tagnames.get(n, 'HWPTAG%d' % (n - 16))


class Broken(object):
    '''a paragraph header that ends too early'''
    tagid, level, name, extra = L.PARA_HEADER, 0, 'Broken', b''

    def payload(self):
        return b'\1\2'

    def __repr__(self):
        return 'Broken'


@st.composite
def documents(draw, broken=True, maxn=8):
    '''version, {stream name: [Node]}, the stream that is broken and where'''
    version = draw(recgen.versions)
    streams = {'DocInfo': draw(recgen.trees(maxn=maxn, version=version))[1]}
    nos = draw(st.lists(st.one_of(st.integers(0, 3), st.integers(0, 30)), unique=True, min_size=1, max_size=3))
    for n in nos:
        streams['BodyText/Section%d' % n] = draw(recgen.trees(maxn=maxn, version=version))[1]
    bad = None
    if broken and draw(st.integers(0, 5)) == 0:
        name = draw(st.sampled_from(sorted(streams)))
        nodes = streams[name]
        tops = [i for i, n in enumerate(nodes) if n.level == 0] + [len(nodes)]
        i = draw(st.sampled_from(tops))
        streams[name] = nodes[:i] + [Broken()] + nodes[i:]
        bad = name, i
    return version, streams, bad


def order(streams, path):
    '''the sections come in the order of their storage'''
    import contextlib
    from hwp5.filestructure import Hwp5File
    with contextlib.closing(Hwp5File(path)) as f:
        found = ['BodyText/' + n for n in f['BodyText']]
    eq(sorted(found), sorted(s for s in streams if s != 'DocInfo'), 'sections')
    return ['DocInfo'] + found


def write(doc, path, compressed=False):
    import zlib
    version, streams, bad = doc

    def pack(nodes):
        data = recgen.stream(nodes)
        if compressed:
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            data = c.compress(data) + c.flush()
        return data
    tree = gen.minimal_doc([b''], version=version, flags=1 if compressed else 0)
    tree['DocInfo'] = pack(streams['DocInfo'])
    tree['BodyText'] = {s[9:]: pack(streams[s]) for s in streams if s != 'DocInfo'}
    with open(path, 'wb') as f:
        f.write(cfb.build(tree))


def listed(doc, filename, d):
    '''(records that can be listed, failed?)'''
    version, streams, bad = doc
    out = []
    for s in order(streams, os.path.join(d, filename)):
        for i, n in enumerate(streams[s]):
            if bad == (s, i):
                return out, True
            out.append((filename, s, i, n))
    return out, False


@st.composite
def finds(draw):
    docs = draw(st.lists(st.tuples(st.sampled_from(NAMES), documents(maxn=6), st.booleans()), min_size=1,
                         max_size=3, unique_by=lambda x: x[0]))
    nodes = [n for _, (v, s, b), _ in docs for ns in s.values() for n in ns]
    kind = draw(st.sampled_from(['none', 'model', 'model', 'tag', 'tag', 'number', 'number']))
    n = draw(st.sampled_from(nodes))
    value = None
    if kind == 'model':
        value = draw(st.sampled_from([n.name] * 4 + ['Paragraph', 'Control', 'RecordModel', 'Nonsense', n.name.lower(),
                                                     n.name[:-1] or 'X']))
    elif kind == 'tag':
        value = tagname(draw(st.sampled_from([n.tagid] * 3 + [66, 17, 500])))
    elif kind == 'number':
        value = str(draw(st.sampled_from([n.tagid] * 3 + [66, 67, 16, 200, 13, 1023])))
    return (docs, kind, value, draw(st.booleans()), draw(st.sampled_from(['args', 'stdin', 'stdin without end'])),
            draw(st.sampled_from([None, None, '%(filename)s|%(stream)s|%(seqno)d|%(tagname)s|%(type)s|%(level)d|%(tagid)d'])),
            draw(st.integers(0, 3)) == 0)


def check_find(case, rec):
    docs, kind, value, incomplete, how, fmt, dump = case
    argv = ['find']
    if kind == 'model':
        argv.append('--model=' + value)
    elif kind in ('tag', 'number'):
        argv.append('--tag=' + value)
    if incomplete:
        argv.append('--incomplete')
    if fmt:
        argv.append('--format=' + fmt)
    if dump:
        argv.append('--dump')
    expected, failures, total = [], [], 0
    with gen.workdir() as d:
        for name, doc, compressed in docs:
            write(doc, os.path.join(d, name), compressed)
            found, failed = listed(doc, name, d)
            if failed:
                failures.append(name)
            total += len(found)
            for f, s, i, n in found:
                if kind == 'model' and n.name != value:
                    continue
                if kind == 'tag' and tagname(n.tagid) != value:
                    continue
                if kind == 'number' and n.tagid != int(value):
                    continue
                if incomplete and not n.extra:
                    continue
                expected.append((f, s, i, n))
        names = [n for n, _, _ in docs]
        if how == 'args':
            r = cli.success('hwp5proc', argv + names, cwd=d)
        else:
            text = '\n'.join(names) + ('\n' if how == 'stdin' else '')
            r = cli.success('hwp5proc', argv + ['--from-stdin'], stdin=text.encode('utf-8'), cwd=d)
    rec.label(kind, how, 'broken' if failures else 'sound', 'dump' if dump else 'list')
    rec.nontrivial(0 < len(expected) < total)
    heads = []
    for f, s, i, n in expected:
        if fmt:
            heads.append('%s|%s|%d|%s|%s|%d|%d' % (f, s, i, tagname(n.tagid), n.name, n.level, n.tagid))
        else:
            heads.append('%s %s %d %s %s' % (f, s, i, tagname(n.tagid), n.name))
    if not dump:
        eq(r.text.split('\n')[:-1] if r.text else [], heads, 'records found')
    else:
        blocks(r.text, heads, expected)
    for name in failures:
        ok(name in r.err.decode('utf-8', 'replace'), 'the file that cannot be parsed is not reported: %s', r.err[:300])
    if not failures:
        eq(r.err, b'', 'messages')


def blocks(text, heads, expected):
    '''each record is followed by its model'''
    pos = 0
    for i, head in enumerate(heads):
        ok(text.startswith(head + '\n', pos), 'dump: %.80r at %d, expected %r', text[pos:pos + 80], pos, head)
        pos += len(head) + 1
        obj, pos = json.JSONDecoder().raw_decode(text, pos)
        f, s, no, n = expected[i]
        eq((obj['seqno'], obj['type'], obj['tagid'], obj['level'], obj['size'], 'unparsed' in obj),
           (no, n.name, n.tagid, n.level, len(n.payload()), bool(n.extra)), 'dumped model')
        ok(text[pos] == '\n', 'dump')
        pos += 1
        after = heads[i + 1] if i + 1 < len(heads) else None
        start = pos
        if after is not None:
            k = text.find('\n' + after + '\n', pos - 1)
            ok(k >= 0, 'dump: %r is missing', after)
            pos = k + 1
        eq(logged(text[start:pos if after is not None else len(text)]), values_of(n),
           'dumped values of %s %d' % (n.name, no))


def logged(text):
    '''[(offset, integer or None)] of the values in a dump'''
    out = []
    for line in text.split('\n'):
        if not line.startswith('  '):
            continue
        offset, rest = line.strip().split(': ', 1)
        last = rest.rsplit(' ', 1)[-1]
        out.append((int(offset, 16), int(last) if re.match(r'-?\d+$', last) else None))
    return out


def values_of(node, named=False):
    '''the same, as it was encoded'''
    out = []

    def add(offset, name, value):
        out.append((offset, name or '-', value) if named else (offset, value))

    def walk(x):
        if x.name == 'array' and x.attrs.get('name') == 'chunks':
            add(int(x.kids[0].attrs['offset']) if x.kids else 0, 'chunks', None)
            return
        if x.name == 'item':
            value = x.attrs['value']
            add(int(x.attrs['offset']), x.attrs.get('name'),
                int(value) if x.attrs['type'] not in ('BSTR', 'CHID', 'HexBytes') and
                isinstance(value, str) and re.match(r'-?\d+$', value) else None)
        elif x.name in ('array', 'struct', 'Record'):
            for kid in x.kids:
                walk(kid)
    walk(c14.record(node, 0))
    return out


# ---------------------------------------------------------------- models
@st.composite
def selections(draw):
    doc = draw(documents(broken=False, maxn=14))
    stream = draw(st.sampled_from(sorted(doc[1])))
    n = len(doc[1][stream])
    sub = draw(st.sampled_from(['all', 'all', 'treegroup', 'treegroup', 'seqno', 'seqno']))
    at = draw(st.one_of(st.integers(0, n), st.sampled_from([0, n, n + 100])))
    return (doc, stream, sub, at, draw(st.sampled_from(['json', 'default', 'simple', 'format', 'events'])),
            draw(st.sampled_from(['alias', 'name', 'stdin'])), draw(st.booleans()))


def check_models(case, rec):
    doc, stream, sub, at, form, source, compressed = case
    version, streams, _ = doc
    nodes = streams[stream]
    starts = [i for i, n in enumerate(nodes) if n.level == 0]
    groups = [list(range(a, b)) for a, b in zip(starts, starts[1:] + [len(nodes)])]
    if sub == 'all' or form == 'events':
        chosen = list(range(len(nodes)))
    elif sub == 'treegroup':
        chosen = groups[at] if at < len(groups) else []
    else:
        chosen = [at] if at < len(nodes) else []
    argv = ['models']
    if form in ('json', 'simple', 'events'):
        argv.append('--' + form)
    elif form == 'format':
        argv.append('--format=%(seqno)d\\t%(level)d,%(type)s %(tagname)s\\n')
    if sub != 'all':
        argv += ['--%s=%d' % (sub, at)]
    if source == 'stdin':
        r = cli.success('hwp5proc', argv + ['-V', '%d.%d.%d.%d' % version], stdin=recgen.stream(nodes))
    else:
        name = stream
        if source == 'alias':
            name = 'docinfo' if stream == 'DocInfo' else 'bodytext/' + stream[16:]
        with gen.workdir() as d:
            write(doc, os.path.join(d, 'a.hwp'), compressed)
            r = cli.success('hwp5proc', argv + [os.path.join(d, 'a.hwp'), name])
    rec.label(form, sub, source)
    rec.nontrivial(len(groups) > 1 or len(nodes) > 2)
    text = r.text
    if form == 'simple':
        eq(text.split('\n')[:-1] if text else [],
           ['%04d %s%s' % (i, ' ' * nodes[i].level, nodes[i].name) for i in chosen], 'simple form')
    elif form == 'format':
        eq(text, ''.join('%d\t%d,%s %s\n' % (i, nodes[i].level, nodes[i].name, tagname(nodes[i].tagid))
                         for i in chosen), 'formatted')
    elif form == 'events':
        got = re.findall(r'^     STARTEVENT Record (\d+) level=(\d+) (\S+)$', text, re.M)
        if got or nodes:
            eq([(int(a), int(b), c) for a, b, c in got],
               [(i, n.level, tagname(n.tagid)) for i, n in enumerate(nodes)], 'events of records')
        parts = re.split(r'^     STARTEVENT Record .*\n', text, flags=re.M)[1:]
        for i, (n, part) in enumerate(zip(nodes, parts)):
            part, end = re.split(r'^     ENDEVENT Record .*\n', part, flags=re.M)
            values = []
            for line in part.split('\n'):
                m = re.match(r'([0-9a-f]{4,}) \S+ (\S+) (.*)$', line)
                if m:
                    v = m.group(3)
                    values.append((int(m.group(1), 16), m.group(2), int(v) if re.match(r'-?\d+$', v) else None))
            eq(values, values_of(n, True), 'values of record %d (%s)' % (i, n.name))
            end = end.split('\n')
            eq(int(end[0], 16), len(n.body()), 'end of the values of record %d' % i)
            left = undump([l.split(':', 1)[-1] for l in end[3:] if not l.startswith('---')])
            eq(left, n.extra, 'leftover of record %d' % i)
    else:
        models = json.loads(text)
        eq([m['seqno'] for m in models], chosen, 'records shown')
        for m, i in zip(models, chosen):
            n = nodes[i]
            eq((m['type'], m['level'], m['tagid'], m['tagname'], m['size']),
               (n.name, n.level, n.tagid, tagname(n.tagid), len(n.payload())), 'record %d' % i)
            eq(undump(m['payload']), n.payload(), 'payload of record %d' % i)
            eq(undump(m.get('unparsed', [])), n.extra, 'unparsed rest of record %d' % i)
            eq(sorted(m['content']), sorted(n.content), 'fields of record %d (%s)' % (i, n.name))
            for k, v in n.content.items():
                if isinstance(v, int) and not isinstance(v, bool) and isinstance(m['content'][k], int):
                    eq(m['content'][k], v, '%s of record %d (%s)' % (k, i, n.name))


def undump(lines):
    out = b''
    for l in lines:
        out += bytes.fromhex(''.join(re.findall(r'\b[0-9a-fA-F]{2}\b', l)))
    return out


def tests(tier):
    return [
        Test('find', finds(), check_find, 700, 30000),
        Test('models', selections(), check_models, 900, 30000),
    ]
