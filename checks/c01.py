# -*- coding: utf-8 -*-
import struct
from io import BytesIO

from hypothesis import strategies as st

from lib import cli, gen
from lib.runner import Test, eq, ok, Violation
from hwp5 import recordstream
from hwp5.storage import Open2Stream
from hwp5.tagids import tagnames as _tagnames

RULE = ('at least 2 records and (a zero-size, extended-size or unknown-tag record, '
        'or a level above 0)')

TAGS = st.one_of(st.sampled_from(list(range(16, 100))), gen.ints(0, 1023))


@st.composite
def records(draw, maxn=12):
    out = []
    for _ in range(draw(st.integers(0, maxn))):
        out.append((draw(TAGS), draw(st.one_of(st.integers(0, 4), gen.ints(0, 1023))),
                    draw(gen.payloads())))
    return out


def header(t, l, p):
    n = len(p)
    word = t | (l << 10) | (min(n, 0xfff) << 20)
    return struct.pack('<I', word) + (struct.pack('<I', n) if n >= 0xfff else b'')


class Chunky(object):
    '''A raw file whose reads may return fewer bytes only at its end.'''

    def __init__(self, data):
        self.f = BytesIO(data)

    def read(self, n=-1):
        return self.f.read(n)

    def close(self):
        pass


def note(rs, rec):
    rec.nontrivial(len(rs) >= 2 and any(
        not p or len(p) >= 0xfff or l > 0 or not 16 <= t < 100 for t, l, p in rs))
    for t, l, p in rs:
        if not p:
            rec.label('empty payload')
        if len(p) >= 0xfff:
            rec.label('extended size')
        if len(p) == 0xfff:
            rec.label('size 4095')


def compare(actual, rs):
    actual = list(actual)
    eq(len(actual), len(rs), 'number of records')
    for i, (a, (t, l, p)) in enumerate(zip(actual, rs)):
        eq((a['tagid'], a['level'], a['size'], a['seqno']), (t, l, len(p), i),
           'record %d (tag, level, size, seqno)' % i)
        eq(a['payload'], p, 'payload of record %d' % i)
        if t in _tagnames:
            eq(a['tagname'], _tagnames[t], 'tag name')
        ok(a['tagname'].startswith('HWPTAG'), 'tag name %r', a['tagname'])


def check_api(rs, rec):
    note(rs, rec)
    blob = b''.join(header(*r) + r[2] for r in rs)
    compare(recordstream.read_records(BytesIO(blob)), rs)
    stream = recordstream.RecordStream(Open2Stream(lambda: BytesIO(blob)), (5, 0, 3, 4))
    first = list(stream.records())
    compare(first, rs)
    out = BytesIO()
    for r in first:
        recordstream.dump_record(out, r)
    eq(out.getvalue(), blob, 're-encoded stream')
    compare(stream.records(), rs)     # a second reading
    # built through the API
    out = BytesIO()
    for i, (t, l, p) in enumerate(rs):
        r = recordstream.Record(t, l, p, seqno=i)
        eq((r['size'], r['seqno']), (len(p), i), 'Record()')
        recordstream.dump_record(out, r)
    eq(out.getvalue(), blob, 'encoded stream')
    f = BytesIO(blob)
    for t, l, p in rs:
        eq(recordstream.decode_record_header(f), (t, l, len(p)), 'decode_record_header')
        f.read(len(p))
    eq(recordstream.decode_record_header(f), None, 'header at the end')


def check_many(case, rec):
    '''a long stream: a few records again and again'''
    rs, n = case
    if rs:
        rs = (rs * (n // len(rs) + 1))[:n]
    small = [r for r in rs if len(r[2]) < 300] or [(66, 0, b'')]
    rs = [r if i % 1000 == 0 or len(r[2]) < 300 else small[i % len(small)] for i, r in enumerate(rs)]
    rec.label('size %d' % 10 ** len(str(len(rs))))
    check_api(rs, rec)


def check_cli(case, rec):
    rs, flags, stdin, cfbv = case
    note(rs, rec)
    blob = b''.join(header(*r) + r[2] for r in rs)
    rec.label('stdin' if stdin else 'file', 'compressed' if flags & 1 else 'stored')
    with gen.workdir() as d:
        if stdin:
            args, data = ['records'], blob
        else:
            path = gen.write_ole(gen.minimal_doc([blob], b'', flags), d + '/a.hwp', cfbv)
            args, data = ['records', path, 'BodyText/Section0'], b''
            if stdin is None:
                args[2] = 'bodytext/0'
        r = cli.success('hwp5proc', args + ['--raw'], data)
        eq(r.out, blob, 'records --raw')
        r = cli.success('hwp5proc', args + ['--raw-header'], data)
        eq(r.out, b''.join(header(*x) for x in rs), 'records --raw-header')
        r = cli.success('hwp5proc', args + ['--raw-payload'], data)
        eq(r.out, b''.join(x[2] for x in rs), 'records --raw-payload')


ANY = [(66, 0, b''), (67, 1, b'x' * 4095), (1023, 1023, b'y' * 4094), (0, 0, b'')]


def tests(tier):
    return [
        Test('api', records(), check_api, 1500, 60000,
             examples=[[], [(66, 0, b'')], ANY, [(66, 0, b'a' * 70000)]]),
        Test('many records', st.tuples(records(), st.sampled_from([1100, 300, 4100, 66000])),
             check_many, 32, 600, examples=[([(66, 0, b''), (67, 1, b'ab')], 66000)]),
        Test('cli', st.tuples(records(6), st.sampled_from([0, 1]),
                              st.sampled_from([True, False, None]),
                              st.sampled_from([3, 4])), check_cli, 240, 6000,
             examples=[(ANY, 1, False, 3), (ANY, 0, True, 4), (ANY, 0, None, 4)]),
    ]
