# -*- coding: utf-8 -*-
import json
from io import BytesIO

from hypothesis import strategies as st

from lib import cli, gen
from lib.runner import Test, eq, ok
from hwp5 import recordstream
from hwp5.storage import Open2Stream
from hwp5.tagids import tagnames
from .c01 import header

RULE = 'a stream of at least 3 tree groups or 5 records with nested levels'


@st.composite
def streams(draw, maxn=14, first_level=True):
    n = draw(st.integers(0, maxn))
    out, level = [], 0
    for i in range(n):
        if i == 0:
            level = draw(st.sampled_from([0, 0, 0, 1, 2])) if first_level else 0
        else:
            level = draw(st.one_of(st.just(0), st.integers(0, min(level + 1, 6))))
        out.append((draw(st.sampled_from([16, 66, 67, 68, 71, 72, 77, 500])), level,
                    draw(st.binary(max_size=20))))
    return out


def split_groups(rs):
    '''[(seqno, record)] divided in front of every level-0 record'''
    groups = []
    for i, r in enumerate(rs):
        if i == 0 or r[1] == 0:
            groups.append([])
        groups[-1].append((i, r))
    return groups


def plain(records):
    return [(r['seqno'], (r['tagid'], r['level'], r['payload'])) for r in records]


def note(rs, rec):
    g = split_groups(rs)
    rec.nontrivial(len(g) >= 3 or (len(rs) >= 5 and any(r[1] for r in rs)))


def check_api(case, rec):
    rs, lo, hi, n, take = case
    note(rs, rec)
    blob = b''.join(header(*r) + r[2] for r in rs)
    stream = recordstream.RecordStream(Open2Stream(lambda: BytesIO(blob)), (5, 0, 3, 4))
    every = list(enumerate(rs))
    groups = split_groups(rs)
    eq(plain(stream.records(range=(lo, hi))), every[lo:hi], 'records(range=(%d, %d))' % (lo, hi))
    r = stream.record(n)
    eq(r and plain([r]), every[n:n + 1] or None, 'record(%d)' % n)
    eq(plain(stream.records(treegroup=n)), groups[n] if n < len(groups) else [],
       'records(treegroup=%d)' % n)
    eq(plain(stream.records_treegroup(n) or []), groups[n] if n < len(groups) else [],
       'records_treegroup(%d)' % n)
    eq([plain(g) for g in stream.records_treegrouped()], groups, 'list groups')
    eq([plain(g) for g in stream.records_treegrouped(group_as_list=False)], groups, 'lazy groups')
    # lazily, only partly consumed groups
    got = []
    for i, g in enumerate(stream.records_treegrouped(group_as_list=False)):
        if i > len(groups):
            break
        k = take[i % len(take)]
        part = []
        while len(part) < k:
            r = next(g, None)
            if r is None:
                break
            part.append(r)
        got.append(plain(part))
    want = [g[:take[i % len(take)]] for i, g in enumerate(groups)]
    eq(got, want, 'partly consumed lazy groups (take %r)' % (take,))
    rec.label('beyond end' if n >= len(groups) else 'inside')
    data = json.loads(stream.records_json(treegroup=n).open().read().decode('utf-8'))
    eq([d['seqno'] for d in data], [i for i, _ in (groups[n] if n < len(groups) else [])],
       'records_json(treegroup=%d)' % n)


def check_many(case, rec):
    '''a long stream: a few records again and again, selected at any place'''
    rs, size, places = case
    if rs:
        rs = (rs * (size // len(rs) + 1))[:size]
    rec.label('size %d' % 10 ** len(str(len(rs))))
    note(rs, rec)
    blob = b''.join(header(*r) + r[2] for r in rs)
    stream = recordstream.RecordStream(Open2Stream(lambda: BytesIO(blob)), (5, 0, 3, 4))
    every = list(enumerate(rs))
    groups = split_groups(rs)
    for at, length in places:
        lo, g = int(at * len(rs)), int(at * len(groups))
        hi = lo + length
        eq(plain(stream.records(range=(lo, hi))), every[lo:hi], 'records(range=(%d, %d))' % (lo, hi))
        r = stream.record(lo)
        eq(r and plain([r]), every[lo:lo + 1] or None, 'record(%d)' % lo)
        want = groups[g] if g < len(groups) else []
        eq(plain(stream.records(treegroup=g)), want, 'records(treegroup=%d)' % g)
        eq(plain(stream.records_treegroup(g) or []), want, 'records_treegroup(%d)' % g)
    eq([plain(g) for g in stream.records_treegrouped()], groups, 'list groups')
    eq([plain(g) for g in stream.records_treegrouped(group_as_list=False)], groups, 'lazy groups')


OPS = ['json', 'records', 'range', 'record', 'treegroup', 'treegrouped', 'start', 'step', 'bytes']


def check_history(case, rec):
    '''whatever was read from a stream object before, or is still being read'''
    rs, ops = case
    note(rs, rec)
    blob = b''.join(header(*r) + r[2] for r in rs)
    stream = recordstream.RecordStream(Open2Stream(lambda: BytesIO(blob)), (5, 0, 3, 4))
    every = list(enumerate(rs))
    groups = split_groups(rs)
    live = []
    for op, n in ops:
        rec.label(op)
        if op == 'json':
            data = json.loads(stream.records_json().open().read().decode('utf-8'))
            eq([(d['seqno'], (d['tagid'], d['level'], hexbytes(d['payload']))) for d in data], every,
               'records_json()')
        elif op == 'records':
            eq(plain(stream.records()), every, 'records()')
        elif op == 'range':
            eq(plain(stream.records(range=(n, n + 3))), every[n:n + 3], 'records(range)')
        elif op == 'record':
            r = stream.record(n)
            eq(r and plain([r]), every[n:n + 1] or None, 'record(%d)' % n)
        elif op == 'treegroup':
            eq(plain(stream.records_treegroup(n) or []), groups[n] if n < len(groups) else [],
               'records_treegroup(%d)' % n)
        elif op == 'treegrouped':
            eq([plain(g) for g in stream.records_treegrouped()], groups, 'list groups')
        elif op == 'bytes':
            eq(stream.open().read(), blob, 'bytes of the stream')
        elif op == 'start':
            live.append([iter(stream.records()), 0])
        elif live:
            it = live[n % len(live)]
            r = next(it[0], None)
            eq(r and plain([r]), every[it[1]:it[1] + 1] or None, 'next record of an earlier listing')
            it[1] += 1


def hexbytes(lines):
    '''payload from the dumpbytes lines of the JSON listing'''
    out = b''
    for l in lines:
        out += bytes.fromhex(l.replace(' ', ''))
    return out


def check_cli(case, rec):
    rs, how, lo, hi, stdin = case
    note(rs, rec)
    blob = b''.join(header(*r) + r[2] for r in rs)
    every = list(enumerate(rs))
    groups = split_groups(rs)
    if how == 'range':
        opt, want = ['--range', '%d-%d' % (lo, hi)], every[lo:hi]
    elif how == 'one':
        opt, want = ['--range', '%d' % lo], every[lo:lo + 1]
    elif how == 'treegroup':
        opt, want = ['--treegroup', '%d' % lo], groups[lo] if lo < len(groups) else []
    else:
        opt, want = [], every
    rec.label(how, 'empty selection' if not want else 'selection')
    with gen.workdir() as d:
        if stdin:
            args, data = ['records'], blob
        else:
            args, data = ['records', gen.write_ole(gen.minimal_doc([blob, b''], b'', 1),
                                                   d + '/a.hwp'), 'BodyText/Section0'], b''
        args += opt
        r = cli.success('hwp5proc', args + ['--raw'], data)
        eq(r.out, b''.join(header(*x) + x[2] for _, x in want), 'records --raw %s' % opt)
        r = cli.success('hwp5proc', args + ['--simple'], data)
        lines = r.text.splitlines()
        eq(len(lines), len(want), 'lines of records --simple %s' % opt)
        for line, (i, (t, l, p)) in zip(lines, want):
            words = line.split()
            eq(int(words[0]), i, 'seqno in --simple %s' % opt)
            eq(words[1], tagnames.get(t, words[1]), 'tag name in --simple')
            eq(len(line) - len(line[4:].lstrip()) - 4, 2 + 2 * l, 'indent of ' + repr(line))
        for o in ([], ['--json']):
            r = cli.success('hwp5proc', args + o, data)
            js = json.loads(r.text)
            eq([(x['seqno'], x['tagid'], x['level'], x['size']) for x in js],
               [(i, t, l, len(p)) for i, (t, l, p) in want], 'records %s %s' % (o, opt))
            for x, (i, (t, l, p)) in zip(js, want):
                eq(hexbytes(x['payload']), p, 'payload in JSON')


def tests(tier):
    n = st.integers(0, 16)
    return [
        Test('api', st.tuples(streams(), n, n, n, st.lists(st.integers(0, 4), min_size=1,
                                                           max_size=4)), check_api, 1500, 60000,
             examples=[([], 0, 1, 0, [0]), ([(66, 0, b'')] * 3, 0, 9, 2, [0]),
                       ([(66, 0, b''), (67, 1, b'')] * 3, 1, 3, 1, [1])]),
        Test('many records', st.tuples(
            streams(), st.sampled_from([1100, 300, 4100, 66000]),
            st.lists(st.tuples(st.floats(0, 1.01), st.sampled_from([0, 1, 5, 300, 70000])), min_size=1,
                     max_size=4)), check_many, 32, 600, examples=[
                ([(66, 0, b'')], 66000, [(0.0, 66000), (0.5, 1), (0.999, 5)]),
                ([(66, 0, b'')] + [(67, 1, b'a')] * 4999, 15000, [(0.5, 9)])]),
        Test('histories', st.tuples(streams(), st.lists(st.tuples(st.sampled_from(OPS), n),
                                                        min_size=1, max_size=12)),
             check_history, 800, 30000),
        Test('cli', st.tuples(streams(10), st.sampled_from(['range', 'one', 'treegroup', 'all']),
                              st.integers(0, 12), st.integers(0, 12), st.booleans()),
             check_cli, 320, 8000,
             examples=[([(66, 0, b'a')], 'treegroup', 5, 0, False), ([], 'all', 0, 0, True)]),
    ]
