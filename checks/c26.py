# -*- coding: utf-8 -*-
import json
import zlib
from io import BytesIO

from hypothesis import strategies as st

from lib import gen
from lib.memstg import MemStream
from lib.runner import Test, eq, ok
from hwp5 import utils, compressed, filestructure

RULE = ('data delivered in at least 2 pieces and read with at least 2 sized reads '
        'that end inside a piece')

SIZES = st.one_of(st.integers(0, 12), st.sampled_from([1, 2, 3, 4096, 65536]),
                  st.none(), st.just(-1))


def drive(f, total, sizes, step=5):
    '''read `total` with the given sizes, then to the end; returns what was read'''
    pos = 0
    empty = total[:0]
    for s in sizes:
        d = f.read() if s is None else f.read(s)
        whole = s is None or s < 0
        if not whole:
            ok(len(d) <= s, 'read(%d) returned %d items at position %d', s, len(d), pos)
        eq(d, total[pos:pos + len(d)], 'data at position %d (read %r)' % (pos, s))
        pos += len(d)
        if whole:
            eq(pos, len(total), 'end after read(%r)' % (s,))
        elif s > 0 and not d:
            eq(pos, len(total), 'premature end: read(%d) returned nothing' % s)
    rest = empty
    while True:
        d = f.read(step)
        ok(len(d) <= step, 'read(%d) returned %d', step, len(d))
        if not d:
            break
        rest += d
    eq(rest, total[pos:], 'rest from position %d' % pos)
    for s in (None, 1, 100):
        eq(f.read() if s is None else f.read(s), empty, 'read(%r) after the end' % (s,))


def note(pieces, sizes, rec):
    rec.nontrivial(len([p for p in pieces if p]) >= 2 and
                   sum(1 for s in sizes if s is not None and s > 0) >= 2)
    if any(not p for p in pieces):
        rec.label('empty piece')
    if any(s is not None and s < 0 for s in sizes):
        rec.label('read(-1)')


def check_bytes(case, rec):
    pieces, sizes = case
    note(pieces, sizes, rec)
    drive(utils.GeneratorReader(iter(pieces)), b''.join(pieces), sizes)


def check_text(case, rec):
    pieces, sizes = case
    note(pieces, sizes, rec)
    drive(utils.GeneratorTextReader(iter(pieces)), ''.join(pieces), sizes)


def check_many(case, rec):
    '''many pieces, or long ones'''
    pieces, n, long, sizes, text = case
    rec.nontrivial()
    pieces = [p * n for p in pieces] if long else pieces * n
    if text:
        drive(utils.GeneratorTextReader(iter(pieces)), ''.join(pieces), sizes, step=70000)
    else:
        pieces = [p.encode('utf-8') for p in pieces]
        drive(utils.GeneratorReader(iter(pieces)), b''.join(pieces), sizes, step=70000)


def check_json(case, rec):
    items, sizes, ind = case
    rec.nontrivial(len(items) >= 2 and len(sizes) >= 2)

    def enc(o, **kw):
        return json.dumps(o, **kw)
    jo = utils.JsonObjects(items, enc)
    whole = ''.join(jo.generate(indent=ind))
    eq(json.loads(whole), items, 'generated JSON')
    drive(utils.JsonObjects(items, enc).open(indent=ind), whole.encode('utf-8'), sizes)
    out = []

    class W(object):
        write = staticmethod(out.append)
    utils.JsonObjects(items, enc).dump(W, indent=ind)
    eq(''.join(out), whole, 'dump()')


def deflate(data, level, cut):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    out = c.compress(data[:cut]) + c.flush(zlib.Z_FULL_FLUSH) + c.compress(data[cut:])
    return out + c.flush()


def check_inflate(case, rec):
    data, level, cut, bufsize, sizes = case
    rec.nontrivial(len(data) > bufsize and len(sizes) >= 2)
    blob = deflate(data, level, cut)
    eq(b''.join(compressed.decompress_gen(BytesIO(blob), bufsize)), data, 'decompress_gen')
    drive(compressed.decompress_experimental(BytesIO(blob), bufsize), data, sizes)
    for limits in ([1, bufsize], [max(1, bufsize - 1), max(1, bufsize // 3)]):
        # from a stream whose reads give less than asked for
        drive(compressed.decompress_experimental(gen.Dribble(blob, limits), bufsize), data, sizes)
    drive(compressed.decompress(BytesIO(blob)), data, sizes)
    dec = compressed.ZLibIncrementalDecoder(wbits=-15)
    for _ in range(2):
        got = b''
        for i in range(0, len(blob), bufsize):
            got += dec.decode(blob[i:i + bufsize])
        got += dec.decode(b'', True)
        eq(got, data, 'ZLibIncrementalDecoder')
        dec.reset()


TEXT = st.text(st.characters(exclude_categories=['Cs']), max_size=40)


def check_preview(case, rec):
    text, rep, sizes = case
    text = text * rep
    rec.nontrivial(len(text) > 10 and len(sizes) >= 1 and any(ord(c) > 0x7ff for c in text))
    prv = filestructure.PreviewText(MemStream(text.encode('utf-16-le')))
    want = text.encode('utf-8')
    eq(prv.get_text(), text, 'get_text()')
    eq(prv.text, text, 'text')
    eq(str(prv), text, 'str()')
    eq(prv.get_utf8(), want, 'get_utf8()')
    f = prv.open_utf8()
    got = b''
    for s in sizes:
        got += f.read(s)
    # a unit that straddles the buffer is at most 4 bytes
    while True:
        d = f.read(64)
        if not d:
            break
        got += d
    eq(got, want, 'transcoded in pieces of %r' % (sizes,))
    f.close()
    f = utils.transcoder('utf-16le', 'utf-8')(BytesIO(text.encode('utf-16-le')))
    eq(f.read(), want, 'transcoder')


def tests(tier):
    sizes = st.lists(SIZES, max_size=10)
    nn = st.lists(st.integers(0, 12), max_size=8)
    js = st.lists(st.one_of(st.integers(), st.text(max_size=5), st.booleans(),
                            st.dictionaries(st.text(max_size=3), st.integers(), max_size=2)),
                  max_size=5)
    return [
        Test('GeneratorReader', st.tuples(st.lists(st.binary(max_size=9), max_size=8), sizes),
             check_bytes, 1600, 60000,
             examples=[([b'abcdef'], [2, 2]), ([b'ab', b'', b'cd'], [1, -1]), ([], [1])]),
        Test('GeneratorTextReader', st.tuples(st.lists(TEXT, max_size=8), sizes),
             check_text, 1200, 40000, examples=[(['abcdef'], [2, 2]), (['ab'], [-1])]),
        Test('many pieces', st.tuples(
            st.lists(st.text(st.characters(exclude_categories=['Cs']), min_size=1, max_size=9),
                     min_size=1, max_size=5),
            st.sampled_from([30000, 1100, 300000]), st.booleans(),
            st.lists(st.one_of(SIZES, st.sampled_from([100000, 1 << 20])), max_size=6), st.booleans()),
             check_many, 40, 600),
        Test('JsonObjects', st.tuples(js, sizes, st.sampled_from([None, 2])), check_json,
             600, 20000),
        Test('inflate', st.tuples(st.one_of(st.binary(max_size=200), gen.payloads()),
                                  st.sampled_from([0, 1, 6, 9]), st.integers(0, 300),
                                  st.sampled_from([1, 7, 64, 4096]), sizes),
             check_inflate, 600, 20000),
        Test('preview', st.tuples(TEXT, st.sampled_from([1, 3, 200, 2000]),
                                  st.lists(st.integers(4, 100), max_size=8)),
             check_preview, 400, 8000),
    ]
