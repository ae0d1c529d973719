# -*- coding: utf-8 -*-
import codecs
import io
import zlib
from io import BytesIO

from hypothesis import strategies as st

from lib import cli, gen
from lib.runner import Test, eq, ok
from hwp5 import zlib_raw_codec as z

RULE = 'at least 20 bytes of data fed or read in at least 3 pieces'

DATA = st.one_of(
    st.binary(max_size=300),
    st.builds(lambda n, s: gen.patterned(n, s), st.one_of(
        st.integers(0, 30000), st.sampled_from([8190, 8191, 8196, 8197, 16392, 40000])),
        st.integers(0, 5)),
    st.builds(lambda b, n: b * n, st.binary(min_size=1, max_size=9),
              st.sampled_from([1, 100, 2000, 20000])))


def raw(data, level=6, cuts=()):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    out, last = b'', 0
    for x in sorted(cuts):
        x = min(x, len(data))
        out += c.compress(data[last:x]) + c.flush(zlib.Z_SYNC_FLUSH)
        last = x
    return out + c.compress(data[last:]) + c.flush()


def inflate(blob):
    d = zlib.decompressobj(-15)
    out = d.decompress(blob) + d.flush()
    return out, d.eof, d.unused_data


def pieces(data, cuts):
    out, last = [], 0
    for x in sorted(min(c, len(data)) for c in cuts):
        out.append(data[last:x])
        last = x
    out.append(data[last:])
    return out


def inflates_to(blob, data, what):
    try:
        got, eof, unused = inflate(blob)
    except zlib.error as e:
        ok(False, '%s: not raw deflate: %s', what, e)
    eq(got, data, '%s: decoded by the reference' % what)
    return eof, unused


def check_oneshot(case, rec):
    data, level, cuts = case
    rec.nontrivial(len(data) >= 20)
    enc, n = z.zlib_raw_encode(data)
    eq(n, len(data), 'consumed by encode')
    inflates_to(enc, data, 'zlib_raw_encode')
    eq(z.zlib_raw_decode(enc), (data, len(enc)), 'decode(encode())')
    blob = raw(data, level, cuts)
    eq(z.zlib_raw_decode(blob), (data, len(blob)), 'zlib_raw_decode')
    c = z.Codec()
    eq(c.decode(c.encode(data)[0])[0], data, 'Codec')
    eq(z._codecinfo.decode(z._codecinfo.encode(data)[0])[0], data, 'CodecInfo')


def check_encoder(case, rec):
    data, cuts, how, again, cuts2 = case
    ps = pieces(data, cuts)
    rec.nontrivial(len(data) >= 20 and len(ps) >= 3)
    rec.label('final ' + how)
    e = z.IncrementalEncoder()

    def feed(ps, data, what):
        out = b''
        for p in ps[:-1]:
            out += e.encode(p)
        if how == 'with data':
            out += e.encode(ps[-1], True)
        else:
            out += e.encode(ps[-1]) + e.encode(b'', True)
        eof, unused = inflates_to(out, data, what)
        ok(unused == b'', '%s: trailing bytes %r', what, unused)
        d = z.IncrementalDecoder()
        eq(d.decode(out, True), data, what + ' decoded')
        eq(z.zlib_raw_decode(out)[0], data, what + ' decoded by zlib_raw_decode')

    feed(ps, data, 'IncrementalEncoder')
    e.reset()
    feed(pieces(again, cuts2), again, 'IncrementalEncoder after reset()')
    # abandoned half way
    e.reset()
    e.encode(data)
    e.reset()
    feed(pieces(again, cuts2), again, 'IncrementalEncoder reset half way')


def check_decoder(case, rec):
    data, level, flushes, cuts, how = case
    blob = raw(data, level, flushes)
    cuts = [c % (len(blob) + 1) for c in cuts]
    ps = pieces(blob, cuts)
    rec.nontrivial(len(data) >= 20 and len(ps) >= 3)
    d = z.IncrementalDecoder()
    for round in range(3):
        out = b''
        for p in ps[:-1]:
            out += d.decode(p)
        if how == 'with data':
            out += d.decode(ps[-1], True)
        else:
            out += d.decode(ps[-1]) + d.decode(b'', True)
        eq(out, data, 'IncrementalDecoder, use %d' % round)
        d.reset()
        if round == 1:
            d.decode(blob[:len(blob) // 2])
            d.reset()


def check_dribble(case, rec):
    (data, level, flushes, sizes), limits = case
    rec.label('reads of a few bytes' if max(limits) < 100 else 'short reads')
    check_reader((data, level, flushes, sizes), rec, lambda blob: gen.Dribble(blob, limits))


def check_reader(case, rec, stream=BytesIO):
    data, level, flushes, sizes = case
    blob = raw(data, level, flushes)
    rec.nontrivial(len(data) >= 20 and len(sizes) >= 3)
    if len(blob) > 8196:
        rec.label('several buffers')
    r = z.StreamReader(stream(blob))
    pos = 0
    eq(r.tell(), 0, 'tell')
    for s in sizes:
        d = r.read() if s is None else r.read(s)
        if s is None or s < 0:
            eq(d, data[pos:], 'read(%r) at %d of %d' % (s, pos, len(data)))
        else:
            eq(d, data[pos:pos + s], 'read(%d) at %d of %d' % (s, pos, len(data)))
        pos += len(d)
        eq(r.tell(), pos, 'tell')
    got = b''
    while True:
        d = r.read(4096)
        if not d:
            break
        got += d
    eq(got, data[pos:], 'rest from %d' % pos)
    eq(r.read(10), b'', 'after the end')


def check_huge(case, rec):
    huge, level, n = case
    rec.nontrivial()
    data = gen.repeated(huge)
    blob = raw(data, level)
    same = []
    same.append(z.zlib_raw_decode(blob)[0])
    same.append(z.zlib_raw_decode(z.zlib_raw_encode(data)[0])[0])
    d = z.IncrementalDecoder()
    same.append(b''.join([d.decode(blob[i:i + n]) for i in range(0, len(blob), n)]) + d.decode(b'', True))
    e = z.IncrementalEncoder()
    same.append(inflate(b''.join([e.encode(data[i:i + 100 * n]) for i in range(0, len(data), 100 * n)])
                        + e.encode(b'', True))[0])
    same.append(z.StreamReader(BytesIO(blob)).read())
    r = z.StreamReader(BytesIO(blob))
    same.append(r.read(5) + r.read(len(data) - 9) + r.read(len(data)))
    for i, got in enumerate(same):
        ok(got == data, 'way %d: %d bytes instead of %d', i, len(got), len(data))


def check_rawunz(case, rec):
    data, level, flushes = case
    rec.nontrivial(len(data) >= 20)
    r = cli.success('hwp5proc', ['rawunz'], raw(data, level, flushes))
    eq(r.out, data, 'rawunz')


def tests(tier):
    cuts = st.lists(st.integers(0, 30000), max_size=5)
    scuts = st.lists(st.one_of(st.integers(0, 40), st.integers(0, 30000)), max_size=6)
    level = st.sampled_from([0, 1, 6, 9])
    how = st.sampled_from(['with data', 'empty'])
    sizes = st.lists(st.one_of(st.integers(0, 30), st.sampled_from([4096, 8196, 16384, 65536]),
                               st.none(), st.just(-1)), max_size=7)
    big = bytes(gen.patterned(40000, 1))
    return [
        Test('oneshot', st.tuples(DATA, level, cuts), check_oneshot, 500, 20000,
             examples=[(b'', 6, []), (big, 0, [])]),
        Test('encoder', st.tuples(DATA, scuts, how, DATA, scuts), check_encoder, 600, 20000,
             examples=[(b'', [], 'empty', b'', []), (b'abc', [1], 'empty', b'def', []),
                       (big, [9000, 20000], 'with data', big[:100], [0])]),
        Test('decoder', st.tuples(DATA, level, cuts, scuts, how), check_decoder, 600, 20000),
        Test('reader', st.tuples(DATA, level, cuts, sizes), check_reader, 700, 30000,
             examples=[(big, 6, [], [16384]), (big, 0, [], [10, 20000, None]), (b'', 6, [], [1])]),
        Test('reader of short reads', st.tuples(st.tuples(DATA, level, cuts, sizes), st.lists(
            st.sampled_from([1, 2, 7, 100, 4096, 8195]), min_size=1, max_size=3)),
            check_dribble, 300, 10000),
        Test('huge data', st.tuples(gen.hugedata(), st.sampled_from([6, 1, 9, 0]),
                                    st.sampled_from([4096, 100, 65536])), check_huge, 16, 200),
        Test('rawunz', st.tuples(DATA, level, cuts), check_rawunz, 200, 4000,
             examples=[(big, 6, [])]),
    ]
