# -*- coding: utf-8 -*-
import json
import struct

from hypothesis import strategies as st

from lib import cli, gen, layout as L, recgen
from lib.runner import Test, eq, ok, fail
from hwp5.binmodel import ControlChar, ParaTextChunks
from hwp5.dataio import ParseError
from .c03 import model_stream, plain
from .c05 import jsonable

RULE = 'the text holds a control character next to other characters'

EIGHT = set(range(1, 10)) | {11, 12} | set(range(14, 24))      # 8 code units wide
EXTENDED = {1, 2, 3, 11, 12, 14, 15, 16, 17, 18, 21, 22, 23}


def units_text(units):
    return struct.pack('<%dH' % len(units), *units).decode('utf-16le')


def reference(units):
    '''chunks of a list of UTF-16 code units; ValueError when malformed'''
    out, i, n = [], 0, len(units)
    while i < n:
        u = units[i]
        if u < 0x20:
            w = 8 if u in EIGHT else 1
            if i + w > n:
                raise ValueError('cut off')
            c = {'code': u}
            if w == 8:
                p = struct.pack('<6H', *units[i + 1:i + 7])
                if u == 9:
                    c['param'] = {'width': struct.unpack('<I', p[:4])[0], 'unknown0': p[4],
                                  'unknown1': p[5], 'unknown2': p[6:]}
                else:
                    c['chid'] = p[3::-1].decode('latin1')
                    c['param'] = p[4:]
            out.append(((i, i + w), c))
            i += w
        else:
            j = i
            while j < n and units[j] >= 0x20:
                j += 1
            out.append(((i, j), units_text(units[i:j])))    # UnicodeDecodeError is a ValueError
            i = j
    return out


UNITS = st.one_of(
    st.integers(0, 0x1f), st.integers(0, 0x1f), st.integers(0x20, 0x7e),
    st.sampled_from([0x100, 0x200, 0xa00, 0xd00, 0x1f00, 0x1e00, 0x2000, 0x000b, 0xac00, 0x0900,
                     0xb00, 0x300, 0xffff, 0xfeff, 0x7f, 0x80, 0xa0, 0xf046]),
    st.integers(0x20, 0xd7ff), st.integers(0xe000, 0xffff))


@st.composite
def unit_lists(draw):
    out = []
    for _ in range(draw(st.integers(0, 14))):
        k = draw(st.integers(0, 9))
        if k < 5:
            out += draw(st.lists(UNITS, max_size=8))
        elif k < 8:
            c = draw(st.sampled_from(sorted(EIGHT)))
            out += [c] + draw(st.lists(st.integers(0, 0xffff), min_size=6, max_size=6)) + \
                [draw(st.sampled_from([c, c, 0, 0xffff]))]
        elif k < 9:
            cp = draw(st.integers(0x10000, 0x10ffff))
            out += list(struct.unpack('<2H', chr(cp).encode('utf-16le')))
        else:
            out += [draw(st.integers(0xd800, 0xdfff))]
    return out


def check_tiling(got, n):
    pos = 0
    for (a, b), c in got:
        eq(a, pos, 'start of a chunk')
        ok(b > a, 'empty chunk at %d', a)
        pos = b
    eq(pos, n, 'end of the chunks')


def check_units(units, rec):
    data = struct.pack('<%dH' % len(units), *units)
    try:
        exp = reference(units)
    except ValueError:
        exp = None
    ctl = [u for u in units if u < 0x20]
    rec.nontrivial(len(ctl) and len(ctl) < len(units))
    rec.label('valid' if exp is not None else 'malformed')
    if len(units) == 0:
        eq(list(ParaTextChunks.parse_chunks(data)), [], 'no data')
        return
    blob = L.record_bytes(66, 0, b'\0' * 24) + L.record_bytes(67, 1, data)
    stream = model_stream(blob, (5, 0, 3, 4))
    if exp is None:
        try:
            list(stream.models())
        except ParseError as e:
            eq(e.record['seqno'], 1, 'record of the parse error')
        else:
            fail('malformed text accepted')
        return
    got = plain(list(ParaTextChunks.parse_chunks(data)))
    eq(got, exp, 'chunks')
    check_tiling(got, len(units))
    m = list(stream.models())[1]
    eq(plain(m['content']), {'chunks': exp}, 'model')
    js = json.loads(stream.models_json().open().read().decode('utf-8'))
    eq(js[1]['content']['chunks'], jsonable(exp), 'JSON model')
    for (a, b), c in exp:
        if isinstance(c, dict):
            code = c['code']
            rec.label('0x%02x' % code)
            kind = ControlChar.get_kind_by_code(code)
            eq(kind.size, b - a, 'size of the control character kind')
            eq(kind.__name__, 'EXTENDED' if code in EXTENDED else 'INLINE' if code in EIGHT
               else 'CHAR', 'kind of the control character 0x%02x' % code)


def check_find(case, rec):
    '''ControlChar.find() from any start'''
    units, start = case
    data = struct.pack('<%dH' % len(units), *units)
    start = min(start, len(units))
    rec.nontrivial(any(u < 0x20 for u in units[start:]))
    i = start
    while i < len(units) and units[i] >= 0x20:
        i += 1
    if i < len(units):
        w = 8 if units[i] in EIGHT else 1
        if i + w > len(units):
            return
        exp = (i * 2, (i + w) * 2)
    else:
        exp = (len(data), len(data))
    eq(ControlChar.find(data, start * 2), exp, 'find() from unit %d' % start)


def check_built(case, rec):
    '''text assembled from chunks, through the command line'''
    chunks, flags, view = case
    rec.nontrivial(any(isinstance(c, dict) for _, c in chunks) and
                   any(isinstance(c, str) for _, c in chunks))
    data = b''.join(L.encode_chunk(c) for _, c in chunks)
    blob = L.record_bytes(66, 0, b'\0' * 24) + (L.record_bytes(67, 1, data) if data else b'')
    with gen.workdir() as d:
        path = gen.write_ole(gen.minimal_doc([blob], flags=flags), d + '/a.hwp')
        if view == 'models':
            r = cli.success('hwp5proc', ['models', path, 'bodytext/0'])
        else:
            r = cli.success('hwp5proc', ['cat', '--vstreams', path, 'BodyText/Section0.models'])
        got = json.loads(r.text)
    if data:
        eq(got[1]['content']['chunks'], jsonable(chunks), 'chunks')


def tests(tier):
    return [
        Test('code units', unit_lists(), check_units, 4000, 200000,
             examples=[[c] * 8 for c in sorted(EIGHT)] + [[c] for c in range(32)]),
        Test('find', st.tuples(st.lists(UNITS, max_size=30), st.integers(0, 30)), check_find,
             3000, 100000),
        Test('command line', st.tuples(recgen.chunks(8), st.sampled_from([0, 1]),
                                       st.sampled_from(['models', 'cat'])), check_built, 300, 8000),
    ]
