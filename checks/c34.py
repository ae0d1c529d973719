# -*- coding: utf-8 -*-
import math
import random
import struct
from fractions import Fraction
from io import BytesIO

from hypothesis import strategies as st

from lib import gen, layout as L, recgen
from lib.runner import Test, eq, ok, fail
from hwp5 import dataio
from hwp5.dataio import Eof
from .c03 import model_stream, singles

RULE = 'a value with at least one bit set inside and one outside of the examined field'


# ------------------------------------------------ flags of the record models

def walk(t, value, path=''):
    '''(path, L.Flags, decoded object) for every flags field of a struct'''
    if isinstance(t, L.Flags):
        yield path, t, value
    elif isinstance(t, L.Struct):
        for name, ft, _ in t.fields:
            if isinstance(value, dict) and name in value:
                for x in walk(ft, value[name], path + '.' + name):
                    yield x
    elif isinstance(t, (L.Arr, L.NArr, L.XArr)):
        for i, v in enumerate(value):
            for x in walk(t.item, v, '%s[%d]' % (path, i)):
                yield x


def check_enum(v, x, en, table, what):
    eq(int(v), x, what)
    if table is not None:
        if en is None:
            ok(getattr(v, 'name', None) is None, '%s: undefined value %d has the name %r',
               what, x, getattr(v, 'name', None))
        else:
            ok(v.name == en or table.get(v.name) == x, '%s: value %d is named %r, not %r',
               what, x, v.name, en)


def raws(t, rng):
    '''values of a flags field: every bit field with each of its first and last values'''
    top = L.RANGE[t.base][1]
    for lsb, msb, _, enum in t.bits:
        mask = min((1 << (msb - lsb + 1)) - 1, top >> lsb)
        for x in {0, 1, mask, mask - 1 if mask else 0, rng.randint(0, mask)} | set(
                (enum or {}).values()):
            if 0 <= x <= mask:
                yield x << lsb
                yield rng.randint(0, top) & ~(mask << lsb) | x << lsb


def check_models(case, rec):
    (version, nodes), seed = case
    rng = random.Random(seed)
    models = list(model_stream(recgen.stream(nodes), version).models())
    n, m = nodes[-1], models[-1]
    rec.label(n.name)
    for s in n.structs:
        for path, t, value in walk(s, m['content'], n.name):
            raw = int(value)
            rec.nontrivial(raw != 0 and len(t.bits) > 1)
            split = t.split(raw)
            for name, (x, en, table) in split.items():
                check_enum(getattr(value, name), x, en, table, '%s.%s of 0x%x' % (path, name, raw))
            d = type(value).dictvalue(value)
            eq({k: int(v) for k, v in d.items()}, {k: v[0] for k, v in split.items()},
               'bit fields of %s' % path)
            for raw in raws(t, rng):
                other = type(value)(raw)
                for name, (x, en, table) in t.split(raw).items():
                    check_enum(getattr(other, name), x, en, table, '%s.%s of 0x%x' % (path, name, raw))


# ------------------------------------------------ declared flags and enums

NAMES = st.lists(st.text('abcdefghijklmnop_', min_size=1, max_size=6), min_size=1, max_size=8,
                 unique=True).map(lambda l: ['f' + x for x in l])
BASES = {'UINT8': 8, 'UINT16': 16, 'UINT32': 32, 'BYTE': 8, 'WORD': 16}


@st.composite
def declarations(draw):
    base = draw(st.sampled_from(sorted(BASES)))
    width = BASES[base]
    fields = []
    for name in draw(NAMES):
        lsb = draw(st.integers(0, width - 1))
        msb = lsb if draw(st.booleans()) else draw(st.integers(lsb, width - 1))
        enum = None
        if draw(st.integers(0, 2)) == 0:
            items = draw(st.lists(st.sampled_from('PQRSTUV'), max_size=5, unique=True))
            more = draw(st.dictionaries(st.sampled_from(['K1', 'K2', 'K3']),
                                        st.integers(0, 2 ** min(8, msb - lsb + 1) - 1), max_size=3))
            if items or more:
                enum = items, more
        fields.append((name, lsb, msb, draw(st.booleans()), enum))
    values = draw(st.lists(gen.ints(0, 2 ** width - 1), min_size=1, max_size=4))
    return base, fields, values


def check_declared(case, rec):
    base, fields, values = case
    args, tables = [], {}
    for name, lsb, msb, explicit, enum in fields:
        args.append(lsb)
        if msb != lsb or explicit:
            args.append(msb)
        if enum:
            E = dataio.Enum(*enum[0], **enum[1])
            table = {}          # value -> the first name given to it
            for v, k in enumerate(enum[0]):
                table.setdefault(v, k)
            for k, v in enum[1].items():
                table.setdefault(v, k)
            tables[name] = (E, table, dict(list(zip(enum[0], range(9))) + list(enum[1].items())))
            args.append(E)
        args.append(name)
    T = dataio.Flags(getattr(dataio, base), *args)
    for value in values:
        f = T(value)
        eq(int(f), value, 'value of the flags')
        for name, lsb, msb, _, enum in fields:
            mask = (1 << (msb - lsb + 1)) - 1
            x = value >> lsb & mask
            rec.nontrivial(x != 0 and value & ~(mask << lsb))
            got = getattr(f, name)
            eq(int(got), x, 'field %s (%d..%d) of 0x%x' % (name, lsb, msb, value))
            if enum:
                E, table, names = tables[name]
                eq(got.name, table.get(x), 'enum name of %d' % x)
                ok(isinstance(got, E), 'the value is not of the enum type')
                if x in table:
                    ok(got is getattr(E, table[x]), 'enum values are not identical')
        eq({k: int(v) for k, v in f.dictvalue().items()},
           {n: value >> a & ((1 << (b - a + 1)) - 1) for n, a, b, _, _ in fields}, 'dictvalue()')
    for E, table, names in tables.values():
        # lookups (also of undefined values) left the definition as it was
        for k, v in names.items():
            eq(int(getattr(E, k)), v, 'enum item %s' % k)
            ok(E(v) is getattr(E, k), 'E(%d) is not E.%s', v, k)
        eq(set(E.names), set(names), 'enum names')
        eq({int(i) for i in E.instances}, set(names.values()), 'enum instances')
        u = max(names.values()) + 1
        ok(E(u).name is None and int(E(u)) == u, 'undefined enum value')


# ------------------------------------------------ primitives

PRIMS = sorted(set(L.PRIM) - {'color', 'binid'})
PRIMCLS = dict((k, L.PRIMNAME[k]) for k in PRIMS)


def check_primitive(case, rec):
    kind, data = case
    cls = getattr(dataio, {'hwpunit': 'HWPUNIT', 'shwpunit': 'SHWPUNIT', 'hwpunit16': 'HWPUNIT16',
                           'wchar': 'WCHAR'}.get(kind, PRIMCLS[kind]))
    size = L.SIZE[kind]
    eq(cls.fixed_size, size, 'size of ' + kind)
    rec.nontrivial(any(data[:size]))
    f = BytesIO(data)
    if len(data) < size:
        try:
            v = cls.read(f)
        except Eof:
            rec.label('short')
            return
        fail('%s.read() made %r of %d bytes', kind, v, len(data))
    v = cls.read(f)
    eq(f.tell(), size, 'bytes read for ' + kind)
    if kind == 'f64':
        bits = int.from_bytes(data[:8], 'little')
        e, m, s = bits >> 52 & 0x7ff, bits & ((1 << 52) - 1), -1 if bits >> 63 else 1
        if e == 0x7ff:
            ok(math.isnan(v) if m else v == s * math.inf, 'special double %r', v)
        else:
            exp = Fraction(m + ((1 << 52) if e else 0)) * Fraction(2) ** ((e or 1) - 1075) * s
            eq(Fraction(v), exp, 'double value')
    else:
        signed = L.RANGE[kind][0] < 0
        exp = int.from_bytes(data[:size], 'little', signed=signed)
        eq(v, exp, 'value of ' + kind)
        eq(cls.decode(data[:size]), exp, 'decode() of ' + kind)


def check_color(v, rec):
    from hwp5.binmodel import COLORREF
    rec.nontrivial()
    c = COLORREF(struct.unpack('<i', v)[0])
    eq((c.r, c.g, c.b, c.a), tuple(v), 'colour components of %r' % v)
    eq(c.rgb, tuple(v[:3]), 'rgb')
    eq(str(c), '#%02x%02x%02x' % tuple(v[:3]), 'str()')


def check_bstr(case, rec):
    data, extra, cut = case
    s = ''.join(data)
    raw = s.encode('utf-16le')
    blob = struct.pack('<H', len(raw) // 2) + raw
    rec.nontrivial(len(s) > 0)
    f = BytesIO(blob + extra)
    eq(dataio.BSTR.read(f), s, 'BSTR')
    eq(f.read(), extra, 'rest')
    k = cut % len(blob)
    try:
        got = dataio.BSTR.read(BytesIO(blob[:k]))
    except Eof:
        pass
    else:
        fail('BSTR cut to %d of %d bytes gives %r', k, len(blob), got)


def check_arrays(case, rec):
    '''typed reading of composed types'''
    from hwp5.bintype import read_type
    kind, counttype, values, extra = case
    cls = getattr(dataio, L.PRIMNAME[kind])
    raw = b''.join(struct.pack(L.PRIM[kind], v) for v in values)
    rec.nontrivial(len(values) > 1)
    f = BytesIO(raw + extra)
    got = read_type(dataio.ARRAY(cls, len(values)), {}, f)
    eq(got, tuple(values), 'ARRAY')
    eq(f.read(), extra, 'rest after ARRAY')
    f = BytesIO(struct.pack(L.PRIM[counttype], len(values)) + raw + extra)
    got = read_type(dataio.N_ARRAY(getattr(dataio, L.PRIMNAME[counttype]), cls), {}, f)
    eq(got, list(values), 'N_ARRAY')
    eq(f.read(), extra, 'rest after N_ARRAY')


# ------------------------------------------------ units

def check_units(pair, rec):
    a, b = sorted(pair)
    rec.nontrivial(a != b)
    for x in (a, b):
        inch = dataio.hwp2inch(x)
        ok(abs(inch - x / 7200.0) <= 1e-9 * max(1, abs(inch)), 'hwp2inch(%d) = %r', x, inch)
        mm = dataio.hwp2mm(x)
        ok(abs(mm - x * 25.4 / 7200) <= 0.00501 + 1e-9 * abs(mm), 'hwp2mm(%d) = %r', x, mm)
        pt = dataio.hwp2pt(x)
        ok(abs(pt - x / 100.0) <= 0.0501 + 1e-9 * abs(pt), 'hwp2pt(%d) = %r', x, pt)
    ok(dataio.hwp2inch(a) <= dataio.hwp2inch(b), 'hwp2inch is not monotonic')
    ok(dataio.hwp2mm(a) <= dataio.hwp2mm(b), 'hwp2mm is not monotonic')
    ok(dataio.hwp2pt(a) <= dataio.hwp2pt(b), 'hwp2pt is not monotonic')


UNIT = gen.ints(-2 ** 31, 2 ** 32 - 1)
INTPRIMS = [k for k in PRIMS if k != 'f64' and k in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32')]


@st.composite
def array_cases(draw):
    kind = draw(st.sampled_from(INTPRIMS))
    values = draw(st.lists(gen.ints(*L.RANGE[kind]), max_size=9))
    return kind, draw(st.sampled_from(['u8', 'u16', 'u32', 'i16', 'i32'])), values, \
        draw(st.binary(max_size=3))


def tests(tier):
    return [
        Test('record flags', st.tuples(singles(), st.integers(0, 2 ** 32)), check_models, 2400, 80000),
        Test('declared flags', declarations(), check_declared, 1600, 60000),
        Test('primitives', st.tuples(st.sampled_from(PRIMS), st.one_of(
            st.binary(max_size=9), st.binary(min_size=8, max_size=9))), check_primitive,
            2400, 60000),
        Test('colours', st.binary(min_size=4, max_size=4), check_color, 400, 10000),
        Test('strings', st.tuples(st.lists(recgen.CHARS, max_size=12), st.binary(max_size=3),
                                  st.integers(0, 99)), check_bstr, 800, 30000),
        Test('arrays', array_cases(), check_arrays, 800, 30000),
        Test('units', st.one_of(st.tuples(UNIT, UNIT),
                                st.integers(-20000, 20000).map(lambda x: (x, x + 1))),
             check_units, 1600, 60000),
    ]
