# -*- coding: utf-8 -*-
'''Small shared strategies.'''
import io
import os
import tempfile

from hypothesis import strategies as st

from . import cfb, env, layout, propset


def ints(lo, hi):
    '''integers with boundary values preferred'''
    edge = sorted({lo, hi, min(max(0, lo), hi), min(max(1, lo), hi), min(max(-1, lo), hi),
                   (lo + hi) // 2, (lo + hi) // 2 + 1})
    return st.one_of(st.integers(lo, hi), st.sampled_from(edge))


def patterned(n, seed):
    '''n deterministic bytes'''
    import random
    return random.Random(seed).randbytes(n)


def hugedata():
    '''(size, unit): far more data than an ordinary document has; see repeated()'''
    return st.tuples(st.one_of(st.sampled_from([0x1000001, 0x2000001, 0x400000]),
                               st.integers(0x100000, 0x2800001)),
                     st.one_of(st.just(b'\0'), st.binary(min_size=1, max_size=300)))


def repeated(huge):
    size, unit = huge
    return (unit * (size // len(unit) + 1))[:size]


SIZES = st.one_of(
    st.integers(0, 40), st.integers(0, 40),
    st.sampled_from([0, 1, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 5000]))


@st.composite
def payloads(draw, big=True):
    if draw(st.integers(0, 9)) < 7 or not big:
        return draw(st.binary(max_size=60))
    return patterned(draw(st.one_of(
        st.sampled_from([4093, 4094, 4095, 4096, 4097, 8192, 65535, 65536]),
        st.integers(60, 9000))), draw(st.integers(0, 3)))


def fileheader(version=(5, 0, 3, 4), flags=0, reserved=b'\0' * 216):
    import struct
    return (b'HWP Document File' + b'\0' * 15 + bytes(reversed(version))
            + struct.pack('<I', flags) + reserved)


def records_blob(records):
    return b''.join(layout.record_bytes(t, l, p) for t, l, p in records)


def write_ole(tree, path, version=3):
    with open(path, 'wb') as f:
        f.write(cfb.build(tree, version=version))
    return path


class workdir(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='case-')
        return self.path

    def __exit__(self, *a):
        import shutil
        assert 'case-' in self.path
        shutil.rmtree(self.path, ignore_errors=True)


def minimal_doc(bodies, docinfo=b'', flags=0, version=(5, 0, 3, 4)):
    '''an OLE tree with the given section streams; compressed when flags say so'''
    import zlib
    def z(b):
        if flags & 1:
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            return c.compress(b) + c.flush()
        return b
    return {'FileHeader': fileheader(version, flags), 'DocInfo': z(docinfo),
            '\x05HwpSummaryInformation': propset.simple(),
            'BodyText': {'Section%d' % i: z(b) for i, b in enumerate(bodies)}}


class Dribble(object):
    '''a stream whose reads give less than asked for'''

    def __init__(self, data, limits):
        self.f, self.limits, self.n = io.BytesIO(data), limits, 0

    def read(self, size=-1):
        if size < 0:
            return self.f.read()
        self.n += 1
        return self.f.read(min(size, self.limits[self.n % len(self.limits)]))
