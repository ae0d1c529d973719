# -*- coding: utf-8 -*-
'''[MS-OLEPS] property set streams, written from the specification.'''
import struct
from uuid import UUID

HWP_CLSID = UUID('9fa2b660-1061-11d4-b4c6-006097c09d8c')

I2, I4, BOOL, UI2, UI4, LPSTR, LPWSTR, FILETIME = 2, 3, 0xb, 0x12, 0x13, 0x1e, 0x1f, 0x40


def typed(vt, value):
    head = struct.pack('<HH', vt, 0)
    if vt == I4:
        return head + struct.pack('<i', value)
    if vt == UI4:
        return head + struct.pack('<I', value)
    if vt == I2:
        return head + struct.pack('<hH', value, 0)
    if vt == UI2:
        return head + struct.pack('<HH', value, 0)
    if vt == BOOL:
        return head + struct.pack('<HH', 0xffff if value else 0, 0)
    if vt == LPWSTR:
        data = (value + '\0').encode('utf-16le', 'surrogatepass')
        body = struct.pack('<I', len(data) // 2) + data
        return head + body + b'\0' * (-len(body) % 4)
    if vt == LPSTR:
        data = value + b'\0'
        body = struct.pack('<I', len(data)) + data
        return head + body + b'\0' * (-len(body) % 4)
    if vt == FILETIME:
        return head + struct.pack('<Q', value)
    raise ValueError(vt)


def dictionary(entries):
    out = struct.pack('<I', len(entries))
    for id, name in entries:
        data = name.encode('latin1') + b'\0'
        out += struct.pack('<II', id, len(data)) + data
    return out + b'\0' * (-len(out) % 4)


def propset(props, start=None, order=None):
    '''props: list of (id, bytes); order: permutation of the storage order.
    returns (bytes, {id: offset})'''
    n = len(props)
    pos = 8 + 8 * n
    offsets = [0] * n
    body = b''
    for i in (order if order is not None else range(n)):
        offsets[i] = pos + len(body)
        body += props[i][1]
    table = b''.join(struct.pack('<II', props[i][0], offsets[i]) for i in range(n))
    return (struct.pack('<II', pos + len(body), n) + table + body,
            {props[i][0]: offsets[i] for i in range(n)})


def stream(sets, clsid=HWP_CLSID, version=0, sysid=0x00020006, gap=0):
    '''sets: list of (fmtid, bytes) -> (stream bytes, [offset])'''
    head = struct.pack('<HHI', 0xfffe, version, sysid) + clsid.bytes_le
    head += struct.pack('<I', len(sets))
    pos = len(head) + 20 * len(sets)
    out, offsets = b'', []
    for fmtid, data in sets:
        out += b'\0' * gap
        offsets.append(pos + len(out))
        out += data
    table = b''.join(f.bytes_le + struct.pack('<I', o)
                     for (f, d), o in zip(sets, offsets))
    return head + table + out, offsets


def simple(**kw):
    '''a complete HWP summary information stream'''
    props = [
        (2, typed(LPWSTR, kw.get('title', 'T'))), (3, typed(LPWSTR, kw.get('subject', ''))),
        (4, typed(LPWSTR, kw.get('author', 'A'))), (0x14, typed(LPWSTR, 'date')),
        (5, typed(LPWSTR, '')), (6, typed(LPWSTR, '')), (8, typed(LPWSTR, 'B')),
        (9, typed(LPWSTR, '5, 0, 3, 4')), (0xc, typed(FILETIME, 129000000000000000)),
        (0xd, typed(FILETIME, 129000000000000000)), (0xb, typed(FILETIME, 0)),
        (0xe, typed(I4, 1)), (0x15, typed(I4, 2)),
        (0, dictionary([(0x14, 'HWPPIDSI_DATE_STR'), (0x15, 'HWPPIDSI_PARACOUNT')])),
    ]
    return stream([(HWP_CLSID, propset(props)[0])])[0]
