# -*- coding: utf-8 -*-
'''Minimal OLE2 / Compound File Binary writer (MS-CFB), independent of the code
under test.  A storage is a dict name -> dict | bytes.'''
import random
import struct

FREESECT, ENDOFCHAIN, FATSECT, DIFSECT = 0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffffc
NOSTREAM = 0xffffffff


def _cfb_upper(name):
    out = []
    for ch in name:
        u = ch.upper()
        out.append(u if len(u) == 1 else ch)
    return ''.join(out)


def sortkey(name):
    u = _cfb_upper(name).encode('utf-16-be')
    return (len(u), u)


class _Entry(object):
    def __init__(self, name, typ, data=b''):
        self.name, self.typ, self.data = name, typ, data
        self.left = self.right = self.child = NOSTREAM
        self.start, self.size = 0, 0
        self.clsid = b'\0' * 16


def build(tree, version=3, clsid=None, layout=None):
    '''returns the bytes of a compound file.

    Streams shorter than 4096 bytes always go to the mini stream, as the format
    demands.  `layout` is a seed: sectors and mini sectors are then scattered,
    with unused ones in between, directory entries numbered in any order and the
    directory trees built with arbitrary shapes.
    '''
    ssz = 512 if version == 3 else 4096
    cutoff, msz = 4096, 64
    per = ssz // 4
    rnd = None if layout is None else random.Random(layout)
    entries = [_Entry('Root Entry', 5)]
    if clsid:
        entries[0].clsid = clsid
    pending = []       # (storage dict, its entry)

    def flat(stg, parent):
        kids = []
        for n in sorted(stg, key=sortkey):
            v = stg[n]
            e = _Entry(n, 1 if isinstance(v, dict) else 2,
                       b'' if isinstance(v, dict) else bytes(v))
            entries.append(e)
            kids.append(e)
        pending.append((kids, parent))
        for e in kids:
            if e.typ == 1:
                flat(stg[e.name], e)
    flat(tree, entries[0])
    if rnd:
        rest = entries[1:]
        rnd.shuffle(rest)
        for k in range(rnd.choice((0, 0, 1, 5))):       # unused entries
            rest.insert(rnd.randrange(len(rest) + 1), None)
        entries[1:] = rest
    number = {id(e): k for k, e in enumerate(entries) if e is not None}

    def tree_of(lst):
        if not lst:
            return NOSTREAM
        m = rnd.randrange(len(lst)) if rnd and len(lst) < 200 else len(lst) // 2
        lst[m].left = tree_of(lst[:m])
        lst[m].right = tree_of(lst[m + 1:])
        return number[id(lst[m])]
    for kids, parent in pending:
        parent.child = tree_of(kids)

    sectors = []       # list of bytes(ssz)
    fat = []

    def alloc(data):
        n = (len(data) + ssz - 1) // ssz
        if n == 0:
            return ENDOFCHAIN
        start = len(sectors)
        for k in range(n):
            sectors.append(data[k * ssz:(k + 1) * ssz].ljust(ssz, b'\0'))
            fat.append(start + k + 1 if k + 1 < n else ENDOFCHAIN)
        return start

    def scatter(chain, blocks, holes, size):
        '''returns (new chain, new blocks, old number -> new number)'''
        total = len(chain) + holes
        where = list(range(total))
        rnd.shuffle(where)
        where = where[:len(chain)]
        newchain = [FREESECT] * total
        newblocks = [b'\xee' * size] * total
        for k, (c, b) in enumerate(zip(chain, blocks)):
            newchain[where[k]] = where[c] if c < 0xfffffff0 else c
            newblocks[where[k]] = b
        return newchain, newblocks, where

    streams = [e for e in entries if e is not None and e.typ == 2]
    mini, minifat = [], []
    for e in streams:
        e.size = len(e.data)
        if e.size == 0:
            e.start = ENDOFCHAIN
        elif e.size < cutoff:
            n = (e.size + msz - 1) // msz
            e.start = len(minifat)
            for k in range(n):
                minifat.append(e.start + k + 1 if k + 1 < n else ENDOFCHAIN)
                mini.append(e.data[k * msz:(k + 1) * msz].ljust(msz, b'\0'))
        else:
            e.start = alloc(e.data)
    if rnd and mini:
        minifat, mini, where = scatter(minifat, mini, rnd.choice((0, 0, 1, 9)), msz)
        for e in streams:
            if 0 < e.size < cutoff:
                e.start = where[e.start]
    ministream = b''.join(mini)
    root = entries[0]
    root.size = len(ministream)
    root.start = alloc(ministream)
    mf = b''.join(struct.pack('<I', x) for x in minifat)
    if mf:
        mf += struct.pack('<I', FREESECT) * ((-len(mf)) % ssz // 4)
    minifat_start = alloc(mf)
    n_minifat = len(mf) // ssz
    n_dir = (len(entries) * 128 + ssz - 1) // ssz
    dir_start = alloc(b'\0' * (n_dir * ssz))
    if rnd:
        fat, sectors, where = scatter(fat, sectors, rnd.choice((0, 0, 1, 6)), ssz)
        where = dict(enumerate(where))
        for e in streams:
            if e.size >= cutoff:
                e.start = where[e.start]
        root.start = where.get(root.start, root.start)
        minifat_start = where.get(minifat_start, minifat_start)
        dir_start = where[dir_start]

    empty = (b'\0' * 64 + struct.pack('<HBBIII', 0, 0, 0, NOSTREAM, NOSTREAM, NOSTREAM)
             + b'\0' * 48)
    empty = empty.ljust(128, b'\0')

    def enc(e):
        if e is None:
            return empty
        nm = e.name.encode('utf-16-le')
        assert len(nm) <= 62, e.name
        return (nm.ljust(64, b'\0')
                + struct.pack('<HBBIII', len(nm) + 2, e.typ, 1, e.left, e.right, e.child)
                + e.clsid + struct.pack('<IQQI', 0, 0, 0, e.start) + struct.pack('<Q', e.size))
    d = b''.join(enc(e) for e in entries)
    while len(d) % ssz:
        d += empty
    at = dir_start
    for k in range(n_dir):
        sectors[at] = d[k * ssz:(k + 1) * ssz]
        at = fat[at]
    # FAT and DIFAT sectors
    nfat = ndif = 0
    while True:
        need = (len(fat) + nfat + ndif + per - 1) // per
        needdif = max(0, (need - 109 + per - 2) // (per - 1))
        if need <= nfat and needdif <= ndif:
            break
        nfat, ndif = max(nfat, need), max(ndif, needdif)
    fat_ids = list(range(len(sectors), len(sectors) + nfat))
    dif_ids = list(range(len(sectors) + nfat, len(sectors) + nfat + ndif))
    fat += [FATSECT] * nfat + [DIFSECT] * ndif
    fatbytes = b''.join(struct.pack('<I', x) for x in fat)
    fatbytes += struct.pack('<I', FREESECT) * ((nfat * ssz - len(fatbytes)) // 4)
    for k in range(nfat):
        sectors.append(fatbytes[k * ssz:(k + 1) * ssz])
    for k in range(ndif):
        part = fat_ids[109 + k * (per - 1):109 + (k + 1) * (per - 1)]
        part += [FREESECT] * (per - 1 - len(part))
        part.append(dif_ids[k + 1] if k + 1 < ndif else ENDOFCHAIN)
        sectors.append(b''.join(struct.pack('<I', x) for x in part))
    hdr = (b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 16
           + struct.pack('<HHHHH', 0x3e, version, 0xfffe, 9 if version == 3 else 12, 6)
           + b'\0' * 6
           + struct.pack('<IIII', 0 if version == 3 else n_dir, nfat, dir_start, 0)
           + struct.pack('<IIIII', cutoff, minifat_start, n_minifat,
                         dif_ids[0] if ndif else ENDOFCHAIN, ndif))
    hdr += b''.join(struct.pack('<I', x) for x in
                    (fat_ids[:109] + [FREESECT] * (109 - min(109, nfat))))
    assert len(hdr) == 512
    hdr = hdr.ljust(ssz, b'\0')
    return hdr + b''.join(sectors)
