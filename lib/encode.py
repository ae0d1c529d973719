# -*- coding: utf-8 -*-
'''Encoders of streams: raw deflate in many forms, and distribution documents.'''
import hashlib
import struct
import zlib

from hypothesis import strategies as st

from . import layout


# ---------------------------------------------------------------- deflate
def stored(data, size):
    '''stored blocks of at most size bytes'''
    out, i = b'', 0
    while True:
        b = data[i:i + size]
        i += len(b)
        last = i >= len(data)
        out += struct.pack('<BHH', last, len(b), len(b) ^ 0xffff) + b
        if last:
            return out


def deflate(data, spec=None):
    spec = spec or {}
    if spec.get('stored'):
        return stored(data, spec['stored'])
    c = zlib.compressobj(spec.get('level', 6), zlib.DEFLATED, -spec.get('wbits', 15),
                         spec.get('mem', 8), spec.get('strategy', 0))
    out, last = b'', 0
    for cut, flush in sorted(spec.get('cuts', ())):
        cut = min(cut, len(data))
        out += c.compress(data[last:cut]) + c.flush(flush)
        last = cut
    return out + c.compress(data[last:]) + c.flush()


def specs():
    flush = st.sampled_from([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_BLOCK])
    cuts = st.lists(st.tuples(st.one_of(st.integers(0, 40), st.integers(0, 10000)), flush),
                    max_size=4)
    return st.one_of(
        st.just({}),
        st.fixed_dictionaries({'stored': st.sampled_from([1, 7, 100, 4091, 65535])}),
        st.fixed_dictionaries({
            'level': st.integers(0, 9), 'wbits': st.integers(9, 15), 'mem': st.integers(1, 9),
            'strategy': st.integers(0, 4), 'cuts': cuts}))


def looks_deflated(data):
    '''whether the bytes happen to be decodable as raw deflate'''
    d = zlib.decompressobj(-15)
    try:
        d.decompress(data)
        d.flush()
    except zlib.error:
        return False
    return d.eof


# ---------------------------------------------------------------- distribution
def keystream(seed):
    '''256 bytes: runs of one byte of the C run-time library's rand()'''
    def rand():
        s[0] = (s[0] * 0x343fd + 0x269ec3) % 2 ** 32
        return s[0] // 65536 % 32768
    s, out = [seed], []
    while len(out) < 256:
        b = rand() % 256
        out += [b] * (rand() % 16 + 1)
    return bytes(out[:256])


def head(seed, plain):
    '''the 256 bytes of the head record: plain (252 bytes) follows the seed'''
    k = keystream(seed)
    return struct.pack('<I', seed) + bytes(a ^ b for a, b in zip(plain, k[4:]))


def sha1_of(seed, plain):
    return plain[seed % 16:seed % 16 + 80]


def password_head(password, filler):
    '''the plain head: UTF-16 hexadecimal SHA-1 at the place the seed chooses'''
    digest = hashlib.sha1(password.encode('utf-16le')).hexdigest().upper().encode('utf-16le')
    assert len(digest) == 80

    def make(seed):
        p = bytearray(filler)
        p[seed % 16:seed % 16 + 80] = digest
        return bytes(p)
    return make


def pad16(data, how):
    n = -len(data) % 16
    return data + (b'\0' * n if how == 0 else bytes((i * 37 + how) % 256 for i in range(n)))


def aes_encrypt(key, data):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    e = Cipher(algorithms.AES(key), modes.ECB()).encryptor()
    return e.update(data) + e.finalize()


def aes_decrypt(key, data):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    e = Cipher(algorithms.AES(key), modes.ECB()).decryptor()
    return e.update(data) + e.finalize()


DISTRIBUTE_DOC_DATA = 0x10 + 12


def distribute(data, seed, plain, pad=0):
    '''the stream of a distribution document that holds data'''
    key = sha1_of(seed, plain)[:16]
    return (layout.record_bytes(DISTRIBUTE_DOC_DATA, 0, head(seed, plain))
            + aes_encrypt(key, pad16(data, pad)))


# ---------------------------------------------------------------- AES, from FIPS 197
def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def _sbox():
    inv = [0] * 256
    for a in range(1, 256):
        if not inv[a]:
            for b in range(1, 256):
                if _gmul(a, b) == 1:
                    inv[a], inv[b] = b, a
                    break
    out = []
    for a in inv:
        x = 0x63
        for i in range(5):
            x ^= (a << i | a >> 8 - i) & 0xff
        out.append(x)
    return out


_S = []


def pure_aes_encrypt(key, data):
    '''slow and independent of any library'''
    if not _S:
        _S.extend(_sbox())
    S = _S
    w = [list(key[i:i + 4]) for i in range(0, 16, 4)]
    rcon = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [S[x] for x in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = _gmul(rcon, 2)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    rk = [sum(w[4 * r:4 * r + 4], []) for r in range(11)]
    out = bytearray()
    for o in range(0, len(data), 16):
        s = [a ^ b for a, b in zip(data[o:o + 16], rk[0])]
        for r in range(1, 11):
            s = [S[x] for x in s]
            s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r < 10:
                t = []
                for c in range(0, 16, 4):
                    a = s[c:c + 4]
                    t += [_gmul(a[i], 2) ^ _gmul(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^
                          a[(i + 3) % 4] for i in range(4)]
                s = t
            s = [a ^ b for a, b in zip(s, rk[r])]
        out += bytes(s)
    return bytes(out)
