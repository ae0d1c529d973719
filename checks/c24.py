# -*- coding: utf-8 -*-
import hashlib
import io
import json
import os
import tempfile

from hypothesis import strategies as st

from lib import cli, confine, docgen, encode, gen
from lib.memstg import MemStorage
from lib.runner import Test, eq, fail, ok

RULE = 'protected data of at least 32 bytes with a seed that is not 0'

SEEDS = st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(0, 2 ** 32 - 1), st.integers(0, 40),
                  st.sampled_from([0xf, 0x10, 0x7fffffff, 0x80000000, 0xffffffff]))
PLAINS = st.one_of(
    st.binary(min_size=252, max_size=252),
    st.integers(0, 999).map(lambda s: gen.patterned(252, s)))


@st.composite
def heads(draw):
    '''(seed, plain head, password or None)'''
    seed, plain, password = draw(SEEDS), draw(PLAINS), None
    if draw(st.booleans()):
        password = draw(st.text(max_size=12))
        try:
            plain = encode.password_head(password, plain)(seed)
        except UnicodeEncodeError:
            password = None
    return seed, plain, password


DATA = st.one_of(st.binary(max_size=100), st.builds(gen.patterned, st.one_of(
    st.integers(0, 300), st.sampled_from([4095, 4096, 4097, 8192, 65536, 100000])),
    st.integers(0, 3)))

CIPHER_ENDS = st.one_of(
    st.binary(min_size=16, max_size=16),
    st.builds(lambda b, c: b[:15 - c % 15] + bytes([[0, 0, 32, 10, 13, 26, 255, 16, 1][c % 9]]) * (1 + c % 15),
              st.binary(min_size=16, max_size=16), st.integers(0, 134)),
    st.just(b'\0' * 32))


def label(seed, password, data, rec):
    if len(data) >= 32 and seed:
        rec.nontrivial()
    rec.label('offset %d' % (seed % 16))
    rec.label('password' if password is not None else 'arbitrary head')


def engines():
    from hwp5 import plat
    return [('cryptography', plat.get_aes128ecb_decrypt_cryptography),
            ('openssl', plat.get_aes128ecb_decrypt_openssl)]


class Stream(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


def check_stream(case, rec):
    (seed, plain, password), data, pad, order, cipher_end = case
    if cipher_end is not None:
        # the encrypted text ends with (or consists of) the given bytes
        key = encode.sha1_of(seed, plain)[:16]
        data = encode.pad16(data, pad) + encode.aes_decrypt(key, cipher_end)
        rec.label('chosen end of the encrypted text')
    label(seed, password, data, rec)
    from hwp5 import distdoc
    from hwp5.filestructure import Hwp5DistDocStream
    blob = encode.distribute(data, seed, plain, pad)
    padded = encode.pad16(data, pad)
    sha1 = encode.sha1_of(seed, plain)
    s = Hwp5DistDocStream(Stream(blob), (5, 0, 3, 4))
    views = {
        'open': lambda: (s.open().read(), padded),
        'decode': lambda: (distdoc.decode(io.BytesIO(blob)).read(), padded),
        'head': lambda: (s.head(), blob[4:260]),
        'head_stream': lambda: (s.head_stream().read(), blob[4:260]),
        'head_sha1': lambda: (bytes(s.head_sha1()), sha1),
        'head_key': lambda: (bytes(s.head_key()), sha1[:16]),
        'tail': lambda: (s.tail(), blob[260:]),
        'tail_stream': lambda: (s.tail_stream().read(), blob[260:]),
        'tail_decrypted': lambda: (s.tail_decrypted(), padded),
        'head_record': lambda: (dict((k, s.head_record()[k]) for k in (
            'tagid', 'level', 'size', 'payload')), dict(
                tagid=28, level=0, size=256, payload=blob[4:260])),
        'head_record_stream': lambda: (json.loads(s.head_record_stream().read())['size'], 256),
    }
    for n in order:
        name = sorted(views)[n % len(views)]
        got, want = views[name]()
        rec.label(name)
        ok(got == want, '%s: %.200r instead of %.200r (seed %#x)', name, got, want, seed)
    if password is not None:
        eq(bytes(s.head_sha1()).decode('utf-16le').lower(),
           hashlib.sha1(password.encode('utf-16le')).hexdigest(), 'SHA-1 of the password')


def check_huge(case, rec):
    huge, (seed, plain, password), pad = case
    rec.nontrivial()
    from hwp5 import distdoc
    data = gen.repeated(huge)
    got = distdoc.decode(io.BytesIO(encode.distribute(data, seed, plain, pad))).read()
    ok(got == encode.pad16(data, pad), '%d bytes instead of %d', len(got), len(data))


def check_engines(case, rec):
    '''also against an encryption that uses no library'''
    key, data = case
    data = encode.pad16(data, 0)
    if len(data) >= 32:
        rec.nontrivial()
    enc = encode.pure_aes_encrypt(key, data)
    for name, get in engines():
        ok(get()(key, enc) == data, 'AES-128-ECB of %s, key %r', name, key)
        ok(get()(bytearray(key), enc) == data, 'AES-128-ECB of %s, bytearray key', name)


FAKE = '''#!/bin/sh
case "$1" in version) echo OpenSSL 3.0; exit 0;; esac
while [ "$1" != -in ]; do shift; done
%s
'''
FAULTS = {'exit': 'exit 1', 'all': 'cat "$2"; exit 1', 'half': 'head -c 16 "$2"; exit 2', 'killed': 'kill -9 $$',
          'half killed': 'head -c 32 "$2"; kill -15 $$'}


def with_openssl(key, enc, fault, d):
    from hwp5 import plat
    tempfile.tempdir = os.path.join(d, 'tmp')
    os.mkdir(tempfile.tempdir)
    if fault:
        os.mkdir(os.path.join(d, 'bin'))
        path = os.path.join(d, 'bin', 'openssl')
        with open(path, 'w') as f:
            f.write(FAKE % FAULTS[fault])
        os.chmod(path, 0o755)
        os.environ['PATH'] = os.path.join(d, 'bin') + os.pathsep + os.environ['PATH']
    try:
        got = plat.get_aes128ecb_decrypt_openssl()(key, enc)
    except Exception as e:
        got = 'failed', type(e).__name__
    return got, os.listdir(tempfile.tempdir)


def check_openssl(case, rec):
    '''streams larger than a pipe, and a program that fails'''
    key, data, times, fault = case
    data = encode.pad16(data, 0) or b'\1' * 16
    enc = encode.pure_aes_encrypt(key, data) * times
    with confine.scratch() as d:
        how, value = confine.run(with_openssl, key, enc, fault, d, timeout=45)
    eq(how, 'ok', 'AES-128-ECB of openssl, %d bytes: %r' % (len(enc), value))
    got, left = value
    eq(left, [], 'temporary files')
    if fault:
        eq(got[0], 'failed', 'an openssl that fails (%s) gives %d bytes; failed' % (fault, len(got)))
    else:
        ok(got == data * times, 'AES-128-ECB of openssl: %d bytes instead of %d', len(got), len(data) * times)
    rec.label(fault or ('large' if len(enc) > 65536 else 'small'))
    rec.nontrivial(fault or len(enc) > 65536)


def protected(doc, dummy, heads, compressed, specs):
    '''(tree of the distribution document, tree of the same document without protection)'''
    flags = 1 if compressed else 0
    if not compressed:
        for no in doc.sections:
            n = doc.sections[no][0].records()
            n = list(n)[0]
            n.extra = b'\0' * (-len(doc.section_bytes(no)) % 16)
    plain = docgen.Doc(doc.version, flags, doc.docinfo, doc.sections, doc.bindata, doc.mode,
                       doc.order).tree()
    tree = dict(plain)
    tree['FileHeader'] = gen.fileheader(doc.version, flags | 4)
    view = {}
    for i, no in enumerate(doc.sections):
        seed, head, _ = heads[i % len(heads)]
        data = doc.section_bytes(no)
        if compressed:
            data = encode.deflate(data, specs[i % len(specs)])
        view['Section%d' % no] = encode.distribute(data, seed, head, i + 1)
    tree['ViewText'] = view
    tree['BodyText'] = {'Section0': dummy.deflate(dummy.section_bytes(0))}
    return tree, plain


def outputs(hwp5file, which):
    from checks import c23
    out = {}
    text = hwp5file.text
    out['indexes'] = list(text.section_indexes())
    for i in text.section_indexes():
        s = text.section(i)
        out['Section%d records' % i] = [(r['tagid'], r['level'], r['size'], bytes(r['payload']))
                                        for r in s.records()]
        out['Section%d models' % i] = s.models_json().open().read()
    f = io.BytesIO()
    hwp5file.xmlevents().dump(f)
    out['xml'] = f.getvalue()
    if which == 'flat':
        from hwp5.xmldump_flat import xmldump_flat
        f = io.BytesIO()
        xmldump_flat(hwp5file, f)
        data = f.getvalue()
        out[which] = data[data.index(b'</FileHeader>'):]
    for kind, cls, m in c23.CONVERSIONS:
        if which == kind:
            if kind not in c23._T:
                T = getattr(__import__('hwp5.hwp5' + cls[0], fromlist=['x']), cls[1])()
                if kind == 'odt':
                    T.relaxng_compile = None
                c23._T[kind] = T
            f = io.BytesIO()
            getattr(c23._T[kind], m)(hwp5file, f)
            out[which] = f.getvalue()
    return out


def check_docs(case, rec):
    doc, dummy, heads, compressed, specs, which = case
    rec.label(which)
    rec.label('compressed' if compressed else 'not compressed')
    tree, plain = protected(doc, dummy, heads, compressed, specs)
    label(heads[0][0], heads[0][2], doc.section_bytes(list(doc.sections)[0]), rec)
    from hwp5 import xmlmodel
    a = outputs(xmlmodel.Hwp5File(MemStorage(tree)), which)
    b = outputs(xmlmodel.Hwp5File(MemStorage(plain)), which)
    eq(a['indexes'], sorted(doc.sections), 'sections')
    for n in sorted(b):
        if a.get(n) != b[n]:
            fail('%s of the distribution document: %.300r instead of %.300r', n, a.get(n), b[n])


def check_scripts(case, rec):
    '''scripts are protected in the same way'''
    (seed, plain, password), data, pad, compressed, spec = case
    label(seed, password, data, rec)
    from hwp5.filestructure import Hwp5File
    inner = encode.deflate(data, spec) if compressed else data
    blob = encode.distribute(inner, seed, plain, pad)
    tree = {'FileHeader': gen.fileheader(flags=4 | compressed), 'DocInfo': b'',
            'BodyText': {'Section0': b''}, 'ViewText': {'Section0': blob},
            'Scripts': {'DefaultJScript': blob}}
    f = Hwp5File(MemStorage(tree))
    want = data if compressed else encode.pad16(data, pad)
    for path in ('Scripts', 'DefaultJScript'), ('ViewText', 'Section0'):
        got = f[path[0]][path[1]].open().read()
        ok(got == want, '%s: %.100r instead of %.100r', '/'.join(path), got, want)


def check_cli(case, rec):
    doc, dummy, heads, compressed, specs = case
    tree, plain = protected(doc, dummy, heads, compressed, specs)
    label(heads[0][0], heads[0][2], doc.section_bytes(list(doc.sections)[0]), rec)
    with gen.workdir() as d:
        path = gen.write_ole(tree, d + '/a.hwp')
        for i, no in enumerate(doc.sections):
            name = 'ViewText/Section%d' % no
            eq(cli.success('hwp5proc', ['cat', path, name]).out, doc.section_bytes(no), name)
            raw = cli.success('hwp5proc', ['cat', '--ole', path, name]).out
            eq(raw, tree['ViewText']['Section%d' % no], name + ' as stored')
            seed, head, password = heads[i % len(heads)]
            out = cli.success('hwp5proc', ['diststream'], raw).out
            if compressed:
                out = cli.success('hwp5proc', ['rawunz'], out).out
                eq(out, doc.section_bytes(no), 'decoded, decompressed stream')
            else:
                eq(out, doc.section_bytes(no), 'decoded stream')
            key = encode.sha1_of(seed, head)[:16]
            eq(cli.success('hwp5proc', ['diststream', '--key'], raw).out,
               key.hex().encode(), 'key')
            eq(cli.success('hwp5proc', ['diststream', '--key', '--raw'], raw).out, key, 'raw key')
            if password is not None:
                h = hashlib.sha1(password.encode('utf-16le'))
                eq(cli.success('hwp5proc', ['diststream', '--sha1'], raw).out,
                   h.hexdigest().encode(), 'SHA-1')
                eq(cli.success('hwp5proc', ['diststream', '--sha1', '--raw'], raw).out,
                   h.digest(), 'raw SHA-1')
        gen.write_ole(plain, d + '/b.hwp')
        for argv in (['hwp5txt'], ['hwp5html', '--html'], ['hwp5proc', 'xml']):
            eq(cli.success(argv[0], argv[1:] + [path]).out,
               cli.success(argv[0], argv[1:] + [d + '/b.hwp']).out, ' '.join(argv))


REFUSED = ['other tag', 'short head', 'long head', 'cut']


def check_refused(case, rec):
    """a stream without the head record is refused, nothing is made up from it"""
    (seed, plain, password), data, how, tag, n = case
    rec.label(how)
    rec.nontrivial()
    blob = encode.distribute(data, seed, plain, 0)
    word = int.from_bytes(blob[:4], 'little')
    size = word >> 20
    ok(size == 256 and word & 0x3ff == 28, 'head record of the generator')
    head, tail = blob[4:260], blob[260:]

    def with_head(tagid, payload):
        return (len(payload) << 20 | tagid).to_bytes(4, 'little') + payload + tail
    if how == 'other tag':
        bad = with_head(tag if tag != 28 else 27, head)
    elif how == 'short head':
        bad = with_head(28, head[:n])
    elif how == 'long head':
        bad = with_head(28, head + bytes(1 + n))
    else:
        bad = blob[:4 + n]
    from hwp5 import distdoc
    try:
        out = distdoc.decode(io.BytesIO(bad)).read()
    except Exception as e:
        rec.label(type(e).__name__)
    else:
        fail('%s: decoded to %.100r', how, out)
    r = cli.run('hwp5proc', ['diststream'], bad)
    ok(r.rc != 0, '%s: diststream succeeds: %.100r', how, r.out)
    eq(r.out, b'', 'output of the failed command')


def tests(tier):
    docs = docgen.docs(mode='sane', maxparas=5, maxsections=3)
    dummies = docgen.docs(mode='sane', maxparas=2, maxsections=1)
    hs = st.lists(heads(), min_size=1, max_size=2)
    specs = st.lists(encode.specs(), min_size=1, max_size=2)
    return [
        Test('streams', st.tuples(heads(), DATA, st.integers(0, 3), st.lists(
            st.integers(0, 10), min_size=3, max_size=8), st.one_of(st.none(), CIPHER_ENDS)),
             check_stream, 800, 30000),
        Test('huge streams', st.tuples(gen.hugedata(), heads(), st.integers(0, 3)), check_huge, 24, 300),
        Test('engines', st.tuples(st.binary(min_size=16, max_size=16), st.binary(max_size=70)),
             check_engines, 60, 2000),
        Test('openssl', st.tuples(st.binary(min_size=16, max_size=16), st.binary(min_size=1, max_size=70), st.one_of(
            st.integers(1, 20), st.sampled_from([4095, 4096, 4097, 70000])), st.sampled_from(
                [None, None] + sorted(FAULTS))), check_openssl, 60, 2000),
        Test('documents', st.tuples(docs, dummies, hs, st.booleans(), specs, st.sampled_from(
            ['models', 'flat', 'txt', 'html', 'odt'])), check_docs, 300, 12000),
        Test('scripts', st.tuples(heads(), DATA, st.integers(0, 3), st.integers(0, 1),
                                  encode.specs()), check_scripts, 300, 10000),
        Test('refused', st.tuples(heads(), DATA, st.sampled_from(REFUSED), st.integers(0, 1023),
                                  st.integers(0, 255)), check_refused, 40, 2000),
        Test('command line', st.tuples(docs, dummies, hs, st.booleans(), specs), check_cli,
             100, 5000),
    ]
