# -*- coding: utf-8 -*-
import json
import os

from hypothesis import strategies as st
from lxml import etree

from lib import cli, docgen, encode, gen, propset
from lib.runner import Test, eq, fail, ok
from checks.c20 import blobs, folds, leafs, usable

RULE = 'at least 6 streams in at least 3 storages, or a document with generated streams'

# ---------------------------------------------------------------- containers
PIECES = st.one_of(st.sampled_from('abcXYZ019_. '), st.sampled_from('한글문서漢é'),
                   st.characters(min_codepoint=0x21, max_codepoint=0xd7ff,
                                 exclude_characters='/\\:!\x7f'))
NAMES = st.one_of(
    st.sampled_from(['_LinkDoc', 'DefaultJScript', 'JScriptVersion', 'BIN0001.png', 'BIN0002.OLE',
                     'Section0', 'Section1', '\x05x', 'a.b', 'A', '_']),
    st.text(PIECES, min_size=1, max_size=10)).filter(
        lambda n: usable(n) and n not in ('.', '..') and '_05' not in n and n[0] != '-')


@st.composite
def storages(draw, depth, values=blobs(), names=NAMES, maxn=4):
    out, used = {}, set()
    for n in draw(st.lists(names, max_size=maxn)):
        if folds(n) & used:
            continue
        used |= folds(n)
        if depth and draw(st.integers(0, 3)) == 0:
            out[n] = draw(storages(depth - 1))
        else:
            out[n] = draw(values)
    return out


LAYERED = ('BinData', 'BodyText', 'ViewText', 'Scripts')
KNOWN = LAYERED + ('DocInfo', 'FileHeader', 'PrvText', 'PrvImage', 'DocOptions',
                   '\x05HwpSummaryInformation')

PREFIXES = st.sampled_from(KNOWN).flatmap(lambda n: st.integers(1, len(n) - 1).map(lambda k: n[:k])).filter(
    lambda n: usable(n) and n not in KNOWN)


@st.composite
def containers(draw):
    '''(flags, stored tree, tree of the bytes a reader sees)'''
    flags = draw(st.sampled_from([0, 1, 1, 1, 4, 5, 2, 3, 7]))
    plain = {'DocInfo': draw(blobs()),
             '\x05HwpSummaryInformation': propset.simple(),
             'BodyText': draw(storages(0, names=st.integers(0, 12).map('Section{}'.format)))}
    if draw(st.booleans()):
        plain['PrvText'] = draw(st.text(st.characters(max_codepoint=0xd7ff), max_size=40)) \
            .encode('utf-16le')
        plain['PrvImage'] = draw(blobs())
    for n in ('BinData', 'Scripts'):
        if draw(st.booleans()):
            plain[n] = draw(storages(0))
    for n in ('DocOptions', 'XMLTemplate', 'DocHistory'):
        if draw(st.integers(0, 2)) == 0:
            plain[n] = draw(storages(2))
    if flags & 4:
        plain['ViewText'] = draw(storages(0, names=st.integers(0, 12).map('Section{}'.format)))
    used = set().union(*(folds(n) for n in tuple(plain) + KNOWN))
    for n in draw(st.lists(st.one_of(NAMES, PREFIXES), max_size=4)):
        if not folds(n) & used:
            used |= folds(n)
            plain[n] = draw(st.one_of(blobs(), storages(2)))
    plain['FileHeader'] = gen.fileheader(flags=flags)
    spec = draw(encode.specs())
    seed = draw(st.integers(0, 2 ** 32 - 1))
    head = gen.patterned(252, seed)

    def layers(name, data):
        '''(stored, seen)'''
        stored = seen = data
        if flags & 2:
            return stored, seen
        if flags & 1 and name in LAYERED + ('DocInfo',):
            stored = encode.deflate(data, spec)
        if flags & 4 and name in ('Scripts', 'ViewText'):
            padded = encode.pad16(stored, 0)
            stored = encode.distribute(stored, seed, head, 0)
            if not flags & 1:
                seen = padded
        return stored, seen
    stored, seen = {}, {}
    for n, v in plain.items():
        if n in LAYERED:
            both = {k: layers(n, d) for k, d in v.items()}
            stored[n] = {k: b[0] for k, b in both.items()}
            seen[n] = {k: b[1] for k, b in both.items()}
        elif isinstance(v, dict):
            stored[n] = seen[n] = v
        else:
            stored[n], seen[n] = layers(n, v)
    return flags, stored, seen


def lookup(tree, path):
    for seg in path.split('/'):
        tree = tree[seg]
    return tree


def escaped(path):
    return path.encode('unicode_escape').decode('ascii')


def listing(argv):
    return cli.success('hwp5proc', ['ls'] + argv).text.split('\n')


def filename(path):
    return '/'.join(s.replace('\x05', '_05') for s in path.split('/'))


def read_dir(top):
    files, dirs = {}, set()
    for base, ds, fs in os.walk(top):
        rel = os.path.relpath(base, top)
        for d in ds:
            dirs.add(os.path.normpath(os.path.join(rel, d)))
        for f in fs:
            with open(os.path.join(base, f), 'rb') as g:
                files[os.path.normpath(os.path.join(rel, f))] = g.read()
    return files, dirs


def storage_paths(tree, base=''):
    for n, v in tree.items():
        if isinstance(v, dict):
            yield base + n
            for x in storage_paths(v, base + n + '/'):
                yield x


def refused(argv):
    r = cli.run('hwp5proc', argv)
    ok(r.rc != 0, '%r succeeded', argv)
    eq(r.out, b'', 'output of the failing %r' % (argv,))


def check_container(case, rec):
    (flags, stored, seen), version, layout, bad, existing = case
    paths = sorted(leafs(seen))
    stgs = sorted(storage_paths(seen))
    rec.nontrivial(len(paths) >= 6 and len(stgs) >= 3)
    for bit, name in ((1, 'compressed'), (2, 'password'), (4, 'distribution')):
        if flags & bit:
            rec.label(name)
    from lib import cfb
    from hwp5.storage import open_storage_item
    from hwp5.storage.ole import OleStorage
    from hwp5.xmlmodel import Hwp5File
    with gen.workdir() as d:
        doc = os.path.join(d, 'doc.hwp')
        data = cfb.build(stored, version=version, layout=layout)
        with open(doc, 'wb') as f:
            f.write(data)
        for opts, tree in (([], seen), (['--ole'], stored)):
            eq(sorted(listing(opts + [doc])), sorted([escaped(p) for p in paths] + ['']),
               'ls %s' % opts)
            api = OleStorage(doc) if opts else Hwp5File(doc)
            for p in paths:
                want = lookup(tree, p)
                r = cli.success('hwp5proc', ['cat'] + opts + [doc, p])
                eq(r.out, want, 'cat %s %r (flags %d)' % (opts, p, flags))
                f = open_storage_item(api, p).open()
                eq(f.read(), want, 'API %s %r' % (opts, p))
                f.close()
            api.close()
            for b in bad:
                p = bad_path(b, paths, stgs)
                if p is not None:
                    refused(['cat'] + opts + [doc, p])
                    rec.label('refused')
            out = os.path.join(d, 'out' + ''.join(opts))
            keep = {}
            if existing:
                os.mkdir(out)
                keep = {'kept by unpack': b'kept'}
                with open(os.path.join(out, 'kept by unpack'), 'wb') as f:
                    f.write(b'kept')
                # files left by unpacking an earlier version of the document
                for p in paths[::2]:
                    stale = os.path.join(out, filename(p))
                    os.makedirs(os.path.dirname(stale), exist_ok=True)
                    with open(stale, 'wb') as f:
                        f.write(b'stale' + lookup(tree, p)[::-1] + b'stale')
            argv = [doc, out]
            cli.success('hwp5proc', ['unpack'] + opts + argv)
            files, dirs = read_dir(out)
            want = {filename(p): lookup(tree, p) for p in paths}
            want.update(keep)
            eq(sorted(files), sorted(want), 'unpacked files')
            for p in sorted(want):
                eq(files[p], want[p], 'unpacked %r' % p)
            eq(sorted(dirs), sorted(filename(p) for p in stgs), 'unpacked directories')
            if opts:
                os.mkdir(os.path.join(d, 'cwd'))
                cli.success('hwp5proc', ['unpack', '--ole', doc], cwd=os.path.join(d, 'cwd'))
                eq(read_dir(os.path.join(d, 'cwd', 'doc'))[0],
                   {k: v for k, v in files.items() if k not in keep}, 'default directory')
                eq(os.listdir(os.path.join(d, 'cwd')), ['doc'], 'default directory')
        with open(doc, 'rb') as f:
            ok(f.read() == data, 'the document was changed')


def bad_path(b, paths, stgs):
    kind, n = b
    if kind == 'storage':
        return stgs[n % len(stgs)]
    if kind == 'below a stream':
        return paths[n % len(paths)] + '/x'
    if kind == 'missing':
        p = 'no such stream'
    elif kind == 'missing in storage':
        p = stgs[n % len(stgs)] + '/no such stream'
    elif kind == 'longer':
        p = paths[n % len(paths)] + '~'
    elif kind == 'shorter':
        p = paths[n % len(paths)][:-1]
    elif kind == 'generated':
        p = sorted(p for p in paths)[n % len(paths)] + '.records'
    elif kind == 'empty':
        p = ''
    if p.lower() in {q.lower() for q in paths} or p.startswith('-'):
        return None
    return p


BAD = st.lists(st.tuples(st.sampled_from(
    ['storage', 'below a stream', 'missing', 'missing in storage', 'longer', 'shorter',
     'generated', 'empty']), st.integers(0, 20)), max_size=3)


# ---------------------------------------------------------- generated streams
def virtual_names(tree):
    out = ['FileHeader.txt', '\x05HwpSummaryInformation.txt']
    for ext in ('models', 'records', 'xml'):
        out.append('DocInfo.' + ext)
        for stg in ('BodyText', 'ViewText'):
            out += ['%s/%s.%s' % (stg, n, ext) for n in tree.get(stg, ())]
    out += [n + '.xml' for n in ('BodyText', 'ViewText') if n in tree]
    if 'PrvText' in tree:
        out.append('PrvText.utf8')
    return out


def check_virtual(case, rec):
    doc, text, view, extra, others, seed = case
    rec.nontrivial()
    tree = doc.tree()
    seen = {k: v for k, v in tree.items()}
    plain = {'DocInfo': doc.docinfo_bytes()}
    for no in doc.sections:
        plain['BodyText/Section%d' % no] = doc.section_bytes(no)
    for n, b in doc.bindata.items():
        plain['BinData/' + n] = b
    if text is not None:
        tree['PrvText'] = text.encode('utf-16le')
    tree['DocOptions'] = extra
    tree.update(others)
    if view and doc.flags & 1:
        rec.label('distribution')
        tree['FileHeader'] = gen.fileheader(doc.version, doc.flags | 4)
        tree['ViewText'] = {}
        for no in doc.sections:
            b = doc.section_bytes(no)
            plain['ViewText/Section%d' % no] = b
            tree['ViewText']['Section%d' % no] = encode.distribute(
                doc.deflate(b), seed, gen.patterned(252, seed), 0)
    from hwp5.storage import ExtraItemStorage, open_storage_item
    from hwp5.xmlmodel import Hwp5File
    with gen.workdir() as d:
        path = gen.write_ole(tree, os.path.join(d, 'v.hwp'))
        real, extras = sorted(leafs(tree)), virtual_names(tree)
        eq(sorted(listing(['--vstreams', path])),
           sorted([escaped(p) for p in real + extras] + ['']), 'ls --vstreams')
        api = ExtraItemStorage(Hwp5File(path))
        plainapi = Hwp5File(path)
        got = {}
        for p in real + extras:
            got[p] = cli.success('hwp5proc', ['cat', '--vstreams', path, p]).out
            f = open_storage_item(api, p).open()
            data = f.read()
            if isinstance(data, str):
                data = data.encode('utf-8')
            eq(got[p], data, 'cat --vstreams %r' % p)
        for p in real:
            want = plain.get(p, None)
            if want is None:
                want = lookup(tree, p)
            eq(got[p], want, 'cat --vstreams %r' % p)
            eq(open_storage_item(plainapi, p).open().read(), want, 'API %r' % p)
        for p in extras:
            if p.startswith('ViewText') or p.startswith('BodyText/'):
                continue
            refused(['cat', path, p])
        if text is not None:
            eq(got['PrvText.utf8'], text.encode('utf-8'), 'PrvText.utf8')
        eq(got['FileHeader.txt'], cli.success('hwp5proc', ['header', path]).out.rstrip(b'\n') + b'\n',
           'FileHeader.txt')
        for p in extras:
            base, ext = p.rsplit('.', 1)
            if ext == 'xml':
                etree.fromstring(got[p], etree.XMLParser(huge_tree=True))
            elif ext == 'records':
                recs = json.loads(got[p])
                want = records_of(plain[base])
                eq([(r['tagid'], r['level'], r['size'], payload(r)) for r in recs], want, p)
            elif ext == 'models':
                eq(len(json.loads(got[p])), len(records_of(plain[base])), 'models of ' + p)
        cli.success('hwp5proc', ['unpack', '--vstreams', path, os.path.join(d, 'out')])
        files, dirs = read_dir(os.path.join(d, 'out'))
        eq(sorted(files), sorted(filename(p) for p in real + extras), 'unpack --vstreams')
        for p in real + extras:
            eq(files[filename(p)], got[p], 'unpack --vstreams %r' % p)


def check_huge(case, rec):
    '''streams with far more data than usual'''
    huge, name, flags = case
    rec.nontrivial()
    rec.label(name)
    data = gen.repeated(huge)
    tree = gen.minimal_doc([b''], b'', flags)
    stored = encode.deflate(data) if flags & 1 and name.split('/')[0] in LAYERED + ('DocInfo',) else data
    at, segs = tree, name.split('/')
    for s in segs[:-1]:
        at = at.setdefault(s, {})
    at[segs[-1]] = stored
    with gen.workdir() as d:
        path = gen.write_ole(tree, d + '/a.hwp')
        got = cli.success('hwp5proc', ['cat', path, name]).out
        ok(got == data, 'cat: %d bytes instead of %d', len(got), len(data))
        cli.success('hwp5proc', ['unpack', path, d + '/out'])
        with open(os.path.join(d, 'out', *segs), 'rb') as f:
            got = f.read()
        ok(got == data, 'unpack: %d bytes instead of %d', len(got), len(data))


def payload(record):
    return b''.join(bytes.fromhex(''.join(l[l.index(':') + 1:].split()) if ':' in l
                                  else ''.join(l.split()))
                    for l in record['payload'])


def records_of(data):
    out, pos = [], 0
    while pos < len(data):
        h = int.from_bytes(data[pos:pos + 4], 'little')
        pos += 4
        size = h >> 20
        if size == 0xfff:
            size = int.from_bytes(data[pos:pos + 4], 'little')
            pos += 4
        out.append((h & 0x3ff, h >> 10 & 0x3ff, size, data[pos:pos + size]))
        pos += size
    return out


def tests(tier):
    text = st.text(st.characters(exclude_categories=['Cs']), max_size=40)
    return [
        Test('container', st.tuples(containers(), st.sampled_from([3, 3, 4]),
                                    st.one_of(st.none(), st.integers(0, 999)), BAD, st.booleans()),
             check_container, 600, 10000),
        Test('virtual', st.tuples(
            docgen.docs(mode='sane', maxparas=5, images=2)
            | docgen.docs(mode='sane', maxparas=4, maxsections=5, images=1, numbers='prefix'),
                                  st.one_of(st.none(), text), st.booleans(), storages(1), storages(1, names=PREFIXES, maxn=2),
                                  st.integers(0, 2 ** 32 - 1)),
             check_virtual, 300, 5000),
        Test('huge streams', st.tuples(gen.hugedata(), st.sampled_from(
            ['BinData/BIN0001.png', 'PrvImage', 'DocInfo', 'DocOptions/_LinkDoc', 'BodyText/Section0']),
            st.integers(0, 1)), check_huge, 16, 200),
    ]
