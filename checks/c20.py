# -*- coding: utf-8 -*-
import os
import warnings
from io import BytesIO

from hypothesis import strategies as st

from lib import cfb, gen
from lib.runner import Test, eq, ok, fail
from hwp5.storage import is_storage, is_stream, iter_storage_leafs, open_storage_item
from hwp5.storage.ole import OleStorage
from hwp5.plat import olefileio, gir_gsf

warnings.filterwarnings('ignore', message='.*imported without specifying a version.*')

RULE = ('a container with at least 2 levels of storages and both a short and a long '
        '(>= 4096 bytes) stream, or with at least 2 streams open at once')

ALPHABET = st.one_of(
    st.sampled_from('abcdXYZ019_.- \x05\x01()[]%~$'),
    st.sampled_from('한글문서가힣漢字éßÅ\U0001f600\U00010400'),
    st.characters(min_codepoint=0x20, max_codepoint=0xd7ff, exclude_characters='/\\:!'),
)
COMMON = ('FileHeader', 'DocInfo', 'BodyText', 'Section0', 'BinData', 'BIN0001.jpg',
          '\x05HwpSummaryInformation', 'A', 'b', 'Root Entry', '..', '.')
SIZES = (0, 1, 63, 64, 65, 128, 511, 512, 513, 4095, 4096, 4097, 4608, 8192, 12289)


def usable(name):
    return 0 < len(name.encode('utf-16-le')) <= 62


NAMES = st.one_of(st.sampled_from(COMMON),
                  st.text(ALPHABET, min_size=1, max_size=6),
                  st.text(ALPHABET, min_size=1, max_size=31)).filter(usable)


def fold(name):
    return name.lower()


def folds(name):
    return {name.lower(), name.upper(), name.casefold(), cfb._cfb_upper(name)}


@st.composite
def trees(draw, depth=4, big=False):
    names, used = [], set()
    for n in draw(st.lists(NAMES, max_size=6)):
        if not (folds(n) & used):
            used |= folds(n)
            names.append(n)
    tree = {}
    for n in names:
        if depth and draw(st.integers(0, 9)) < 5:
            tree[n] = draw(trees(depth - 1))
        else:
            tree[n] = draw(blobs())
    if depth == 4 and draw(st.integers(0, 19)) == 0:
        for i in range(draw(st.sampled_from([20, 70]))):
            tree['many%d' % i] = b'%d' % i
    return tree


@st.composite
def blobs(draw):
    size = draw(st.one_of(st.sampled_from(SIZES), st.integers(0, 200), st.integers(0, 9000)))
    return gen.patterned(size, draw(st.integers(0, 50)))


containers = st.tuples(
    trees(), st.sampled_from([3, 3, 4]),
    st.one_of(st.none(), st.integers(0, 10**6), st.integers(0, 10**6)))


def describe(case, rec):
    tree, version, seed = case
    sizes, depth = [], 0

    def walk(t, d):
        nonlocal depth
        depth = max(depth, d)
        for v in t.values():
            if isinstance(v, dict):
                walk(v, d + 1)
                if not v:
                    rec.label('empty storage')
            else:
                sizes.append(len(v))
    walk(tree, 0)
    rec.label('v%d' % version)
    rec.label('depth %d' % depth)
    if seed is not None:
        rec.label('scattered')
    rec.nontrivial(depth >= 2 and any(0 < s < 4096 for s in sizes)
                   and any(s >= 4096 for s in sizes))
    return sizes


def all_names(tree, out):
    for n, v in tree.items():
        out.add(n)
        if isinstance(v, dict):
            all_names(v, out)
    return out


def compare(stg, tree, path, pool, reread=True):
    listed = list(stg)
    eq(sorted(listed), sorted(tree), 'names of storage %r' % (path,))
    eq(list(stg), listed, 'names of storage %r, listed again' % (path,))
    for name in listed:
        item, want = stg[name], tree[name]
        at = path + (name,)
        if isinstance(want, dict):
            ok(is_storage(item) and not is_stream(item), '%r is not a storage', at)
            compare(item, want, at, pool)
        else:
            ok(is_stream(item) and not is_storage(item), '%r is not a stream', at)
            for _ in range(2 if reread else 1):
                f = item.open()
                try:
                    eq(f.read(), want, 'bytes of %r' % (at,))
                    eq(f.read(), b'', 'end of %r' % (at,))
                    eq(f.read(1), b'', 'end of %r' % (at,))
                finally:
                    f.close()
    here = set(map(fold, tree))
    for name in sorted(pool):
        if fold(name) not in here:
            unknown(stg, name, path)


def unknown(stg, name, path):
    try:
        got = stg[name]
    except KeyError:
        return
    fail('unknown name %r in storage %r gives %r', name, path, got)


def leafs(tree, base=''):
    for n, v in tree.items():
        if isinstance(v, dict):
            for x in leafs(v, base + n + '/'):
                yield x
        else:
            yield base + n


BACKENDS = {'default': OleStorage, 'olefileio': olefileio.OleStorage,
            'gir_gsf': gir_gsf.OleStorage}
ENABLED = ['default', 'olefileio'] + (['gir_gsf'] if gir_gsf.is_enabled() else [])


def check_tree(case, rec):
    tree, version, seed = case
    describe(case, rec)
    data = cfb.build(tree, version=version, layout=seed)
    pool = all_names(tree, {'FileHeader', 'no such', 'Root Entry', ''})
    pool |= {n + 'x' for n in tree}
    with gen.workdir() as d:
        path = os.path.join(d, 'c.ole')
        with open(path, 'wb') as f:
            f.write(data)
        for backend in ENABLED:
            stg = BACKENDS[backend](path)
            try:
                compare(stg, tree, (backend,), pool)
                if backend == 'default':
                    eq(sorted(iter_storage_leafs(stg)), sorted(leafs(tree)), 'leafs')
            finally:
                stg.close()
        with open(path, 'rb') as f:
            ok(f.read() == data, 'the container was changed by reading it')
    stg = OleStorage(BytesIO(data))
    compare(stg, tree, ('file object',), pool, reread=False)
    stg.close()


OPS = st.lists(st.tuples(
    st.sampled_from(['open', 'open', 'read', 'read', 'read', 'all', 'seek', 'tell', 'close',
                     'list', 'unknown']),
    st.integers(0, 7),
    st.one_of(st.integers(0, 20), st.sampled_from([63, 64, 512, 4095, 4096, 5000, 20000])),
    st.integers(0, 2)), min_size=4, max_size=60)


def check_concurrent(case, rec):
    container, ops, backend = case
    tree, version, seed = container
    describe(container, rec)
    if backend not in ENABLED:
        backend = 'default'
    rec.label(backend)
    paths = sorted(leafs(tree))
    with gen.workdir() as d:
        path = os.path.join(d, 'c.ole')
        with open(path, 'wb') as f:
            f.write(cfb.build(tree, version=version, layout=seed))
        stg = BACKENDS[backend](path)
        handles = {}           # slot -> (path, real, model)
        most = 0
        for n, (op, slot, size, extra) in enumerate(ops):
            what = 'step %d %s slot %d size %d' % (n, op, slot, size)
            if op == 'list':
                eq(sorted(stg), sorted(tree), what)
                continue
            if op == 'unknown':
                if not any(fold(p) == 'no such' for p in tree):
                    unknown(stg, 'no such', what)
                continue
            if op == 'open' or slot not in handles:
                if not paths:
                    continue
                p = paths[(slot * 7 + size + extra) % len(paths)]
                want = tree
                for seg in p.split('/'):
                    want = want[seg]
                handles[slot] = p, open_storage_item(stg, p).open(), BytesIO(want)
                most = max(most, len(handles))
            p, real, model = handles[slot]
            what += ' of %r' % p
            if op == 'read':
                eq(real.read(size), model.read(size), what)
            elif op == 'all':
                eq(real.read(), model.read(), what)
            elif op == 'seek':
                length = len(model.getvalue())
                pos = size % (length + 1)
                if extra == 0:
                    real.seek(pos)
                    model.seek(pos)
                elif extra == 1:
                    delta = pos - model.tell()
                    real.seek(delta, 1)
                    model.seek(delta, 1)
                else:
                    real.seek(-pos, 2)
                    model.seek(-pos, 2)
                eq(real.tell(), model.tell(), what)
            elif op == 'tell':
                eq(real.tell(), model.tell(), what)
            elif op == 'close':
                real.close()
                del handles[slot]
        for p, real, model in handles.values():
            eq(real.read(), model.read(), 'rest of %r' % p)
            real.close()
        stg.close()
        if most >= 2:
            rec.label('%d streams open' % min(most, 5))
            rec.nontrivial(True)


def check_large(case, rec):
    '''containers with a double-indirect allocation table'''
    size, seed, layout = case
    rec.nontrivial(size > 109 * 128 * 512)
    big = gen.patterned(size, seed)
    tree = {'Big': big, 'S': {'T': {'small': b'small', 'half': big[:len(big) // 2]}}}
    data = cfb.build(tree, layout=layout)
    with gen.workdir() as d:
        path = os.path.join(d, 'c.ole')
        with open(path, 'wb') as f:
            f.write(data)
        for backend in ENABLED[1:]:
            compare(BACKENDS[backend](path), tree, (backend,), {'x'}, reread=False)


def tests(tier):
    return [
        Test('tree', containers, check_tree, quick=1500, thorough=20000),
        Test('concurrent', st.tuples(containers, OPS, st.sampled_from(['default', 'default', 'gir_gsf'])),
             check_concurrent, quick=1500, thorough=20000),
        Test('large', st.tuples(st.sampled_from([300000, 6900000, 7300000, 15000000]),
                                st.integers(0, 9), st.one_of(st.none(), st.integers(0, 99))),
             check_large, quick=8, thorough=60),
    ]
