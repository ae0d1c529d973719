# -*- coding: utf-8 -*-
import os
import tempfile

from hypothesis import strategies as st

from lib import cfb, cli, confine, docgen, gen, propset
from lib.memstg import MemStorage
from lib.runner import Test, eq, fail, ok
from checks.c20 import folds, usable
from checks.c21 import NAMES

RULE = ('a storage or stream name that, taken as a path, leads out of its directory, or a '
        'pre-existing file with the name of an item next to the output directory')

# layout of the scratch directory: everything but `out` must stay as it is
TREE = ('top', 'top/in', 'top/work', 'top/work/out_sibling', 'top/abs', 'top/work/deep',
        'top/work/deep/er')
OUTS = ('top/work/out', 'top/work/deep/er/out', 'top/work/o.u.t', 'top/work/\x05out')

HOSTILE = ['..', '.', '...', '..\x05', '\x05', '\x05x', '~', '~root', '*', '%2e%2e', '.. ', ' ..',
           '\u2215', '\uff0f', '-rf', 'CON', '..\\x', 'a\\..\\..\\b']
# names that contain the separator cannot occur in valid OLE files
SLASHED = ['../evil', '../../evil', '../out_sibling/kept', '/', '//', './x', 'a/../../evil', 'a/b',
           '../', '..//..', '/ABS/evil', '../../in/doc.hwp', '\x05/../../evil', 'x/']
TARGETS = ['evil', 'kept', 'out_sibling', 'doc.hwp', 'in', 'out', 'abs', 'deep', 'er', 'work',
           'index.xhtml', 'styles.css', 'bindata', 'FileHeader', 'secret']


def trees(names, depth):
    @st.composite
    def make(draw, depth):
        out, used = {}, set()
        for n in draw(st.lists(names, max_size=4)):
            if folds(n) & used:
                continue
            used |= folds(n)
            if depth and draw(st.booleans()):
                out[n] = draw(make(depth - 1))
            else:
                out[n] = draw(st.sampled_from([b'', b'evil', b'overwritten']))
        return out
    return make(depth)


OLENAMES = st.one_of(st.sampled_from([n for n in HOSTILE if '\\' not in n]),
                     st.sampled_from(['..', '..', '.']), st.sampled_from(TARGETS), NAMES)
ANYNAMES = st.one_of(st.sampled_from(HOSTILE + SLASHED), st.sampled_from(['..', '../evil']),
                     st.sampled_from(TARGETS), NAMES)


def hostile(tree):
    return any(n in ('.', '..') or '/' in n or (isinstance(v, dict) and hostile(v))
               for n, v in tree.items())


def lay_out(top):
    for d in TREE:
        os.mkdir(os.path.join(top, d))
    os.mkdir(os.path.join(top, 'tmp'))
    for d in TREE:
        for n in ('kept', 'evil', 'index.xhtml', 'secret'):
            with open(os.path.join(top, d, n), 'w') as f:
                f.write('kept in ' + d)


def put_abs(tree, absdir):
    return {n.replace('/ABS', absdir): put_abs(v, absdir) if isinstance(v, dict) else v
            for n, v in tree.items()}


def in_child(fn, *args):
    def wrapped(top):
        os.environ['TMPDIR'] = os.path.join(top, 'tmp')
        tempfile.tempdir = None
        os.chdir(os.path.join(top, 'top/work'))
        return fn(top, *args)
    return wrapped


def guarded(fn, top, outs):
    '''run fn; what it did outside of outs and whether it worked'''
    confine.own(top)
    skip = ('tmp',) + outs
    before = confine.snapshot(top, skip)
    status, value = confine.run(fn, top)
    after = confine.snapshot(top, skip)
    for p in sorted(set(before) | set(after)):
        # outs themselves are created; a directory listing does not show them
        if p in outs:
            continue
        if p not in after:
            fail('%r, outside of the output directory, was removed', p)
        if p not in before:
            fail('%r was created outside of the output directory', p)
        if before[p] != after[p]:
            fail('%r, outside of the output directory, was changed: %r', p, after[p][2])
    if status == 'killed':
        fail('the process died: %r', value)
    return status, value


def unpack_api(top, tree, out):
    from hwp5.storage import unpack
    os.mkdir(os.path.join(top, out))
    unpack(MemStorage(tree), os.path.join(top, out))


def check_api(case, rec):
    tree, out = case
    with confine.scratch() as top:
        tree = put_abs(tree, os.path.join(top, 'top/abs'))
        lay_out(top)
        if hostile(tree):
            rec.nontrivial()
        status, value = guarded(in_child(unpack_api, tree, out), top, (out,))
        rec.label('unpacked' if status == 'ok' else 'refused')
        names = [n for n in flat_names(tree)]
        if not hostile(tree) and all(n not in ('', '_05x') for n in names):
            ok(status == 'ok', 'unpacking failed: %s', value)


def convert_api(top, tree, out):
    from hwp5.hwp5html import HTMLTransform
    from hwp5.xmlmodel import Hwp5File
    os.mkdir(os.path.join(top, out))
    HTMLTransform().transform_hwp5_to_dir(Hwp5File(MemStorage(tree)), os.path.join(top, out))


def check_html_api(case, rec):
    '''documents of other storages than OLE files'''
    parts, out = case
    with confine.scratch() as top:
        tree = document(parts)
        tree['BinData'] = put_abs(tree['BinData'], os.path.join(top, 'top/abs'))
        lay_out(top)
        if hostile(tree['BinData']):
            rec.nontrivial()
        status, value = guarded(in_child(convert_api, tree, out), top, (out,))
        rec.label('converted' if status == 'ok' else 'refused')
        names = [n for n in flat_names(tree['BinData'])]
        if not hostile(tree) and all(n not in ('', '_05x') for n in names):
            ok(status == 'ok', 'the conversion failed: %s', value)


def flat_names(tree):
    for n, v in tree.items():
        yield n
        if isinstance(v, dict):
            for x in flat_names(v):
                yield x


def run_cli(top, program, argv, cwd):
    os.chdir(os.path.join(top, cwd))
    r = cli.run(program, argv)
    return r.rc, repr(r)


def document(case):
    doc, extra, bindata = case
    tree = doc.tree()
    used = set().union(*(folds(n) for n in list(tree) + ['BinData', 'ViewText', 'PrvText']))
    for n, v in extra.items():
        if not folds(n) & used:
            tree[n] = v
    if bindata is not None:
        b = dict(tree.get('BinData', {}))
        used = set().union(set(), *(folds(n) for n in b))
        for n, v in bindata.items():
            if not folds(n) & used:
                b[n] = v if isinstance(v, dict) else doc.deflate(v)
        tree['BinData'] = b
    return tree


def check_cli(case, rec):
    parts, mode, existing, infile, layout = case
    doc, extra, bindata = parts
    tree = document(parts)
    if hostile(tree):
        rec.nontrivial()
    rec.label(mode)
    with confine.scratch() as top:
        lay_out(top)
        docpath = os.path.join(top, 'top/in', infile)
        with open(docpath, 'wb') as f:
            f.write(cfb.build(tree, layout=layout))
        stem = os.path.splitext(infile)[0]
        out = 'top/work/out'
        cwd = 'top/work'
        if mode == 'unpack':
            program, argv = 'hwp5proc', ['unpack', docpath, os.path.join(top, out)]
        elif mode == 'unpack --ole':
            program, argv = 'hwp5proc', ['unpack', '--ole', docpath, 'out']
        elif mode == 'unpack --vstreams':
            program, argv = 'hwp5proc', ['unpack', '--vstreams', docpath, '../work/out']
        elif mode == 'unpack here':
            program, argv = 'hwp5proc', ['unpack', docpath]
            out = cwd + '/' + stem
        elif mode == 'html':
            program, argv = 'hwp5html', ['--output', os.path.join(top, out), docpath]
        elif mode == 'html relative':
            program, argv = 'hwp5html', ['--output', './out', '../in/' + infile]
        else:
            program, argv = 'hwp5html', ['../in/' + infile]
            out = cwd + '/' + stem
        if existing:
            os.mkdir(os.path.join(top, out))
            with open(os.path.join(top, out, 'index.xhtml'), 'w') as f:
                f.write('from before')
        status, value = guarded(in_child(run_cli, program, argv, cwd), top, (out,))
        if status != 'ok':
            fail('%r: %s', argv, value)
        rc, text = value
        if not hostile(tree):
            ok(rc == 0, '%r: %s', argv, text)
        if rc == 0:
            # everything arrived somewhere beneath the output directory
            rec.label('success')
            found = confine.snapshot(os.path.join(top, out))
            bodies = sorted(c for k, m, c in found.values() if c is not None)
            if mode.startswith('unpack'):
                for name, data in (('FileHeader', tree['FileHeader']),):
                    eq(found['FileHeader'][2], data, name)
            else:
                ok('index.xhtml' in found and 'styles.css' in found, '%r: files %r', argv,
                   sorted(found))
                for n in doc.bindata:
                    eq(found['bindata/' + n][2], doc.bindata[n], 'bindata/' + n)


def tests(tier):
    small = docgen.docs(mode='sane', maxparas=2, images=1)
    parts = st.tuples(small, trees(OLENAMES, 2), st.one_of(st.none(), trees(OLENAMES, 2)))
    return [
        Test('api', st.tuples(trees(ANYNAMES, 3), st.sampled_from(OUTS)), check_api, 1500, 20000,
             examples=[({'..': {'evil': b'x'}}, OUTS[0]), ({'..': {'..': {'in': {'kept': b''}}}},
                                                           OUTS[1])]),
        Test('html api', st.tuples(st.tuples(small, st.just({}), trees(ANYNAMES, 2)), st.sampled_from(OUTS)),
             check_html_api, 400, 6000),
        Test('cli', st.tuples(parts, st.sampled_from(
            ['unpack', 'unpack --ole', 'unpack --vstreams', 'unpack here', 'html',
             'html relative', 'html here']), st.booleans(),
            st.sampled_from(['doc.hwp', 'doc.a.hwp', 'deep2.hwp', '\ud55c\uae00.hwp']),
            st.one_of(st.none(), st.integers(0, 999))), check_cli, 500, 8000),
    ]
