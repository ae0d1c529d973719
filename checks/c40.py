# -*- coding: utf-8 -*-
'''Diagnostics: what is asked to be logged, and where to, changes no result.'''
import collections
import contextlib
import logging
import os
import re
import stat
import subprocess
import sys
import zipfile

from hypothesis import strategies as st
from lxml import etree

from lib import cfb, cli, confine, docgen, env
from lib.runner import Test, eq, ok

RULE = 'something is logged at one of the levels, and the command has an output'

LEVELS = ['debug', 'info', 'warning', 'error', 'critical']
NAMED = LEVELS + ['DEBUG', 'Info', 'WARNING', 'eRRor', 'verbose', 'x', '10', 'warn', 'notset', ' debug']
# (program, arguments before the document, arguments after it, output)
COMMANDS = [
    ('hwp5txt', (), (), None), ('hwp5txt', (), (), 'file'),
    ('hwp5html', (), (), 'dir'), ('hwp5html', ('--html',), (), None), ('hwp5html', ('--css',), (), 'file'),
    ('hwp5odt', (), (), 'zip'), ('hwp5odt', ('--styles',), (), None), ('hwp5odt', ('--content',), (), 'file'),
    ('hwp5odt', ('--document',), (), None), ('hwp5odt', ('--content', '--embed-image'), (), None),
    ('hwp5proc', ('version',), (), None), ('hwp5proc', ('header',), (), None),
    ('hwp5proc', ('summaryinfo',), (), None), ('hwp5proc', ('ls',), (), None),
    ('hwp5proc', ('ls', '--vstreams'), (), None), ('hwp5proc', ('ls', '--ole'), (), None),
    ('hwp5proc', ('cat',), ('DocInfo',), None), ('hwp5proc', ('cat', '--vstreams'), ('BodyText/Section0.json',), None),
    ('hwp5proc', ('unpack', '--vstreams'), ('OUT',), 'dir'), ('hwp5proc', ('unpack', '--ole'), ('OUT',), 'dir'),
    ('hwp5proc', ('records',), ('DocInfo',), None), ('hwp5proc', ('records', '--json'), ('bodytext/0',), None),
    ('hwp5proc', ('models',), ('docinfo',), None), ('hwp5proc', ('models', '--json'), ('bodytext/0',), None),
    ('hwp5proc', ('models', '--events'), ('bodytext/0',), None),
    ('hwp5proc', ('models', '--simple', '--seqno', '1'), ('docinfo',), None),
    ('hwp5proc', ('find', '--model=Paragraph'), (), None), ('hwp5proc', ('find', '--incomplete'), (), None),
    ('hwp5proc', ('find', '--tag=67', '--dump'), (), None),
    ('hwp5proc', ('xml', '--no-validate-wellformed'), (), None), ('hwp5proc', ('xml', '--embedbin', '--no-validate-wellformed'), (), 'file'),
    ('hwp5proc', ('xml', '--format=flat'), (), None), ('hwp5proc', ('rawunz',), (), 'stdin'),
    ('hwp5proc', ('nothing',), (), None),
]
CHANGING = re.compile('0x[0-9a-fA-F]+|/[^ \'"]*/tmp[^ \'"]*|case-[^ /\'"]*')


def broken(tree, how, at):
    '''a document that can be read only in part'''
    b = tree['BodyText']
    name = sorted(n for n in b if n.startswith('Section'))[-1]
    if how == 'cut':
        b[name] = b[name][:len(b[name]) * at // 100]
    elif how == 'garbage':
        b[name] = bytes(b[name][:len(b[name]) * at // 100]) + b'\x42\x00\x20\x00ab' + b'\xff' * 30
    elif how == 'docinfo':
        tree['DocInfo'] = tree['DocInfo'][:len(tree['DocInfo']) * at // 100]
    elif how == 'no docinfo':
        del tree['DocInfo']
    elif how == 'header':
        tree['FileHeader'] = tree['FileHeader'][:at * 256 // 100]
    elif how == 'signature':
        tree['FileHeader'] = b'HWX' + tree['FileHeader'][3:]
    return tree


def write(tree, d, how):
    path = os.path.join(d, 'a.hwp')
    with open(path, 'wb') as f:
        f.write(b'no container' if how == 'no ole' else cfb.build(tree))
    return path


def arguments(command, options, path, out):
    program, before, after, kind = command
    argv = list(options) if program == 'hwp5proc' else []
    argv += list(before)
    if program != 'hwp5proc':
        argv += options
    if kind in ('file', 'dir', 'zip') and 'OUT' not in after:
        argv += ['--output', out]
    if kind != 'stdin':
        argv += [path]
    return program, argv + [out if x == 'OUT' else x for x in after]


def collect(path):
    if os.path.isdir(path):
        return {k: v[2] for k, v in confine.snapshot(path).items() if stat.S_ISREG(v[0])}
    if not os.path.exists(path):
        return None
    if zipfile.is_zipfile(path):
        with zipfile.ZipFile(path) as z:
            out = {n: z.read(n) for n in z.namelist()}
        out['META-INF/manifest.xml'] = sorted(
            sorted(x.attrib.items()) for x in etree.fromstring(out['META-INF/manifest.xml']))
        return out
    with open(path, 'rb') as f:
        return f.read()


@contextlib.contextmanager
def environ(values):
    old = {k: os.environ.pop(k) for k in list(os.environ) if k.startswith('PYHWP_')}
    os.environ.update(values)
    try:
        yield
    finally:
        for k in values:
            del os.environ[k]
        os.environ.update(old)


Ran = collections.namedtuple('Ran', 'rc out files err log')


def perform(command, level, envlevel, logfile, envfile, d, path, stdin, n, spawn=False):
    '''one run; what it logged and its results'''
    out = os.path.join(d, 'out')
    options, e = [], {}
    if level is not None:
        options += ['--loglevel', level] if n % 2 else ['--loglevel=' + level]
    if envlevel is not None:
        e['PYHWP_LOGLEVEL'] = envlevel
    if logfile:
        options += ['--logfile', logfile]
    if envfile:
        e['PYHWP_LOGFILE'] = envfile
    if command[3] == 'dir' and command[0] == 'hwp5proc':
        os.mkdir(out)
    program, argv = arguments(command, options, path, out)
    if spawn:
        base = {k: v for k, v in os.environ.items() if not k.startswith(('PYHWP_', 'PYTHON', 'LC_', 'LANG'))}
        base.update(e, PYTHONPATH=os.path.join(env.REPO, 'src'), PYTHONDONTWRITEBYTECODE='1', LC_ALL=spawn)
        main = 'import sys\nfrom hwp5.%s import main\nsys.exit(main())' % program
        p = subprocess.run([sys.executable, '-c', main] + argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=base, cwd=d)
        rc, o, err = p.returncode, p.stdout, p.stderr
    else:
        with environ(e):
            r = cli.run(program, argv, stdin, cwd=d)
        if r.exc is not None:
            r.rc, r.err = 1, r.err + b'Traceback: %s\n' % type(r.exc).__name__.encode()
        rc, o, err = r.rc, r.out, r.err
    files = collect(out)
    if os.path.isdir(out):
        import shutil
        assert os.path.basename(d).startswith('case-')
        shutil.rmtree(out)
    elif os.path.exists(out):
        os.remove(out)
    log = None
    target = logfile or envfile
    if target:
        target = os.path.join(d, target)
        if os.path.exists(target):
            with open(target, 'rb') as f:
                log = f.read()
    return Ran(rc, o, files, err, log)


def lines(b):
    return [CHANGING.sub('#', x) for x in b.decode('utf-8', 'backslashreplace').split('\n') if x.strip()]


def contains(big, small):
    '''small is a subsequence of big'''
    it = iter(big)
    return all(x in it for x in small)


def check(case, rec):
    doc, how, at, command, settings, spawn = case
    tree = broken(doc.tree(), how, at)
    stdin = b''
    if command[3] == 'stdin':
        stdin = doc.deflate(doc.section_bytes(0)) if doc.flags & 1 else gen_deflate(doc)
        if how == 'cut':
            stdin = stdin[:len(stdin) * at // 100]
    what = '%s %s' % (command[0], ' '.join(command[1] + command[2]))
    with confine.scratch() as d:
        path = write(tree, d, how)
        if not spawn:       # modules imported and compiled on the way say so, once
            perform(command, 'debug', None, None, None, d, path, stdin, 0)
        plain = perform(command, None, None, None, None, d, path, stdin, 0, spawn)
        at_level = {}
        for n, (level, envlevel, logfile, envfile, old) in enumerate(settings):
            target = logfile or envfile
            here = '%s with level %r, PYHWP_LOGLEVEL %r, file %r, PYHWP_LOGFILE %r' % (
                what, level, envlevel, logfile, envfile)
            if target:
                t = os.path.join(d, target)
                if old:
                    with open(t, 'wb') as f:
                        f.write(old)
                elif os.path.exists(t):
                    os.remove(t)
                other = envfile if logfile and envfile != logfile else None
                if other and os.path.exists(os.path.join(d, other)):
                    os.remove(os.path.join(d, other))
            ran = perform(command, level, envlevel, logfile, envfile, d, path, stdin, n, spawn)
            eq(ran.rc, plain.rc, 'exit status of %s; %s' % (here, ran.err[-600:].decode('utf-8', 'replace')))
            if ran.out != plain.out:
                eq(ran.out, plain.out, 'standard output of %s' % here)
            eq(ran.files, plain.files, 'files of %s' % here)
            ok(b'Logging error' not in ran.err, 'a message of %s could not be logged: %s', here,
               ran.err[-800:].decode('utf-8', 'replace'))
            effective = (level or envlevel or 'warning').lower()
            if effective not in LEVELS:
                effective = 'warning'
            if target and 'usage:' not in ran.err[:200].decode('utf-8', 'replace'):
                ok(ran.log is not None, '%s leaves no log file', here)
                ok(ran.log.startswith(old), '%s: what was in the log file is lost', here)
                if other:
                    ok(not os.path.exists(os.path.join(d, other)), '%s: the file of the option and the one of the '
                       'environment are written', here)
                logged = lines(ran.log[len(old):])
                outside = lines(ran.err)
                # nothing is logged twice
                if not ran.err.startswith(b'Traceback'):
                    for x in set(outside):
                        ok(x not in logged, '%s: %r is logged and printed', here, x)
            else:
                logged, outside = lines(ran.err), None
            at_level.setdefault(effective, []).append((here, logged))
            if effective == 'warning' and outside is None:
                eq(logged, lines(plain.err), 'messages of %s (the level of which is the default)' % here)
            rec.label(effective, 'file' if target else 'stderr')
        # a level shows what the levels above it show
        order = [x for x in LEVELS if x in at_level]
        for a, b in zip(order, order[1:]):
            for here, more in at_level[a]:
                for there, less in at_level[b]:
                    ok(contains(more, [x for x in less if not x.startswith('Traceback')]),
                       '%s says %r, %s does not', there, [x for x in less if x not in more][:3], here)
    rec.label(what, 'failed' if plain.rc else 'done', how)
    rec.nontrivial(any(l for v in at_level.values() for h, l in v) and bool(plain.out or plain.files))


def gen_deflate(doc):
    import zlib
    c = zlib.compressobj(6, zlib.DEFLATED, -15)
    return c.compress(doc.section_bytes(0)) + c.flush()


def tests(tier):
    docs = docgen.docs(mode='sane', images=2, maxparas=3)
    wild = docgen.docs(info='full', maxparas=4)
    both = st.one_of(docs, wild)
    hows = st.sampled_from(['whole'] * 5 + ['cut', 'garbage', 'garbage', 'docinfo', 'no docinfo', 'header', 'signature',
                                            'no ole'])
    # names of other things in the module, numbers, anything
    odd = st.one_of(st.sampled_from(sorted(x.lower() for x in dir(logging))), st.integers(0, 99).map(str),
                    st.text('abcdefginorw_. %{}0', min_size=1, max_size=8))
    level = st.one_of(st.none(), st.sampled_from(['debug', 'debug', 'info']), st.sampled_from(NAMED), odd)
    file = st.one_of(st.none(), st.sampled_from(['log', '\ub85c\uadf8.txt', 'a b.log']))
    setting = st.tuples(level, level, file, st.one_of(st.none(), st.sampled_from(['elog', 'log'])),
                        st.sampled_from([b'', b'', b'from before\n']))
    args = (both, hows, st.integers(0, 100), st.sampled_from(COMMANDS))
    return [
        Test('levels', st.tuples(*(args + (st.lists(setting, min_size=2, max_size=4), st.none()))), check, 800, 16000),
        Test('processes', st.tuples(*(args + (st.lists(setting, min_size=1, max_size=2), st.sampled_from(
            ['C', 'C.UTF-8', 'POSIX'])))), check, 60, 1500),
    ]
