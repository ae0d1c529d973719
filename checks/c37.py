# -*- coding: utf-8 -*-
'''Commands whose standard output is a terminal.'''
import os
import pty
import re
import select
import subprocess
import sys
import time
import tty

from hypothesis import strategies as st
from lxml import etree

from lib import cfb, confine, docgen, env, gen
from lib.runner import Test, eq, fail, ok

RULE = 'the command writes something to the terminal'

COLOUR = re.compile(b'\x1b\\[[0-9;]*m')
XML = [('hwp5proc', 'xml'), ('hwp5proc', 'xml', '--no-xml-decl'), ('hwp5proc', 'xml', '--embedbin'),
       ('hwp5proc', 'xml', '--format=flat'), ('hwp5proc', 'xml', '--no-validate-wellformed'),
       ('hwp5html', '--html'), ('hwp5odt', '--styles'), ('hwp5odt', '--content'), ('hwp5odt', '--document'),
       ('hwp5odt', '--content', '--embed-image'), ('hwp5odt', '--document', '--no-embed-image')]
CSS = [('hwp5html', '--css')] * 4
PLAIN = [('hwp5txt',), ('hwp5proc', 'summaryinfo'), ('hwp5proc', 'ls'), ('hwp5proc', 'header'), ('hwp5proc', 'version'),
         ('hwp5proc', 'models', '--json', 'DocInfo'), ('hwp5proc', 'records', 'DocInfo'),
         ('hwp5proc', 'rawunz', 'DocInfo'), ('hwp5proc', 'models', '--events', 'BodyText/Section0')]
FAILS = ('hwp5proc-xml',)

# after the text has been shown, the user still looks at it: who is the parent?
SLOW = 'sh -c \'cat; sleep 0.2; read a b c p rest < /proc/$$/stat; echo $p $PPID > %s\''

MAIN = '''import sys
sys.path.insert(0, sys.argv.pop(1))
import importlib
name = sys.argv[1]
del sys.argv[0]
sys.exit(importlib.import_module('hwp5.' + name).main())
'''


def spawn(argv, e, cwd, terminal, stop=None, timeout=100):
    '''(exit status, standard output, standard error)'''
    if terminal:
        m, s = pty.openpty()
        tty.setraw(s)
    else:
        m, s = os.pipe()
    log = os.path.join(cwd, 'stderr')
    with open(log, 'wb') as err, open(os.devnull, 'rb') as null:
        p = subprocess.Popen([sys.executable, '-c', MAIN, os.path.join(env.REPO, 'src')] + list(argv), stdin=null,
                             stdout=s, stderr=err, env=e, cwd=cwd, start_new_session=True)
    os.close(s)
    out, end = b'', time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([m], [], [], left)[0]:
                os.killpg(p.pid, 9)
                p.wait()
                fail('%r does not end with a %s as its output' % (argv, 'terminal' if terminal else 'pipe'))
            try:
                b = os.read(m, 1 << 16)
            except OSError:
                break
            if not b:
                break
            out += b
    finally:
        os.close(m)
    p.wait()
    with open(log, 'rb') as f:
        return p.returncode, out, f.read()


def meaning(kind, data, what):
    '''without indentation'''
    if kind != 'xml':
        return data.strip(b'\n')
    try:
        root = etree.fromstring(data, etree.XMLParser(huge_tree=True, resolve_entities=False, load_dtd=False))
    except etree.XMLSyntaxError as e:
        fail('%s is no XML: %s: %r ... %r', what, e, data[:200], data[-200:])
    for x in root.iter():
        if x.text is not None and not x.text.strip(' \t\r\n'):
            x.text = None
        if x.tail is not None and not x.tail.strip(' \t\r\n'):
            x.tail = None
    return etree.tostring(root, method='c14n')


def setup(d, pager, pygments, tools):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('PYHWP', 'PYTHON', 'PAGER', 'LESS'))}
    e.update(LC_ALL='C.UTF-8', TERM='xterm', PYTHONDONTWRITEBYTECODE='1')
    bin = os.path.join(d, 'bin')
    os.mkdir(bin)
    for t in tools:
        os.symlink('/usr/bin/' + t, os.path.join(bin, t))
    shown = os.path.join(d, 'shown')
    cmd = {'cat': 'cat', 'quoted': "sh -c 'cat; true' 'a b'", 'slow': SLOW % os.path.join(d, 'parent'),
           'missing': os.path.join(d, 'no such', 'pager'), 'failing': "sh -c 'cat; exit 3'"}.get(pager, pager)
    if pager == 'default' or pager == 'empty':
        with open(os.path.join(bin, 'less'), 'w') as f:
            f.write('#!/bin/sh\necho "$@" > %s\nexec cat\n' % shown)
        os.chmod(os.path.join(bin, 'less'), 0o755)
    if pager == 'empty':
        e['PAGER'] = ''
    elif pager not in ('default', 'none'):
        e['PAGER'] = cmd if pager != 'missing' else "'%s'" % cmd
    if not pygments:
        os.makedirs(os.path.join(d, 'lib', 'pygments'))
        with open(os.path.join(d, 'lib', 'pygments', '__init__.py'), 'w') as f:
            f.write('raise ImportError("no pygments here")\n')
        e['PYTHONPATH'] = os.path.join(d, 'lib')
    e['PATH'] = bin
    return e, shown


def check_same(case, rec):
    doc, command, pager, pygments, layout = case
    kind = 'xml' if command in XML else 'css' if command in CSS else 'plain'
    with confine.scratch() as d:
        path = os.path.join(d, 'a.hwp')
        with open(path, 'wb') as f:
            f.write(cfb.build(doc.tree(), layout=layout))
        argv = list(command[:2]) + list(command[2:])
        # the name of the file comes before the name of a stream
        stream = [argv.pop()] if argv[-1] in ('DocInfo', 'BodyText/Section0') else []
        argv += [path] + stream
        e, shown = setup(d, pager, pygments, ['cat', 'sh', 'sleep', 'xmllint', 'true', 'head'])
        rc, exp, err = spawn(argv, e, d, False)
        rec.label(kind, pager, 'done' if rc == 0 else 'failed')
        trc, got, terr = spawn(argv, e, d, True)
        eq(trc == 0, rc == 0, 'success of %r with a terminal (%s) and with a pipe; %s' % (
            argv, (trc, rc), terr[-800:].decode('utf-8', 'replace')))
        if rc != 0:
            ok(terr.strip(), 'the failure of %r is not reported on a terminal', argv)
            return
        rec.nontrivial(bool(exp))
        plain = COLOUR.sub(b'', got)
        if kind != 'plain':
            if pager in ('default', 'empty'):
                ok(os.path.exists(shown), 'the default pager is not started')
                with open(shown) as f:
                    flags = f.read().split()
                if pygments and COLOUR.search(got):
                    ok({'-R', '-r', '--RAW-CONTROL-CHARS'} & set(flags), 'colours go to a pager that is not told: %r', flags)
            if not pygments:
                ok(not COLOUR.search(got), 'colours without a highlighter')
        what = '%r on a terminal (pager %s, %s highlighter)' % (argv[:-1], pager, 'with' if pygments else 'no')
        eq(meaning(kind, plain, what), meaning(kind, exp, '%r' % argv), what)
        if pager == 'slow' and kind != 'plain':
            with open(os.path.join(d, 'parent')) as f:
                p, ppid = f.read().split()
            eq(p, ppid, '%s: the process over the pager (the command ended before it)' % what)
        if kind == 'xml' and '--no-xml-decl' in command and '--no-validate-wellformed' in command:
            eq(plain.lstrip().startswith(b'<?xml'), False, 'XML declaration')
        if pager in ('cat', 'quoted', 'slow', 'failing'):
            eq(terr, err, 'standard error of %s' % what)


def check_leave(case, rec):
    doc, command, n, pygments, how = case
    with confine.scratch() as d:
        path = os.path.join(d, 'a.hwp')
        with open(path, 'wb') as f:
            f.write(cfb.build(doc.tree()))
        argv = list(command) + [path]
        e, shown = setup(d, 'cat', pygments, ['cat', 'sh', 'sleep', 'xmllint', 'true', 'head'])
        rc, exp, err = spawn(argv, e, d, True)
        if rc != 0:
            rec.nontrivial(False)
            return
        n = min(n, len(exp) * 2)
        e['PAGER'] = {'head': 'head -c %d' % n, 'true': 'true', 'killed': "sh -c 'kill -9 $$'",
                      'both': "sh -c 'head -c %d; exit 2'" % n}[how]
        warned = set(err.split(b'\n'))  # about the document
        rc, got, err = spawn(argv, e, d, True)
        eq(rc, 0, 'exit status of %r when the pager (%s) is left; %s' % (
            command, e['PAGER'], err[-500:].decode('utf-8', 'replace')))
        eq([x for x in err.split(b'\n') if x not in warned], [], 'standard error of %r when the pager (%s) is left' % (command, e['PAGER']))
        eq(got, exp[:n] if how in ('head', 'both') else b'', 'what the pager got of %r' % (command,))
        left = sorted(x for x in os.listdir(d) if x not in ('bin', 'lib', 'a.hwp', 'stderr'))
        eq(left, [], 'left behind')
        rec.nontrivial(len(exp) > 1)
        rec.label(how, 'early' if n < len(exp) else 'late')


def check_failing(case, rec):
    '''documents that cannot be converted to the end'''
    doc, command, cut, what = case
    tree = doc.tree()
    sections = tree['BodyText']
    name = sorted(sections)[-1]
    if what == 'cut':
        sections[name] = sections[name][:len(sections[name]) * cut // 100]
    elif what == 'no docinfo':
        del tree['DocInfo']
    else:
        sections[name] = bytes(sections[name][:len(sections[name]) * cut // 100]) + b'\xff' * 40
    with confine.scratch() as d:
        path = os.path.join(d, 'a.hwp')
        with open(path, 'wb') as f:
            f.write(cfb.build(tree))
        argv = list(command) + [path]
        e, shown = setup(d, 'cat', True, ['cat', 'sh', 'xmllint'])
        rc, exp, err = spawn(argv, e, d, False)
        trc, got, terr = spawn(argv, e, d, True)
        eq(trc == 0, rc == 0, 'success of %r with a terminal (%s) and with a pipe; %s' % (
            command, (trc, rc), terr[-800:].decode('utf-8', 'replace')))
        if rc == 0:
            kind = 'xml' if command in XML else 'css'
            eq(meaning(kind, COLOUR.sub(b'', got), '%r' % (command,)), meaning(kind, exp, '%r' % (command,)), '%r' % (command,))
        else:
            ok(terr.strip(), 'the failure of %r is not reported on a terminal', command)
        rec.nontrivial(True)
        rec.label('failed' if rc else 'done')


def tests(tier):
    docs = docgen.docs(mode='sane', images=2, maxparas=4)
    wild = docgen.docs(info='full', maxparas=6)
    layouts = st.none()
    pagers = st.sampled_from(['cat', 'cat', 'cat', 'quoted', 'slow', 'failing', 'default', 'default', 'empty', 'missing'])
    high = st.sampled_from([True, True, True, False])
    return [
        Test('converted', st.tuples(docs, st.sampled_from(XML + CSS), pagers, high, layouts), check_same, 120, 4000),
        Test('dumped', st.tuples(st.one_of(docs, wild), st.sampled_from(XML[:5] * 2 + PLAIN), pagers, high, layouts),
             check_same, 100, 3000),
        Test('left', st.tuples(docs, st.sampled_from(XML + CSS), st.one_of(st.integers(0, 3000), st.integers(0, 2 ** 18)),
                               st.booleans(), st.sampled_from(['head', 'head', 'head', 'true', 'killed', 'both'])),
             check_leave, 130, 3500),
        Test('failing', st.tuples(docs, st.sampled_from(XML + CSS), st.integers(0, 100),
                                  st.sampled_from(['cut', 'cut', 'garbage', 'no docinfo'])), check_failing, 40, 1200),
    ]
