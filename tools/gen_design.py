#!/opt/venv/bin/python
'''DESIGN.md from tools/design/, properties.jsonl, the notes, the checks and the findings.'''
import glob
import importlib
import json
import os
import sys
import textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('VERIF_WORK', '/tmp')
from lib import env  # noqa
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read(), NOTES)
TRUST = NOTES['TRUST']


def read(name):
    with open(os.path.join(HERE, 'tools', 'design', name), encoding='utf-8') as f:
        return f.read()


def fill(s, indent='', first=None):
    return textwrap.fill(s, 100, initial_indent=first if first is not None else indent,
                         subsequent_indent=indent, break_long_words=False,
                         break_on_hyphens=False)


def item(s):
    return fill(s, '  ', '* ')


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
    with open(os.path.join(HERE, 'known_findings.json'), encoding='utf-8') as f:
        findings = json.load(f)['findings']
    plants = {}
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        with open(m, encoding='utf-8') as f:
            plants[os.path.basename(os.path.dirname(m))] = json.load(f)
    out = [read('head.md'), '## The properties and how each is decided\n']
    for p in props:
        pid = p['id']
        mod = importlib.import_module('checks.' + pid.lower())
        technique, note = NOTES['NOTES'][pid]
        out.append('### %s %s\n' % (pid, p['title']))
        out.append(fill(p['statement']) + '\n')
        q = p['quantifier']
        out.append(item('*For every*: %s.' % (q['text'] if isinstance(q, dict) else q)))
        out.append(item('*Decided by*: %s. %s' % (technique, note.replace(TRUST, ''))))
        tests = ', '.join('%s (%d/%d)' % (t.name, t.quick, t.thorough) for t in mod.tests('quick'))
        out.append(item('*Generated cases (quick/thorough)*: %s.' % tests))
        out.append(item('*Non-trivial*: %s.' % mod.RULE))
        out.append(item('*Beyond the tests*: %s.' % p['why_tests_cant'])
                   if p.get('why_tests_cant') else '')
        fixed = [f for f in findings if f['property'] == pid and f['status'] == 'fixed']
        if fixed:
            out.append('* *Defects found and repaired*:')
            out += [fill('%s (%s)' % (f['what'], f['commit']), '    ', '  * ') for f in fixed]
        for f in findings:
            if f['property'] == pid and f['status'] != 'fixed':
                out.append(item('*Open finding* `%s`: %s' % (f['id'], f['what'])))
        mine = [k for k, v in plants.items() if v['property'] == pid]
        if mine:
            out.append(item('*Planted bugs caught*: %s.' % ', '.join('`%s`' % k for k in mine)))
        out.append('')
    out.append('## Planted bugs\n')
    out.append('Each was confirmed in a scratch copy (stable tests pass, demonstration fails) and is '
               'caught by the check of\nits property:\n')
    for k, v in plants.items():
        out.append(fill('`%s` (%s): %s. Needs: %s.' % (k, v['property'], v['what_it_breaks'],
                                                      v['needs']), '  ', '* '))
    out.append('')
    out.append(read('tail.md').rstrip('\n'))
    out.append(read('mutants.md').rstrip('\n'))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(x for x in out if x is not None) + '\n')


main()
