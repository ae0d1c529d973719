# -*- coding: utf-8 -*-
import json
from io import BytesIO

from hypothesis import strategies as st

from lib import cli, docgen, gen, layout as L, recgen
from lib.runner import Test, eq, ok, fail
from hwp5 import binmodel
from hwp5.binmodel import RecordModel
from hwp5.treeop import STARTEVENT, ENDEVENT
from .c03 import compare, differences, model_stream, plain

RULE = 'two or more streams with records are read, or the stream has two or more tree groups'


def groups_of(nodes):
    out = []
    for i, n in enumerate(nodes):
        if n.level == 0 or not out:
            out.append([])
        out[-1].append((i, n))
    return out


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, bytes):
        return v.decode('latin1')
    return v


def hexlines(data):
    out = [' '.join('%02x' % b for b in data[i:i + 16]) for i in range(0, len(data), 16)]
    return out or ['']


def expect_json(nodes, seqno0=0):
    out = []
    for i, n in nodes:
        d = dict(type=n.name, content=jsonable(n.content), tagid=n.tagid, level=n.level,
                 seqno=i, size=len(n.payload()), payload=hexlines(n.payload()))
        if n.extra:
            d['unparsed'] = hexlines(n.extra)
        out.append(d)
    return out


def compare_json(exp, text, what):
    act = json.loads(text)
    eq(len(act), len(exp), what + ': number of models')
    for e, a in zip(exp, act):
        ok(isinstance(a.pop('tagname', None), str), what + ': no tagname')
        d = list(differences(e, a))
        ok(not d, '%s: %s (seqno %d): %s', what, e['type'], e['seqno'], '; '.join(d[:4]))


def compare_seq(pairs, models, what):
    models = list(models)
    eq([(m['seqno'], m['type'].__name__) for m in models], [(i, n.name) for i, n in pairs], what)
    for (i, n), m in zip(pairs, models):
        d = list(differences(n.content, plain(m['content'])))
        ok(not d, '%s: content of record %d %s: %s', what, i, n.name, '; '.join(d[:4]))
        eq(m.get('unparsed', b''), n.extra, '%s: unparsed of record %d' % (what, i))


def from_events(events):
    depth, out = 0, []
    for ev, item in events:
        if item['type'] is RecordModel and 'record' in item:
            if ev is STARTEVENT:
                depth += 1
            else:
                depth -= 1
                m = dict(item['model'])
                if item['leftover']['bytes']:
                    m['unparsed'] = item['leftover']['bytes']
                out.append(m)
        ok(0 <= depth <= 1, 'record events do not nest')
    eq(depth, 0, 'unbalanced record events')
    return out


VIEWS = ['models', 'events', 'json', 'groups', 'group', 'model', 'groupjson']


def check_views(case, rec):
    (version, nodes), order, pick = case
    groups = groups_of(nodes)
    rec.nontrivial(len(groups) > 1)
    stream = model_stream(recgen.stream(nodes), version)
    allp = list(enumerate(nodes))
    for view in order:
        rec.label(view)
        if view == 'models':
            compare(nodes, stream.models())
        elif view == 'events':
            compare_seq(allp, from_events(stream.parse_model_events()), 'parse events')
        elif view == 'json':
            compare_json(expect_json(allp), stream.models_json().open().read().decode('utf-8'),
                         'models_json')
        elif view == 'groups':
            got = [list(g) for g in stream.models_treegrouped()]
            eq(len(got), len(groups), 'number of model groups')
            for e, a in zip(groups, got):
                compare_seq(e, a, 'models_treegrouped')
        elif view == 'group':
            g = pick % (len(groups) + 1)
            compare_seq(groups[g] if g < len(groups) else [], stream.models(treegroup=g),
                        'models(treegroup=%d)' % g)
        elif view == 'groupjson':
            g = pick % (len(groups) + 1)
            compare_json(expect_json(groups[g] if g < len(groups) else []),
                         stream.models_json(treegroup=g).open().read().decode('utf-8'),
                         'models_json(treegroup=%d)' % g)
        else:
            i = pick % (len(nodes) + 1)
            m = stream.model(i)
            if i == len(nodes):
                eq(m, None, 'model(%d) behind the end' % i)
            else:
                compare_seq([(i, nodes[i])], [m], 'model(%d)' % i)


def check_many(case, rec):
    '''a long stream: a few trees again and again'''
    (version, nodes), order, n = case
    nodes = (nodes * (n // len(nodes) + 1))[:n]
    for pick in (n // 2, n - 1):
        check_views(((version, nodes), order, pick), rec)


def check_history(case, rec):
    streams, schedule = case
    rec.nontrivial(len([1 for s in streams if s[1]]) > 1)
    rec.label('%d streams' % len(streams))
    if len({s[0] for s in streams}) > 1:
        rec.label('different versions')
    sources = [model_stream(recgen.stream(nodes), v) for v, nodes in streams]
    its = [iter(s.models()) if k % 2 else iter(()) for k, s in enumerate(sources)]
    its = [s.models() for s in sources]
    got = [[] for _ in sources]
    done = [False] * len(sources)

    def step(k):
        if done[k]:
            return
        try:
            got[k].append(next(its[k]))
        except StopIteration:
            done[k] = True
    its = [iter(i) for i in its]
    for k in schedule:
        step(k % len(sources))
    for k in range(len(sources)):
        while not done[k]:
            step(k)
    for (v, nodes), models in zip(streams, got):
        compare(nodes, models)
    # and again, in reverse order and through another view
    for (v, nodes), s in reversed(list(zip(streams, sources))):
        compare_seq(list(enumerate(nodes)), from_events(s.parse_model_events()), 'second reading')
        compare(nodes, s.models())


def snapshot(models):
    return [(m['seqno'], m['type'].__name__, repr(plain(m['content'])), m.get('unparsed'),
             m['payload']) for m in models]


def dumped(events):
    out = BytesIO()
    events.dump(out)
    return out.getvalue()


OPS = {
    'models': lambda f, s: snapshot(s.models()),
    'group': lambda f, s: snapshot(s.models(treegroup=0)),
    'some models': lambda f, s: snapshot(m for m, k in zip(s.models(), range(3))),
    'groups': lambda f, s: [snapshot(g) for g in s.models_treegrouped()],
    'json': lambda f, s: s.models_json().open().read(),
    'records': lambda f, s: s.records_json().open().read(),
    'parse events': lambda f, s: [(str(m['type'].__name__), repr(plain(m['content'])))
                                  for m in from_events(s.parse_model_events())],
    'xml': lambda f, s: dumped(s.xmlevents()),
    'some xml': lambda f, s: repr([e for e, k in zip(s.xmlevents(), range(9))]),
    'document xml': lambda f, s: dumped(f.xmlevents()),
    'embedding xml': lambda f, s: dumped(f.xmlevents(embedbin=True)),
    'flat xml': lambda f, s: flat(f),
}


def flat(f):
    from hwp5.xmldump_flat import xmldump_flat
    out = BytesIO()
    xmldump_flat(f, out)
    return out.getvalue()


def check_document(case, rec):
    """what is read from a document is what a new reader of it gets"""
    doc, schedule = case
    rec.nontrivial(len(schedule) > 1)
    f = doc.hwp5file()
    sections = [f.text.section(i) for i in f.text.section_indexes()]
    for k, op in schedule:
        rec.label(op)
        fresh = doc.hwp5file()
        if k == 0:
            used, new = f.docinfo, fresh.docinfo
        else:
            i = (k - 1) % len(sections)
            used, new = sections[i], fresh.text.section(fresh.text.section_indexes()[i])
        e, a = OPS[op](fresh, new), OPS[op](f, used)
        if e != a:
            fail('%s after %s differs from the first reading: %s', op, schedule,
                 first_difference(e, a))


def first_difference(e, a):
    for i, (x, y) in enumerate(zip(e, a)):
        if x != y:
            return '%d: %r / %r' % (i, e[i:i + 60], a[i:i + 60])
    return '%d / %d items' % (len(e), len(a))


def check_cli(case, rec):
    (version, nodes), flag, fmt = case
    groups = groups_of(nodes)
    rec.nontrivial(len(groups) > 1)
    rec.label(fmt)
    blob = recgen.stream(nodes)
    with gen.workdir() as d:
        path = gen.write_ole(gen.minimal_doc([blob], b'', flag, version), d + '/a.hwp')
        args = ['models', path, 'BodyText/Section0']
        if fmt == 'json':
            out = cli.success('hwp5proc', args).out.decode('utf-8')
            compare_json(expect_json(list(enumerate(nodes))), out, 'hwp5proc models')
        elif fmt == 'cat':
            out = cli.success('hwp5proc', ['cat', '--vstreams', path,
                                           'BodyText/Section0.models']).out.decode('utf-8')
            compare_json(expect_json(list(enumerate(nodes))), out, 'hwp5proc cat .models')
        else:
            out = cli.success('hwp5proc', args + ['--simple']).out.decode('utf-8')
            eq(len(out.splitlines()), len(nodes), 'number of simple lines')
            for i, (n, line) in enumerate(zip(nodes, out.splitlines())):
                ok(n.name in line.split() or any(n.name in w for w in line.split()),
                   'line %d does not name %s: %r', i, n.name, line)


def tests(tier):
    return [
        Test('views', st.tuples(recgen.trees(8), st.permutations(VIEWS), st.integers(0, 9)),
             check_views, 1200, 40000),
        Test('many records', st.tuples(recgen.trees(8), st.permutations(VIEWS), st.sampled_from(
            [300, 1100, 2000])), check_many, 16, 600),
        Test('history', st.tuples(
            st.lists(recgen.trees(6), min_size=2, max_size=4),
            st.lists(st.integers(0, 3), max_size=30)), check_history, 600, 30000),
        Test('document', st.tuples(
            docgen.docs(mode='sane', images=2, links=True, maxparas=5, info='full'),
            st.lists(st.tuples(st.integers(0, 2), st.sampled_from(sorted(OPS))), min_size=2,
                     max_size=8)), check_document, 240, 8000),
        Test('command line', st.tuples(recgen.trees(6), st.sampled_from([0, 1]),
                                       st.sampled_from(['json', 'simple', 'cat'])),
             check_cli, 300, 8000),
    ]
