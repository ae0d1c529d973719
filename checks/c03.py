# -*- coding: utf-8 -*-
from io import BytesIO

from hypothesis import strategies as st

from lib import layout as L, recgen
from lib.runner import Test, eq, ok, fail
from hwp5 import binmodel
from hwp5.storage import Open2Stream

RULE = ('a record with at least one conditional, variable-length, version-dependent or '
        'specialised part, or with an unparsed remainder')


def plain(v):
    '''drop the subclasses the code under test wraps values in'''
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    return v


def differences(exp, act, path=''):
    if isinstance(exp, dict) and isinstance(act, dict):
        for k in exp:
            if k not in act:
                yield '%s.%s missing (expected %r)' % (path, k, exp[k])
            else:
                for d in differences(exp[k], act[k], path + '.' + k):
                    yield d
        for k in act:
            if k not in exp:
                yield '%s.%s unexpected: %r' % (path, k, act[k])
    elif isinstance(exp, (list, tuple)) and type(exp) == type(act) and len(exp) == len(act):
        for i, (e, a) in enumerate(zip(exp, act)):
            for d in differences(e, a, '%s[%d]' % (path, i)):
                yield d
    elif exp != act or type(exp) != type(act):
        yield '%s: expected %r, got %r' % (path, exp, act)


def model_stream(blob, version):
    return binmodel.ModelStream(Open2Stream(lambda: BytesIO(blob)), version)


def compare(nodes, models):
    models = list(models)
    eq(len(models), len(nodes), 'number of models')
    for i, (n, m) in enumerate(zip(nodes, models)):
        eq(m['type'].__name__, n.name, 'model of record %d (tag %d)' % (i, n.tagid))
        d = list(differences(n.content, plain(m['content'])))
        ok(not d, 'content of record %d %s: %s', i, n.name, '; '.join(d[:5]))
        eq(m.get('unparsed', b''), n.extra, 'unparsed bytes of record %d %s' % (i, n.name))
        eq((m['tagid'], m['level'], m['seqno'], m['payload']),
           (n.tagid, n.level, i, n.payload()), 'record fields of model %d' % i)


def note(nodes, version, rec):
    for n in nodes:
        rec.label(n.name)
        opts = [o for s in n.structs for _, _, o in s.fields if o]
        if n.extra or opts or len(n.structs) > 1 or any(
                isinstance(t, (L.NArr, L.XArr, L.Sel)) for s in n.structs for _, t, _ in s.fields):
            rec.nontrivial()
    rec.label('version %d.%d.%d.%d' % version)


def check(case, rec):
    version, nodes = case
    note(nodes, version, rec)
    blob = recgen.stream(nodes)
    compare(nodes, model_stream(blob, version).models())
    # the leaf events cover the decoded part of each payload exactly once
    for i, (n, m) in enumerate(zip(nodes, model_stream(blob, version).models())):
        offs = [it['bin_offset'] for ev, it in m['binevents'] if ev is None]
        end = len(n.payload()) - len(n.extra)
        ok(offs == sorted(offs), 'offsets of %s not ascending: %r', n.name, offs)
        ok(all(0 <= o <= end for o in offs), 'offset beyond the decoded part in %s: %r, end %d',
           n.name, offs, end)
        if offs:
            eq(offs[0], 0, 'first offset in ' + n.name)


@st.composite
def singles(draw):
    '''every record type in turn, at the place where it belongs'''
    version = draw(recgen.versions)
    return version, place(draw, version, draw(st.sampled_from(PLACES)))


def place(draw, version, kind):
    nodes, parent = [], None
    for level, (tag, chid) in enumerate(kind):
        extra = b''
        if level == len(kind) - 1 and tag != L.PARA_TEXT and draw(st.booleans()):
            extra = draw(st.binary(min_size=1, max_size=6))
        if tag == 'sibling-table':
            nodes.append(recgen.make_node(draw, L.TABLE, level, parent, version))
            tag = L.LIST_HEADER
        n = recgen.make_node(draw, tag, level, parent, version, chid, extra=extra)
        nodes.append(n)
        parent = n
    return nodes


@st.composite
def all_versions(draw):
    '''one place in documents of every version that makes a difference'''
    kind = draw(st.sampled_from(VERSIONED))
    return [(v, place(draw, v, kind)) for v in draw(st.permutations(recgen.VERSIONS))]


def check_versions(case, rec):
    for c in case:
        check(c, rec)


P, C = (L.PARA_HEADER, None), L.CTRL_HEADER
NEED_PARENT = recgen.NEED_PARA + (L.CTRL_DATA, L.LIST_HEADER, L.SHAPE_COMPONENT)
PLACES = [[(t, None)] for t in sorted(L.RECORDS) if t not in NEED_PARENT]
PLACES += [[P, (t, None)] for t in recgen.NEED_PARA + (L.PARA_TEXT,)]
PLACES += [[P, (C, chid)] for chid in sorted(L.CONTROLS)]
PLACES += [[P, (C, 'tbl '), (L.LIST_HEADER, None)], [P, (C, 'tbl '), ('sibling-table', None)],
           [P, (C, 'gso '), (L.LIST_HEADER, None)], [P, (C, 'head'), (L.LIST_HEADER, None)],
           [P, (C, 'foot'), (L.LIST_HEADER, None)], [P, (C, 'tcmt'), (L.LIST_HEADER, None)],
           [P, (C, 'fn  '), (L.LIST_HEADER, None)],
           [P, (C, 'gso '), (L.SHAPE_COMPONENT, None)],
           [P, (C, 'gso '), (L.SHAPE_COMPONENT, None), (L.LIST_HEADER, None)],
           [P, (C, 'gso '), (L.SHAPE_COMPONENT, None), (L.SHAPE_COMPONENT, None)],
           [P, (C, 'bokm'), (L.CTRL_DATA, None)], [P, (C, '%clk'), (L.CTRL_DATA, None)],
           [P, (C, 'secd'), (L.CTRL_DATA, None)], [P, (C, 'atno'), (L.CTRL_DATA, None)]]
PLACES += [[P, (C, 'gso '), (t, None)] for t in (L.SHAPE_COMPONENT,) * 3]


def versioned(kind):
    tag, chid = kind[-1]
    structs = [L.CONTROLS[chid]] if tag == C and chid in L.CONTROLS else []
    structs += [L.RECORDS[L.LIST_HEADER if tag == 'sibling-table' else tag]]
    return tag == L.SHAPE_COMPONENT or any(o.get('ver') for s in structs for _, _, o in s.fields)


VERSIONED = [k for k in PLACES if versioned(k)]


def tests(tier):
    return [
        Test('record types', singles(), check, 4000, 120000),
        Test('versions', all_versions(), check_versions, 320, 8000),
        Test('record trees', recgen.trees(), check, 1200, 50000),
    ]
