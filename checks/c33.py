# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from lib import deep, gen, layout as L
from lib.runner import Test, eq, ok, fail
from hwp5 import treeop
from hwp5.treeop import STARTEVENT as S, ENDEVENT as E
from .c03 import model_stream

RULE = 'the level sequence both descends and ascends'


@st.composite
def level_lists(draw, maxn=24):
    base = draw(st.sampled_from([0, 0, 0, 1, 3]))
    levels, cur = [], None
    n = draw(st.integers(0, maxn))
    mode = draw(st.integers(0, 3))
    for _ in range(n):
        if cur is None:
            cur = base
        elif mode == 0 and draw(st.integers(0, 4)):
            cur = cur + 1
        else:
            cur = draw(st.integers(base, cur + 1))
        levels.append(cur)
    # items repeat on purpose: equal items must not be confused
    items = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    return list(zip(levels, items))


def forest(seq):
    '''reference: recursive construction from the level list'''
    if not seq:
        return []
    base = seq[0][0]
    roots, path = [], []
    for level, item in seq:
        node = (item, [])
        d = level - base
        del path[d:]
        (path[-1][1] if path else roots).append(node)
        path.append(node)
    return roots


def events_of(trees):
    out = []
    for item, kids in trees:
        out.append((S, item))
        out += events_of(kids)
        out.append((E, item))
    return out


def ancestors_of(trees, chain):
    for item, kids in trees:
        yield list(chain), item
        for x in ancestors_of(kids, chain + [item]):
            yield x


def note(seq, rec):
    ls = [l for l, _ in seq]
    rec.nontrivial(any(b > a for a, b in zip(ls, ls[1:])) and
                   any(b < a for a, b in zip(ls, ls[1:])))
    rec.label('depth %d' % (min(9, max(ls) - ls[0]) if ls else 0))


def check(case, rec):
    seq, root = case
    note(seq, rec)
    trees = forest(seq)
    events = events_of(trees)
    eq(list(treeop.prefix_event(iter(seq), root)), events, 'prefix_event')
    eq([(list(a), i) for a, i in treeop.prefix_ancestors(iter(events), root)],
       list(ancestors_of(trees, [root])), 'prefix_ancestors')
    eq([(list(a), i) for a, i in treeop.prefix_ancestors_from_level(iter(seq), root)],
       list(ancestors_of(trees, [root])), 'prefix_ancestors_from_level')
    it = iter(events)
    built = []
    for ev, item in it:
        ok(ev is S, 'unexpected %r after a subtree', ev)
        built.append(treeop.build_subtree(it))
    eq(built, trees, 'build_subtree')
    eq(list(treeop.tree_events_multi(iter(trees))), events, 'tree_events_multi')
    for t in trees:
        eq(list(treeop.tree_events(*t)), events_of([t]), 'tree_events')
    if not rec.non and trees:
        return
    # consume any subtree from the middle of a stream; the rest stays
    for k in range(len(events)):
        if events[k][0] is not S:
            continue
        depth, end = 0, None
        for j in range(k, len(events)):
            depth += 1 if events[j][0] is S else -1
            if depth == 0:
                end = j
                break
        it = iter(events)
        for _ in range(k + 1):
            next(it)
        eq(list(treeop.iter_subevents(it)), events[k + 1:end + 1], 'iter_subevents at %d' % k)
        eq(list(it), events[end + 1:], 'rest after iter_subevents at %d' % k)
        it = iter(events)
        for _ in range(k + 1):
            next(it)
        t = treeop.build_subtree(it)
        eq(events_of([t]), events[k:end + 1], 'build_subtree at %d' % k)
        eq(list(it), events[end + 1:], 'rest after build_subtree at %d' % k)


def flat_events(seq):
    out, open_ = [], []
    for level, item in seq:
        while len(open_) > level:
            out.append((E, open_.pop()))
        open_.append(item)
        out.append((S, item))
    while open_:
        out.append((E, open_.pop()))
    return out


def check_deep(case, rec):
    '''as deep as record levels go: 10 bits'''
    n, backs = case
    seq = [(i, i) for i in range(n)]
    for b in backs:
        seq.append((b % (seq[-1][0] + 2) or 1, 'b%d' % b))
    note(seq, rec)
    rec.label('levels: %d00' % (n // 100))
    events = flat_events(seq)
    with deep.ordinary():
        eq(list(treeop.prefix_event(iter(seq))), events, 'prefix_event')
        it = iter(events)
        next(it)
        built = treeop.build_subtree(it)
        eq(list(it), [], 'rest')
        back = list(treeop.tree_events(*built))
        multi = list(treeop.tree_events_multi([built]))
    eq(built[0], 0, 'root')
    eq(back, events, 'tree_events(build_subtree())')
    eq(multi, events, 'tree_events_multi')
    # the built tree, by an iterative walk
    got, todo = [], [(0, built)]
    while todo:
        level, (item, kids) = todo.pop()
        got.append((level, item))
        todo.extend((level + 1, k) for k in reversed(kids))
    eq(got, seq, 'build_subtree')
    # the rest of a stream after a subtree
    k = n // 2
    it = iter(events)
    for _ in range(k):
        next(it)
    with deep.ordinary():
        next(it)
        t = treeop.build_subtree(it)
    eq(t[0], k, 'item of the subtree')
    end = events.index((E, k))
    eq(list(it), events[end + 1:], 'rest after build_subtree')


@st.composite
def invalid(draw):
    seq = draw(level_lists(12).filter(bool))
    at = draw(st.integers(1, len(seq)))
    prev = seq[at - 1][0]
    base = seq[0][0]
    bad = [prev + 2 + draw(st.integers(0, 3))]
    if base > 0:
        bad.append(draw(st.integers(0, base - 1)))
    return seq[:at] + [(draw(st.sampled_from(bad)), 'bad')] + \
        draw(st.lists(st.tuples(st.integers(0, 5), st.just(9)), max_size=3)), at


def check_invalid(case, rec):
    seq, at = case
    note(seq[:at], rec)
    rec.nontrivial()
    for fn, get in ((treeop.prefix_event, lambda x: x[0] is S),
                    (treeop.prefix_ancestors_from_level, lambda x: True)):
        got = []
        try:
            for x in fn(iter(seq)):
                if get(x):
                    got.append(x[1])
        except Exception:
            pass
        else:
            fail('%s accepted the level sequence %r', fn.__name__, [l for l, _ in seq])
        eq(got, [i for _, i in seq[:at]], '%s: items before the error' % fn.__name__)


def check_models(seq, rec):
    '''the tree the record models see: every model's parent is the nearest
    preceding record one level up'''
    note(seq, rec)
    from hwp5.binmodel import parse_models_intern
    records = [dict(tagid=1000, tagname='x', level=l, payload=b'', size=0, seqno=i)
               for i, (l, _) in enumerate(seq)]
    got = []
    for context, model in parse_models_intern(dict(version=(5, 0, 3, 4)), iter(records)):
        got.append(context['parent'][1].get('seqno'))
    exp, path = [], []
    base = seq[0][0] if seq else 0
    for i, (l, _) in enumerate(seq):
        del path[l - base:]
        exp.append(path[-1] if path else None)
        path.append(i)
    eq(got, exp, 'parents')


def tests(tier):
    deep = st.integers(30, 100).map(lambda n: [(i, i) for i in range(n)] + [(n // 2, 'x')])
    return [
        Test('valid', st.tuples(level_lists(), st.sampled_from([None, 'root', 0])), check,
             4000, 200000),
        Test('deep', st.tuples(deep, st.none()), check, 20, 300),
        Test('levels', st.tuples(st.one_of(st.integers(100, 1023), st.just(1023)),
                                 st.lists(st.integers(1, 1022), max_size=4)), check_deep, 60, 3000),
        Test('invalid', invalid(), check_invalid, 2000, 100000),
        Test('record parents', level_lists(), check_models, 2000, 60000),
    ]
