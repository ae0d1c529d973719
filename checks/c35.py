# -*- coding: utf-8 -*-
import random

from hypothesis import strategies as st

from lib import docgen, project, refxml
from lib.runner import Test, eq, ok
from .xmldoc import VIA, checker, paras

RULE = 'the text has characters of at least two languages, or neutral characters beside one language'

BOUNDS = [0, 0x40, 0x41, 0x24f, 0x250, 0x10ff, 0x1100, 0x11ff, 0x1200, 0x2e7f, 0x2e80, 0x2fdf, 0x2fe0,
          0x2fff, 0x3000, 0x303f, 0x3040, 0x30ff, 0x3100, 0x312f, 0x3130, 0x318f, 0x3190, 0x33ff,
          0x3400, 0x4dbf, 0x4dc0, 0x4dff, 0x4e00, 0x9fff, 0xa000, 0xa95f, 0xa960, 0xa97f, 0xa980,
          0xabff, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfaff, 0xfb00, 0xffff, 0x10000, 0x10ffff]


def chars():
    return st.one_of(
        st.sampled_from([chr(c) for c in BOUNDS]),
        st.sampled_from(list(' 0129\t.,;@')),
        st.sampled_from(list('AZaz[]{}~\xe9가힣ㄱㅎᄀ漢字㐀豈。、「あアーЖα→😀𠀀')),
        st.characters(blacklist_categories=('Cs',)))


def texts():
    return st.lists(chars(), max_size=20).map(''.join)


def check(text, rec):
    from hwp5.charsets import tokenize_unicode_by_lang
    langs = set(refxml.lang(c) for c in text)
    rec.nontrivial(len(langs) > 1)
    rec.label('%d classes' % len(langs), *['has %s' % l for l in langs])
    got = list(tokenize_unicode_by_lang(text))
    eq(''.join(t for _, t in got), text, 'the pieces do not concatenate to the text')
    for (a, _), (b, _) in zip(got, got[1:]):
        ok(a != b, 'neighbouring pieces of language %r in %r', a, got)
    for l, piece in got:
        ok(piece, 'empty piece in %r', got)
        for c in piece:
            want = refxml.lang(c)
            ok(want is None or want == l, '%r (%s) is in a %s piece', c, want, l)
    for _, piece in got[1:]:
        ok(refxml.lang(piece[0]) is not None, 'a neutral character starts a new piece: %r', got)
    eq([tuple(x) for x in got], refxml.tokens(text), 'pieces')


def long_texts():
    '''long runs of few different characters'''
    def make(case):
        alphabet, n, density, seed = case
        rng = random.Random(seed)
        return ''.join(rng.choice(alphabet) if rng.randrange(density) == 0 else alphabet[0]
                       for i in range(n))
    return st.tuples(st.lists(chars(), min_size=1, max_size=4), st.sampled_from([5000, 300, 70000]),
                     st.sampled_from([1, 2, 10, 1000]), st.integers(0, 2 ** 32)).map(make)


def check_block(block, rec):
    '''every character of a block of 256'''
    from hwp5.charsets import tokenize_unicode_by_lang
    rec.nontrivial()
    rec.label('block')
    for c in range(block * 256, block * 256 + 256):
        if 0xd800 <= c <= 0xdfff:
            continue
        ch = chr(c)
        eq(list(tokenize_unicode_by_lang(ch)), refxml.tokens(ch), 'U+%04X' % c)
        eq(list(tokenize_unicode_by_lang('1' + ch + '2')), refxml.tokens('1' + ch + '2'),
           'U+%04X between digits' % c)


def label(doc, rec):
    for p in paras(doc):
        n = len(refxml.tokens(p.text()))
        rec.label('%d runs' % min(n, 4))
        rec.nontrivial(n > 1)


def tests(tier):
    view = project.runs
    return [
        Test('texts', texts(), check, 4000, 300000),
        Test('long texts', long_texts(), check, 240, 6000,
             examples=['a ' * 3000, ' ' * 3000 + '가', 'a' + ' ' * 5000, '1' * 4096 + 'あ1' * 40]),
        Test('blocks', st.sampled_from(list(range(256)) + [0x1f6, 0x200, 0x10ff]), check_block, 300, 1000,
             examples=list(range(0, 256))),
        Test('documents', docgen.docs(weights=docgen.TEXTS, info='small'), checker(view, label),
             600, 30000),
        Test('command line', st.tuples(docgen.docs(weights=docgen.TEXTS, info='small', maxparas=6),
                                       st.sampled_from(VIA)), checker(view, label, True), 60, 2000),
    ]
