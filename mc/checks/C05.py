# -*- coding: utf-8 -*-
"""
C05 - classes contain exactly what their definition says.

Space: every class expression of depth <= 2 (thorough: part of depth 3) over leaves of every kind (every way of writing a
list of code points, tags carried by single code points / ranges / nothing, Unicode properties, named classes), with the
five operators; every code point of a universe; named and by reference, or anonymous inside a rule; built by API or read
from a document; in the body of a rule, in its look-behind and in its look-ahead. Oracle: pointwise evaluation of the expression.
"""
import itertools
import unicodedata

from mc import lgrspec as S
from mc.model import Model

PROPERTY = 'C05'
LEVEL = 'model_checking'
RULE = 'a case is one (class expression, code point) membership; non trivial = distinct truth vectors of expressions'

UNIVERSE = [0x2D, 0x30, 0x39, 0x41, 0x5A, 0x5C, 0x5D, 0x5E, 0x60] + list(range(0x61, 0x6B)) + \
    [0x7A, 0xB7, 0xDF, 0xE9, 0x0101, 0x0375, 0x03B1, 0x03C9, 0x0430, 0x05D0, 0x0661, 0x0966, 0x200C, 0x3042, 0x4E00, 0xAC00]
SCRIPT = {'Latin': [0x41, 0x5A, 0x7A, 0xDF, 0xE9, 0x101] + list(range(0x61, 0x6B)), 'Greek': [0x375, 0x3B1, 0x3C9],
          'Han': [0x4E00]}


def prop(name, value, cp):
    if name in ('gc', 'General_Category'):
        c = unicodedata.category(chr(cp))
        return c == value or c[0] == value
    if name in ('sc', 'script'):
        return cp in SCRIPT[value]
    raise AssertionError(name)


ITEMS = [S.char((0x61,), tags=('t',)), S.char((0x62,), tags=('u', 't')), S.rng(0x63, 0x66, tags=('r',)),
         S.char((0x67,)), S.char((0x61, 0x62), tags=()), S.char((0x3B1,), tags=('u',)), S.char((0x30,), tags=('t-1',)),
         S.rng(0x3C1, 0x3C9, tags=('t',)), S.char((0x4E00,), tags=('tt',))]
LEAVES = [
    ('set', (0x61,)), ('set', (0x61, 0x62, 0x63, 0x3B1)), ('set', (0x5D, 0x5C, 0x5E, 0x2D)),
    ('raw', (0x61, 0x63, 0x64, 0x65), '61 63-65'),
    ('raw', (0x62, 0x63, 0x64, 0x67, 0x3B1), ' \n 0062-0064\t0067\n  03b1 '),
    ('raw', (0x64, 0x66, 0x67, 0x68), '<char cp="0064"/><range first-cp="0066" last-cp="0068"/>'),
    ('raw', (0x61, 0x62), '<range first-cp="0061" last-cp="0062"/><char cp="0061"/>'),
    ('raw', (0x4E00, 0x4E01, 0xE9), '4E00-4E01 E9 4E00'),
    ('tag', 't'), ('tag', 'u'), ('tag', 'r'), ('tag', 'nosuch'),
    ('prop', 'gc', 'Ll'), ('prop', 'sc', 'Greek'), ('prop', 'script', 'Latin'), ('prop', 'gc', 'N'),
    ('ref', 'named'), ('ref', 'named_union'), ('ref', 'named_compl'), ('ref', 'named_tag'), ('ref', 'named_empty'),
]
NAMED = [('named', ('set', (0x62, 0x64, 0x30))), ('named_union', ('union', (('ref', 'named'), ('tag', 't'), ('set', (0x7A,))))),
         ('named_compl', ('compl', ('ref', 'named_union'))), ('named_tag', ('tag', 'tt')),
         ('named_empty', ('diff', ('set', (0x61,)), ('tag', 't')))]
SMALL = [LEAVES[i] for i in (1, 3, 8, 11, 12, 18)]

BOUNDS = {'quick': '%d leaves; every binary operator on every ordered pair, unions of 3 over 6, complements; second level: every operator '
                   'over (small first-level, leaf) pairs in both orders; universe of %d code points' % (len(LEAVES), len(UNIVERSE)),
          'thorough': 'second level over all first-level expressions of 6 leaves on both sides'}
ASSUMPTIONS = ['general categories and scripts of the universe do not differ between Unicode 15.0 (oracle) and the ICU in use']


def level1(leaves):
    out = []
    for op in ('inter', 'diff', 'symdiff'):
        out += [(op, a, b) for a in leaves for b in leaves]
    out += [('union', (a, b)) for a in leaves for b in leaves]
    out += [('compl', a) for a in leaves]
    return out


def expressions(tier):
    out = list(LEAVES) + level1(LEAVES)
    out += [('union', t) for t in itertools.product(SMALL, repeat=3)]
    out += [('union', tuple(SMALL[(i + j) % len(SMALL)] for j in range(n))) for n in (4, 5, 6) for i in range(len(SMALL))]
    l1 = level1(SMALL[:4] if tier == 'quick' else SMALL)
    other = SMALL if tier == 'quick' else l1[::3] + SMALL
    for op in ('inter', 'diff', 'symdiff'):
        out += [(op, a, b) for a in l1 for b in other] + [(op, b, a) for a in l1 for b in other]
    out += [('union', (a, b)) for a in l1 for b in other]
    out += [('compl', a) for a in l1] + [('compl', ('compl', a)) for a in LEAVES]
    return out


CHUNK = 60


def shards(tier):
    n = len(expressions(tier))
    return [[tier, i, i + CHUNK] for i in range(0, n, CHUNK)]


def forms(kind, i, e):
    return [('%s%d' % (kind, i), [('start',), ('class', e, None), ('end',)]),
            ('%su%d' % (kind, i), [('class', e, None), ('char', (NEXT,), None)]),
            ('%sb%d' % (kind, i), [('behind', [('start',), ('class', e, None)]), ('anchor',)]),
            ('%sa%d' % (kind, i), [('anchor',), ('ahead', [('class', e, None), ('end',)])])]


# another code point, next to which the members are looked for
NEXT = 0x6F


def make(exprs):
    rules, classes = [], list(NAMED)
    for i, e in enumerate(exprs):
        if e[0] != 'ref':
            classes.append(('k%d' % i, e))
            rules += forms('n', i, ('ref', 'k%d' % i))
        rules += forms('a', i, e)
    return S.spec(ITEMS, rules=rules, classes=classes)


def one(lgr, model, e, i, how, st):
    truth = [model.in_class(e, cp) for cp in UNIVERSE]
    st.state(e)
    for name, call in [(k + f + str(i), f) for k in 'na' for f in ('', 'u', 'b', 'a')]:
        if name not in lgr.rules_lookup:
            continue
        rule = lgr.rules_lookup[name]
        for cp, want in zip(UNIVERSE, truth):
            st.evaluations += 1
            st.step()
            label, kw = {'': ((cp,), {}), 'u': ((cp, NEXT), {}), 'b': ((cp, NEXT), dict(anchor=(NEXT,), index=1)), 'a': ((NEXT, cp), dict(anchor=(NEXT,), index=0))}[call]
            try:
                got = rule.matches(label, lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database, **kw)
            except Exception as ex:
                got = 'exception %s: %s' % (type(ex).__name__, ex)
            if got != want:
                st.violation('class:%r' % (e,), 'class %r (%s, %s, in %s): %04X member according to the code: %s, to the model: %s' % (
                    e, how, 'by reference' if name[0] == 'n' else 'anonymous',
                    {'': 'the body', 'u': 'the body, after nothing', 'b': 'a look-behind', 'a': 'a look-ahead'}[call], cp, got, want), {'expr': e, 'how': how})
                break
        st.trace()
    st.outcome(truth)


def run_shard(shard, st):
    tier, lo, hi = shard
    exprs = expressions(tier)[lo:hi]
    sp = make(exprs)
    model = Model(sp, prop)
    for how in ('xml', 'api'):
        lgr = S.build(sp, unidb=S.icu_db(), how=how)
        for i, e in enumerate(exprs):
            if how == 'api' and (lo + i) % 3:
                continue
            one(lgr, model, e, i, how, st)
    st.count('expressions', len(exprs))
    st.sample({'class': exprs[0]})


def replay(case, st):
    case = S.from_json(case)
    sp = make([case['expr']])
    one(S.build(sp, unidb=S.icu_db(), how=case['how']), Model(sp, prop), case['expr'], 0, case['how'], st)
