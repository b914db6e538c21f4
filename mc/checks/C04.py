# -*- coding: utf-8 -*-
"""
C04 - whole label and context rules match exactly what their elements say.

Space: every rule built from <= 2 (3) elements of a pool which covers every element kind and every form of the count
attribute (quick: full pool for 1-2 elements, core pool for 3), plus every parameterized context rule
(look-behind content) anchor (look-ahead content) over a pool of contents; every label over {a,b,c} up to a length bound;
every anchor position. Oracle: independent backtracking matcher (sets of end positions) in mc.model.
"""
import itertools

from mc import lgrspec as S
from mc.model import Model

PROPERTY = 'C04'
LEVEL = 'model_checking'
RULE = ('a case is one (rule, label[, anchor position]) triple; non trivial = distinct (rule, truth vector over all '
        'labels) pairs')
A, B, C = 0x61, 0x62, 0x63

COUNTS = [None, '1', '2', '0:1', '1:2', '1+', '2+', '0+', '2:3', '0', '2:2', '0:2', '3+', '0:0']
SETS = [('set', (A,)), ('set', (A, B))]

REFRULES = [
    ('r_a', [('char', (A,), None)]),
    ('r_start_b', [('start',), ('char', (B,), None)]),
    ('r_choice', [('choice', (('char', (A,), None), ('char', (B, C), None)), None)]),
    ('r_nested', [('ruleref', 'r_choice', None), ('end',)]),
    ('r_plus', [('char', (A,), '1+')]),
    ('r_plus2', [('ruleref', 'r_plus', None), ('char', (B,), '0+')]),
]
REFCLASSES = [('c_ab', ('set', (A, B))), ('c_notb', ('compl', ('set', (B,)))), ('c_empty', ('diff', ('set', (A,)), ('set', (A, B))))]

CORE = [
    ('start',), ('end',),
    ('any', None), ('any', '0+'), ('any', '2'),
    ('char', (A,), None), ('char', (B,), '1+'), ('char', (A, B), None), ('char', (A, B), '2'), ('char', (C,), '0:1'),
    ('class', ('set', (A, B)), None), ('class', ('compl', ('set', (A,))), '1:2'),
    ('choice', (('char', (A,), None), ('char', (B,), None)), None),
    ('choice', (('char', (A, B), None), ('char', (A,), None)), '2'),
    ('rule', (('char', (A,), None), ('class', ('set', (B, C)), None)), None),
    ('ruleref', 'r_choice', None),
    ('ahead', (('char', (B,), None),)), ('behind', (('char', (A,), None),)),
]
POOL = CORE + [('any', c) for c in COUNTS if c not in (None, '0+', '2')] + \
    [('char', (A,), c) for c in COUNTS if c] + \
    [('char', (A, B), c) for c in ('1:2', '1+', '0:1')] + \
    [('class', ('set', (A, C)), c) for c in COUNTS if c] + \
    [('class', ('ref', 'c_ab'), None), ('class', ('ref', 'c_notb'), '2+'), ('class', ('ref', 'c_empty'), None),
     ('class', ('ref', 'c_empty'), '0:1'),
     ('class', ('tag', 't'), None), ('class', ('tag', 'nosuch'), None), ('class', ('tag', 'nosuch'), '0+'),
     ('class', ('union', (('set', (A,)), ('ref', 'c_notb'))), None),
     ('class', ('inter', ('ref', 'c_ab'), ('ref', 'c_notb')), None),
     ('class', ('diff', ('ref', 'c_ab'), ('set', (A,))), '1+'),
     ('class', ('symdiff', ('ref', 'c_ab'), ('set', (B, C))), None)] + \
    [('choice', (('start',), ('char', (B,), None)), None),
     ('choice', (('end',), ('char', (A,), None)), None),
     ('choice', (('char', (A,), None), ('rule', (('char', (B,), None), ('char', (C,), None)), None)), '1+'),
     ('choice', (('rule', (('start',), ('char', (A,), None)), None), ('char', (C,), '2')), None),
     ('choice', (('class', ('set', (A, B)), '2'), ('char', (C,), None)), '0:1'),
     ('choice', (('char', (A,), None),), None),
     ('choice', (('rule', (('char', (A,), None), ('char', (B,), None)), None),), '2'),
     ('choice', (('char', (A, B), None),), '1:2'),
     ('choice', (('class', ('ref', 'c_empty'), None), ('char', (C,), None)), None),
     ('choice', (('class', ('set', ()), None), ('char', (C,), None)), '2'),
     ('choice', (('class', ('tag', 'nosuch'), None),), None), ('choice', (('class', ('set', ()), None),), None),
     ('rule', (('char', (B, C), '2'),), '0'),
     ('rule', (('char', (A,), None), ('char', (B,), None)), '2'),
     ('rule', (('choice', (('char', (A,), None), ('char', (C,), None)), None), ('any', None)), '1+'),
     ('rule', (('start',), ('char', (B,), None)), '0:1'),
     ('ruleref', 'r_a', '2'), ('ruleref', 'r_choice', '1+'), ('ruleref', 'r_start_b', None),
     ('ruleref', 'r_nested', None),
     ('ahead', (('any', '2'),)), ('ahead', (('end',),)), ('ahead', (('ruleref', 'r_choice', None),)),
     ('ahead', (('choice', (('char', (A,), None), ('char', (B, C), None)), None), ('end',))),
     ('behind', (('start',),)), ('behind', (('class', ('set', (A, B)), '1+'),)),
     ('behind', (('start',), ('char', (A,), '0+'))),
     ('behind', (('ruleref', 'r_choice', '1+'), ('char', (C,), None)))]

# contents of look-behind / look-ahead in context rules
BEHIND = [None,
          (('char', (A,), None),), (('char', (A, B), None),), (('start',),), (('any', None),), (('any', '2'),),
          (('start',), ('any', '1+')), (('class', ('ref', 'c_ab'), '1+'),), (('class', ('tag', 't'), None),),
          (('start',), ('class', ('compl', ('set', (A,))), '0+')),
          (('choice', (('start',), ('char', (B,), None)), None),),
          (('choice', (('char', (A, B), None), ('char', (C,), None)), '1+'),),
          (('ruleref', 'r_choice', None),), (('rule', (('char', (A,), None), ('any', None)), None),),
          (('char', (B,), '2+'),), (('char', (A, B), '2'),), (('char', (A, B), '1:2'),), (('class', ('set', (B,)), '0'),),
          (('start',), ('char', (C, A), '0+')), (('char', (A,), None), ('any', '0:1')), (('class', ('ref', 'c_empty'), None),),
          (('class', ('compl', ('set', (0x24, A))), None),), (('class', ('set', (A, 0x25)), None),),
          (('any', '1+'), ('char', (C,), None)), (('ruleref', 'r_a', '1+'), ('char', (B,), '0+')),
          (('ruleref', 'r_plus', None),), (('start',), ('ruleref', 'r_plus2', None)),
          (('rule', (('class', ('set', (A, C)), '1+'), ('char', (B,), None)), None),),
          (('choice', (('char', (A,), '2+'), ('rule', (('char', (C,), '1+'),), None)), None),)]
AHEAD = [None,
         (('char', (B,), None),), (('char', (B, C), None),), (('end',),), (('any', None),), (('any', '2'),),
         (('any', '1+'), ('end',)), (('class', ('ref', 'c_notb'), '1+'), ('end',)), (('class', ('tag', 't'), None),),
         (('choice', (('end',), ('char', (A,), None)), None),),
         (('choice', (('char', (A, B), None), ('char', (C,), None)), '2'),),
         (('ruleref', 'r_choice', None),), (('ruleref', 'r_nested', None),), (('class', ('tag', 'nosuch'), None),),
         (('char', (A,), '0:1'), ('char', (C,), None))]
ANCHOR_ENTRIES = [(A,), (B,), (A, B), (B, B), (C, A)]

# unbounded look-behinds on labels up to the length of a DNS label
LONG = [[('behind', (('start',), ('char', (A,), c))), ('anchor',)] for c in ('1+', '0+', '2+')] + \
       [[('behind', (('char', (C,), None), ('ruleref', 'r_plus2', None))), ('anchor',), ('ahead', (('any', '0+'), ('end',)))]]

# counts of two digits
BIG = [(q, c) for c in ('9', '10', '12', '10+', '11+', '9:10', '2:12', '10:12', '0:11', '21')
       for q in (lambda n: ('any', n), lambda n: ('char', (A,), n), lambda n: ('class', ('set', (A, C)), n),
                 lambda n: ('choice', (('char', (A,), None), ('char', (C,), None)), n), lambda n: ('rule', (('char', (A,), None),), n))]

BOUNDS = {'quick': 'rules of 1-2 elements over %d elements (one element between start and end: labels <= 5), 3 over %d, labels of length <= 3 (1-element rules: 4); '
                   '%d x %d context rules, labels <= 4, every anchor position; counts to 21 in 5 forms of rule x labels to 44' % (len(POOL), len(CORE), len(BEHIND), len(AHEAD)),
          'thorough': 'rules of 1-2 elements: labels <= 5; 3 elements over %d: labels <= 4; context rules: labels <= 5'
                      % len(POOL)}
ASSUMPTIONS = ['code points within the BMP (the installed ICU binding truncates others)',
               'rules follow RFC 7940: context rules are look-behind? anchor look-ahead?']


def labels(n, minlen=1):
    for k in range(minlen, n + 1):
        for l in itertools.product((A, B, C), repeat=k):
            yield l


def rule_chunks(rules, size=150):
    rules = list(rules)
    return [rules[i:i + size] for i in range(0, len(rules), size)]


def shards(tier):
    out = []
    n1 = [(n,) for n in POOL]
    n2 = list(itertools.product(range(len(POOL)), repeat=2))
    lim2, lim3 = (3, 3) if tier == 'quick' else (5, 4)
    out.append(['seq1', 0, len(n1), lim2 + 1, 'xml'])
    for i in range(0, len(n1), 50):
        out.append(['whole', i, i + 50, lim2 + 2, 'api' if i % 100 else 'xml'])
    for i in range(0, len(n2), 200):
        out.append(['seq2', i, i + 200, lim2, 'xml' if (i // 200) % 2 else 'api'])
    pool3 = len(CORE) if tier == 'quick' else len(POOL)
    total3 = pool3 ** 3
    step = 400 if tier == 'quick' else 2000
    for i in range(0, total3, step):
        out.append(['seq3', i, min(i + step, total3), lim3, 'api' if (i // step) % 2 else 'xml', pool3])
    for bi in range(len(LONG)):
        out.append(['long', bi, 0, 63, 'xml' if bi % 2 else 'api'])
    for bi in range(len(BIG)):
        out.append(['big', bi, 0, 15, 'xml' if bi % 2 else 'api'])
    for bi in range(len(BEHIND)):
        out.append(['ctx', bi, 0, 4 if tier == 'quick' else 5, 'xml' if bi % 2 else 'api'])
    return out


def make_rules(shard):
    kind, lo, hi = shard[:3]
    if kind == 'seq1':
        return [[POOL[i]] for i in range(lo, hi)]
    if kind == 'whole':
        return [[('start',), n, ('end',)] for n in POOL[lo:hi]]
    if kind == 'seq2':
        return [[POOL[i // len(POOL)], POOL[i % len(POOL)]] for i in range(lo, min(hi, len(POOL) ** 2))]
    if kind == 'seq3':
        p = shard[5]
        pool = CORE if p == len(CORE) else POOL
        return [[pool[i // (p * p)], pool[(i // p) % p], pool[i % p]] for i in range(lo, hi)]
    if kind == 'long':
        return [LONG[lo]]
    if kind == 'ctx':
        out = []
        for ah in AHEAD:
            nodes = []
            if BEHIND[lo] is not None:
                nodes.append(('behind', BEHIND[lo]))
            nodes.append(('anchor',))
            if ah is not None:
                nodes.append(('ahead', ah))
            out.append(nodes)
        return out


def make_spec(rules):
    items = [S.char((A,), tags=('t',)), S.char((B,)), S.char((C,), tags=('t', 'u'))]
    items += [S.char(e) for e in ANCHOR_ENTRIES if len(e) > 1]
    return S.spec(items, rules=REFRULES + [('x%d' % i, r) for i, r in enumerate(rules)], classes=REFCLASSES)


def build(rules, how):
    sp = make_spec(rules)
    return S.build(sp, unidb=S.icu_db(), how=how), Model(sp)


def one(lgr, model, name, nodes, label, anchor, index, st, case, truth):
    rule = lgr.rules_lookup[name]
    want = model.rule_matches(name, label, anchor, index)
    try:
        got = rule.matches(label, lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database, anchor, index)
    except Exception as e:
        got = 'exception %s: %s' % (type(e).__name__, e)
    st.evaluations += 1
    st.trace()
    truth.append(want)
    if got != want:
        st.violation('rule:%r' % (nodes,), 'rule %r on label %s%s: implementation says %s, model says %s' % (
            nodes, S.hexs(label), '' if anchor is None else ' anchored on %s at %d' % (S.hexs(anchor), index),
            got, want), case)


def long_label(n, first):
    return (first,) + (A,) * (n - 2) + (B,)


def run_long(shard, st):
    nodes = LONG[shard[1]]
    lgr, model = build([nodes], shard[4])
    for n in (2, 3, 4, 31, 32, 33, 61, 62, 63):
        for first in (A, C):
            label = long_label(n, first)
            st.step()
            st.state((repr(nodes), label))
            truth = []
            one(lgr, model, 'x0', nodes, label, (B,), n - 1, st,
                {'rules': [nodes], 'how': shard[4], 'label': label, 'anchor': (B,), 'index': n - 1}, truth)
            st.outcome((repr(nodes), n, first, truth))


def run_big(shard, st):
    make, count = BIG[shard[1]]
    e = make(count)
    rules = [[('start',), e, ('end',)], [e, ('char', (B,), None)], [('behind', (('start',), e)), ('anchor',)],
             [('anchor',), ('ahead', (e, ('end',)))], [('behind', (('char', (B,), None), e)), ('anchor',), ('ahead', (e, ('char', (B,), None)))]]
    lgr, model = build(rules, shard[4])
    for i, nodes in enumerate(rules):
        truth = []
        for n in (1, 2, 3, 8, 9, 10, 11, 12, 13, 20, 21, 22, 23):
            for before, after in (((), ()), ((B,), (B,)), ((), (B,)), ((B,), (A,) * n + (B,))):
                label = before + (A,) * n + after
                st.state((shard[1], i, label))
                for idx in ([None] if i < 2 else range(len(label))):
                    cp = None if idx is None else label[idx:idx + 1]
                    st.step()
                    one(lgr, model, 'x%d' % i, nodes, label, cp, idx or 0, st,
                        {'rules': rules, 'n': i, 'how': shard[4], 'label': label, 'anchor': cp, 'index': idx or 0}, truth)
        st.outcome((shard[1], i, truth))
        st.count('rules')


def run_shard(shard, st):
    if shard[0] == 'big':
        return run_big(shard, st)
    if shard[0] == 'long':
        return run_long(shard, st)
    rules = make_rules(shard)
    how, maxlen = shard[4], shard[3]
    lgr, model = build(rules, how)
    labs = list(labels(maxlen))
    for i, nodes in enumerate(rules):
        name = 'x%d' % i
        truth = []
        st.state(('rule', nodes))
        for label in labs:
            if shard[0] == 'ctx':
                for cp in ANCHOR_ENTRIES:
                    for idx in range(len(label) - len(cp) + 1):
                        if label[idx:idx + len(cp)] != cp:
                            continue
                        st.step()
                        st.state((repr(nodes), label, idx, cp))
                        one(lgr, model, name, nodes, label, cp, idx, st,
                            {'rules': [nodes], 'how': how, 'label': label, 'anchor': cp, 'index': idx}, truth)
            else:
                st.step()
                st.state((repr(nodes), label))
                one(lgr, model, name, nodes, label, None, 0, st,
                    {'rules': [nodes], 'how': how, 'label': label, 'anchor': None, 'index': 0}, truth)
                if shard[0] == 'seq1' or len(label) > 2 and shard[0] == 'seq2' and i % 4 == 0:
                    # a rule without anchor, as the condition of a code point or of a variant
                    for idx in range(len(label)):
                        st.step()
                        one(lgr, model, name, nodes, label, label[idx:idx + 1], idx, st,
                            {'rules': [nodes], 'how': how, 'label': label, 'anchor': label[idx:idx + 1], 'index': idx}, [])
        st.outcome((repr(nodes), truth))
        st.count('rules')
        if any(truth) and not all(truth):
            st.count('rules_discriminating')
    st.sample({'rule': rules[0], 'labels': len(labs)})


def replay(case, st):
    case = S.from_json(case)
    rules = [list(r) for r in case['rules']]
    lgr, model = build(rules, case['how'])
    n = case.get('n', 0)
    one(lgr, model, 'x%d' % n, rules[n], case['label'], case['anchor'], case['index'], st, case, [])
