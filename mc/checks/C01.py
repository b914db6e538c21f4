# -*- coding: utf-8 -*-
"""
C01 - a label belongs to the LGR exactly when it can be read, left to right, as a succession of listed code points and
sequences (longest first) whose conditions hold.

Space: every repertoire made from a menu of nested/overlapping entries (a, b, ab, abb, ba, c range...) where each entry is
absent, plain, conditional (when) or conditional (not-when) over a menu of context rules, and every label up to a length
over the alphabet {a,b,c,d} (d never listed). Oracle: Model.read/eligible.
"""
import itertools

from mc import lgrspec as S
from mc.families import CONDS, ctx_spec, deep_specs, deep_spec, deep_labels, large
from mc.model import Model

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = ('a case is one (repertoire, label) pair run through the eligibility test in all its variants; non trivial = '
        'distinct (result, parts, offending parts, disposition) observations per repertoire')
A, B, C, D = 0x61, 0x62, 0x63, 0x64

RULES = [
    ('afterA', [('behind', (('char', (A,), None),)), ('anchor',)]),
    ('start', [('behind', (('start',),)), ('anchor',)]),
    ('beforeB', [('anchor',), ('ahead', (('char', (B,), None),))]),
    ('between', [('behind', (('class', ('tag', 't'), None),)), ('anchor',), ('ahead', (('class', ('tag', 't'), None),))]),
    ('hasC', [('char', (C,), None)]),
    ('endsB', [('char', (B,), None), ('end',)]),
]
CTX = [None, (None, None), ('afterA', None), (None, 'afterA'), ('start', None), (None, 'beforeB')]
CTX2 = CTX + [('between', None), (None, 'between'), ('hasC', None)]
ACTIONS = [(), (S.action('invalid', match='hasC'),), (S.action('blocked', not_match='endsB'), S.action('invalid', match='hasC'))]

ENTRIES = {'quick': [((A,), CTX), ((B,), CTX[:5]), ((A, B), CTX), ((A, B, B), [None, (None, None), ('start', None), (None, 'afterA')]),
                     ((B, A), [None, (None, None), (None, 'start')]), ((C,), [None, (None, None)])],
           'thorough': [((A,), CTX2), ((B,), CTX2), ((A, B), CTX2), ((A, B, B), CTX), ((B, A), CTX), ((C,), [None, (None, None), ('between', None)]),
                        ((B, C, A), [None, (None, None), (None, 'start')])]}
MAXLEN = {'quick': 4, 'thorough': 5}
BOUNDS = {'quick': 'entries a,b,ab,abb,ba,c: 6x5x6x4x3x2 condition combinations; every label over {a,b,c,d} of length 1-2, '
                   '{a,b,c} of length 3, {a,b} of length 4 (5 in thorough); every subset of 7 overlapping entries (to length 3) x labels of length 2-5; 74 larger LGRs: sequences to length 7, labels to length 63, entries of every plane',
          'thorough': 'entries a,b,ab,abb,ba,c,bca: 9x9x9x6x6x3x3; labels as in quick'}
ASSUMPTIONS = ['conditions only refer to rules which exist (else the LGR is not valid)']


def combos(tier):
    return list(itertools.product(*[range(len(c)) for _, c in ENTRIES[tier]]))


def shards(tier):
    n = len(combos(tier))
    k = 32 if tier == 'quick' else 256
    return [[tier, i, k] for i in range(k)] if n > k else [[tier, 0, 1]]


def labels(n):
    for k in range(1, n + 1):
        for l in itertools.product((A, B, C, D) if k < 3 else (A, B, C) if k < 4 else (A, B), repeat=k):
            yield l


def make(tier, idx, n):
    items = []
    for (cp, menu), j in zip(ENTRIES[tier], idx):
        if menu[j] is None:
            continue
        items.append(S.char(cp, when=menu[j][0], not_when=menu[j][1], tags=('t',) if len(cp) == 1 else ()))
    if n % 3 == 1:
        items.reverse()          # the definition order must not matter
    return S.spec(items, rules=RULES, actions=ACTIONS[n % len(ACTIONS)])


def one(lgr, model, label, st, case):
    want = model.eligible(label)
    st.evaluations += 1
    st.trace()
    got = lgr.test_label_eligible(label, collect_log=False)
    ok = (bool(got[0]), list(got[1]), [(c, list(r) if r else None) for c, r in got[2]], got[3], got[4])
    exp = (want[0], want[1], want[2], want[3], want[4])
    if ok != exp:
        st.violation('eligibility', 'label %s: implementation says %r, model says %r' % (S.hexs(label), ok, exp), case)
    return exp


def one_full(lgr, model, label, st, case):
    exp = one(lgr, model, label, st, case)
    g2 = lgr.test_label_eligible(list(label), generate_chars=True)
    st.evaluations += 2
    used = model.read(label)[3]
    if (bool(g2[0]), list(g2[1]), [(c, list(r) if r else None) for c, r in g2[2]], g2[3], g2[4]) != exp:
        st.violation('eligibility-log', 'label %s: with a log and characters: %r, model says %r' % (
            S.hexs(label), g2[:5], exp), case)
    if [c.cp for c in g2[6]] != used:
        st.violation('reading', 'label %s is read as %r, model says %r' % (
            S.hexs(label), [c.cp for c in g2[6]], used), case)
    wv = model.eligible(label, True)
    gv = lgr.test_label_eligible(label, is_variant=True, collect_log=False)
    if (bool(gv[0]), gv[3], gv[4]) != (wv[0], wv[3], wv[4]):
        st.violation('eligibility-variant', 'label %s as a variant: %r, model says %r' % (S.hexs(label), gv[:5], wv), case)


def run_shard(shard, st):
    tier, k, mod = shard
    allc = combos(tier)
    labs = list(labels(MAXLEN[tier]))
    for n in range(k, len(allc), mod):
        sp = make(tier, allc[n], n)
        if not sp['items']:
            continue
        how = 'xml' if n % 5 == 0 else 'api'
        lgr, model = S.build(sp, unidb=S.icu_db(), how=how), Model(sp)
        st.count('repertoires')
        obs = []
        for label in labs:
            st.state((n, label))
            st.step()
            f = one_full if (len(label) <= 2 or n % 16 == 0) else one
            r = f(lgr, model, label, st, {'spec': sp, 'label': label, 'how': how})
            if r is not None:
                obs.append(r)
                st.count('eligible' if r[0] else 'not_eligible')
        st.outcome((n, obs))
    # conditions of entries around a sequence
    pairs = list(itertools.product(CONDS, CONDS))
    for n in range(k, len(pairs), mod):
        sp = ctx_spec(((None, None), (None, None), 0) + pairs[n])
        lgr, model = S.build(sp, unidb=S.icu_db()), Model(sp)
        st.count('repertoires')
        for size in range(1, 4 if tier == 'quick' else 5):
            for label in itertools.product((0x61, 0x62, 0x63), repeat=size):
                st.state(('ctx', n, label))
                st.step()
                r = (one_full if size <= 2 else one)(lgr, model, label, st, {'spec': sp, 'label': label, 'how': 'api'})
                st.outcome(('ctx', n, label, r))
    specs = [t for t in deep_specs('quick') if t[1] == 1]
    for n in range(k, len(specs), mod):
        sp = deep_spec(specs[n])
        lgr, model = S.build(sp, unidb=S.icu_db()), Model(sp)
        st.count('repertoires')
        for label in deep_labels('thorough'):
            st.state(('deep', n, label))
            st.step()
            r = (one_full if len(label) <= 3 else one)(lgr, model, label, st, {'spec': sp, 'label': label, 'how': 'api'})
            st.outcome(('deep', n, label, r))
    for n, (sp, labels_) in enumerate(large()):
        if n % mod == k:
            how = 'xml' if n % 2 else 'api'
            lgr, model = S.build(sp, unidb=S.icu_db(), how=how), Model(sp)
            st.count('repertoires')
            for label in labels_:
                for l in [label] + ([label[:-1], label + label[:1], label[1:]] if len(label) < 20 else []):
                    if l:
                        st.state(('large', n, l))
                        st.step()
                        st.outcome(('large', n, l, one_full(lgr, model, l, st, {'spec': sp, 'label': l, 'how': how})))
    st.sample({'repertoire': [i['cp'] for i in sp['items']], 'labels': len(labs)})


def replay(case, st):
    case = S.from_json(case)
    sp = S.unjson_spec(case['spec'])
    one_full(S.build(sp, unidb=S.icu_db(), how=case['how']), Model(sp), case['label'], st, case)
