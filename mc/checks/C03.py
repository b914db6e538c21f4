# -*- coding: utf-8 -*-
"""
C03 - the disposition of a label or variant is that of the first action, in order (declared ones, then the five defaults),
whose every condition holds; the reported index is that action's.

Space: every list of <= 2 actions from a pool covering the conditions match / not-match x any- / all- / only-variants
(alone, combined, repeated, overlapping), over LGRs whose mappings carry every mix of types (custom, standard, none,
reflexive), every label up to a length, plus every variant of it. Oracle: Model.apply_actions over the derivation(s).
"""
import itertools

from mc import lgrspec as S
from mc.families import RULES
from mc.model import Model

PROPERTY = 'C03'
LEVEL = 'model_checking'
RULE = ('a case is one (LGR, action list, label) triple: disposition and triggering action of the label and of each of its '
        'variants; non trivial = distinct (disposition, index) vectors')
A, B, C, X, Y, Z = [ord(c) for c in 'abcxyz']


def repertoires():
    xs = [S.char((X,)), S.char((Y,))]
    out = []
    out.append([S.char((A,), [S.var((X,), 't1'), S.var((Y,), 't2')]), S.char((B,), [S.var((X,), 't3')]), S.char((C,))] + xs)
    out.append([S.char((A,), [S.var((A,), 't1'), S.var((X,), 't2')]),
                S.char((B,), [S.var((B,), 't3', when='afterA'), S.var((Y,), 't1')]), S.char((C,), [S.var((C,), 't2')])] + xs)
    out.append([S.char((A,), [S.var((X,), 'blocked'), S.var((Y,), 'allocatable')]),
                S.char((B,), [S.var((X,), 'activated'), S.var((Y,), 'invalid'), S.var((B,), 'activated')]),
                S.char((C,), [S.var((C,), 'activated'), S.var((X,), 't1')])] + xs)
    out.append([S.char((A,), [S.var((X,), None), S.var((Y,), 't1')]), S.char((B,), [S.var((B,), None), S.var((X,), 't2')]),
                S.char((A, B), [S.var((X,), 't2'), S.var((A, B), 't3')]), S.char((C,), [S.var((Y,), 't1')])] + xs)
    # the same label reached through two conditional mappings of different types
    out.append([S.char((A,), [S.var((X,), 't1', when='start'), S.var((X,), 't2', not_when='start')]),
                S.char((B,), [S.var((B,), 't1', when='start'), S.var((B,), 't3', not_when='start')]), S.char((C,))] + xs)
    return out


POOL = [S.action('d0'),
        S.action('invalid', match='xx'), S.action('d1', match='endsB'), S.action('d2', not_match='endsB'),
        S.action('invalid', match='hasC'),
        S.action('d3', any=('t1',)), S.action('d4', any=('t2', 't3')), S.action('invalid', any=('t3',)),
        S.action('d5', all=('t1',)), S.action('d6', all=('t1', 't2')), S.action('d7', all=('t3', 't2', 'nosuch')),
        S.action('d8', only=('t1',)), S.action('d9', only=('t1', 't2')), S.action('invalid', only=('t2', 't3')),
        S.action('d10', match='endsB', any=('t1',)), S.action('d11', not_match='endsB', only=('t1', 't2', 't3')),
        S.action('d12', not_match='hasC', all=('t2', 't1')), S.action('valid', match='endsB', only=('t2',)),
        S.action('blocked', any=('blocked', 't1')), S.action('allocatable', all=('allocatable', 'activated')),
        S.action('d13', not_match='xx'), S.action('invalid', not_match='hasC', any=('t2',)),
        S.action('activated', only=('activated',)), S.action('d14', any=('nosuch',))]
POOL3 = POOL[:1] + POOL[2:4] + [POOL[5], POOL[8], POOL[11], POOL[14], POOL[15], POOL[7]]

BOUNDS = {'quick': '%d action lists of length 0-2 from %d actions, 5 repertoires, every eligible or declared-invalid label of '
                   'length 1-2 over {a,b,c} and 8 of length 3 (8 + 2 of them for lists of 2 and for 25 lists of 12-24)' % (1 + len(POOL) + len(POOL) ** 2, len(POOL)),
          'thorough': 'same, plus lists of 3 from %d, every label of length 1-3' % len(POOL3)}
ASSUMPTIONS = ['when several mappings yield the same label, the default result is one of those which the mappings justify '
               '(the ranking is not specified); the result with characters covers each of them']
SKIP = [(A,), (C,), (B, C), (C, C)]
LONG = [(A, A, B), (A, B, C), (B, A, B), (C, C, B), (A, B, A), (B, B, B), (C, A, B), (A, A, A)]


def lists(tier):
    out = [()] + [(i,) for i in range(len(POOL))] + list(itertools.product(range(len(POOL)), repeat=2))
    # long lists: every rotation of the pool, the actions which always apply at the end
    rest = [i for i in range(len(POOL)) if POOL[i]['disp'] not in ('d0', 'd13')]
    out += [tuple(rest[i:] + rest[:i]) + (20, 0) for i in range(len(rest))] + [tuple(rest[:i][::-1]) + (20,) for i in (11, 17, len(rest))]
    if tier != 'quick':
        out += [tuple(POOL.index(a) for a in t) for t in itertools.product(POOL3, repeat=3)]
    return out


def shards(tier):
    k = 24 if tier == 'quick' else 96
    return [[tier, r, i, k] for r in range(5) for i in range(k)]


def labels(tier, short=False):
    for k in (1, 2):
        for l in itertools.product((A, B, C), repeat=k):
            if not short or l not in SKIP:
                yield l
    for l in (LONG[:2] if short else LONG if tier == 'quick' else itertools.product((A, B, C), repeat=3)):
        yield l


def one(lgr, model, label, der, st, case):
    st.evaluations += 1
    st.trace()

    def bad(key, what):
        st.violation(key, 'label %s, actions %r: %s' % (S.hexs(label), [
            {k: v for k, v in a.items() if v} for a in model.actions], what), case)
    want = model.eligible(label)
    got = lgr.test_label_eligible(label, collect_log=False)
    obs = [(want[3], want[4])]
    if (bool(got[0]), got[3], got[4]) != (want[0], want[3], want[4]):
        bad('label', 'eligibility test says %r, model says %r' % ((got[0], got[3], got[4]), (want[0], want[3], want[4])))
    if not want[0]:
        st.outcome(obs)
        return
    by = {}
    for d in der:
        by.setdefault(d[0], set()).add((d[1], d[2]))
    allr = list(lgr.compute_label_disposition(label, collect_log=False, include_invalid=True))
    full = list(lgr.compute_label_disposition(label, collect_log=False, include_invalid=True, generate_chars=True))
    for r in allr + full:
        w = tuple(r[0])
        st.step()
        st.state((case['rep'], w, frozenset(r[4])))
        cand = set()
        e = model.eligible(w, w != label)
        for types, only in by.get(w, ()):
            if e[0]:
                cand.add((types,) + model.apply_actions(w, types, only if types else only))
            else:
                cand.add((types, 'invalid', e[4]))
        if w == label:
            cand.add((frozenset(), want[3], want[4]))
        obs.append((w, r[1], r[3]))
        if (frozenset(r[4]), r[1], r[3]) not in cand:
            bad('disposition', 'variant %s: types %r, disposition %r by action %r; the model allows %r' % (
                S.hexs(w), sorted(map(str, r[4])), r[1], r[3], sorted(cand, key=repr)))
    # invalid variants are left out unless asked for, nothing else is
    kept = [tuple(r[0]) for r in lgr.compute_label_disposition(label, collect_log=False)]
    exp = [tuple(r[0]) for r in allr if r[1] != 'invalid' or tuple(r[0]) == label]
    if kept != exp:
        bad('invalid-filter', 'without the invalid ones: %r instead of %r' % (kept, exp))
    summary, listed = lgr.compute_label_disposition_summary(label)
    if [tuple(r[0]) for r in listed] != kept or sum(summary.values()) != len(kept):
        bad('summary-filter', 'the summary without the invalid ones: %r (%r) instead of %r' % ([tuple(r[0]) for r in listed], dict(summary), kept))
    summary, listed = lgr.compute_label_disposition_summary(label, include_invalid=True)
    if [(tuple(r[0]), r[1], r[3]) for r in listed] != [(tuple(r[0]), r[1], r[3]) for r in allr]:
        bad('summary-list', 'the summary lists other results')
    cnt = {}
    for r in allr:
        cnt[r[1]] = cnt.get(r[1], 0) + 1
    if dict(summary) != cnt:
        bad('summary', 'summary %r instead of %r' % (dict(summary), cnt))
    st.outcome(obs)
    st.count('dispositions', len(allr))


def run_shard(shard, st):
    tier, r, k, mod = shard
    items = repertoires()[r]
    ders = {}
    ls = lists(tier)
    for n in range(k, len(ls), mod):
        sp = S.spec(items, rules=RULES, actions=[POOL[i] for i in ls[n]])
        how = 'xml' if n % 4 == 0 else 'api'
        lgr, model = S.build(sp, unidb=S.icu_db(), how=how), Model(sp)
        st.count('lgrs')
        for label in labels(tier, tier == 'quick' and len(ls[n]) > 1):
            if label not in ders:
                ders[label] = model.derivations(label, False)
            one(lgr, model, label, ders[label], st, {'spec': sp, 'label': label, 'how': how, 'rep': r})
    st.sample({'actions': [a['disp'] for a in sp['actions']]})


def replay(case, st):
    case = S.from_json(case)
    sp = S.unjson_spec(case['spec'])
    m = Model(sp)
    one(S.build(sp, unidb=S.icu_db(), how=case['how']), m, case['label'], m.derivations(case['label'], False), st, case)
