# -*- coding: utf-8 -*-
"""
C06 - index labels identify exactly the labels which collide.

Part 1 (definition): over the family of C02 (overlapping sequences, conditions), the index label of every label of the bound is
compared with the one computed by the reference model over all readings; labels which are not in the LGR must be refused.
Part 2 (purpose): over every equivalence relation on a set of entries which cannot be read in two ways, every pair of labels:
same index label if and only if one is a variant of the other.
"""
import itertools

from mc import lgrspec as S
from mc.families import variant_specs, variant_spec, ctx_specs, ctx_spec, ctx_labels, deep_specs, deep_spec, deep_labels, large, A, B, C, X, Y
from mc.model import Model

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('a case is one (LGR, label) pair whose index label is compared, or one label whose collision class is compared; '
        'non trivial = distinct index labels different from the label')
BOUNDS = {'quick': 'the 7x5x4x3x3x2 family x every label over {a,b,c,x,z} of length 1-3; every condition on entries and variants around a sequence x labels to length 4; every subset of 7 overlapping entries x labels to length 4; 74 larger LGRs: sequences to length 7, dozens of partitions, labels to length 63, entries of every plane; all set partitions of 5 entries x labels of 1-3 entries',
          'thorough': 'the 10x5x6x3x3x2x3 family, labels to length 4 over {a,b,c}; all set partitions of 6 entries x labels of 1-3 entries'}
ASSUMPTIONS = ['nothing is said of the value of an index label when no condition-respecting reading exists']

Z = 0x7A
ENTRIES = [(A,), (C,), (Y,), (0x64, 0x65), (0x64, 0x66, 0x62), (0xE9,)]
TYPES = ['blocked', 'allocatable', None]


def label_pool(tier):
    alphabet = (A, B, C, X, Z)
    for k in (1, 2, 3):
        for l in itertools.product(alphabet if k < 3 else (A, B, C, X), repeat=k):
            yield l
    if tier != 'quick':
        for l in itertools.product((A, B, C), repeat=4):
            yield l


def ask(lgr, label):
    from lgr.exceptions import NotInLGR
    try:
        return lgr.generate_index_label(label)
    except NotInLGR:
        return None


def one(lgr, model, label, st, case):
    got = ask(lgr, label)
    want = model.index_label(label) if model.eligible(label)[0] else None
    st.step()
    st.trace()
    st.evaluations += 1
    if got != want:
        name = lambda w: 'refused' if w is None else S.hexs(w)
        st.violation('refused' if want is None else 'index', 'index of %s: %s instead of %s' % (S.hexs(label), name(got), name(want)), case)
    if want is not None and want != label:
        st.outcome((label, want))
        # on an LGR which is not transitive, the index may be indexed again as many times as asked
        twice = model.index_label(want) if model.eligible(want)[0] else want
        thrice = model.index_label(twice) if model.eligible(twice)[0] else twice
        again = lgr.generate_index_label(label, max_recursion=1), lgr.generate_index_label(label, max_recursion=2)
        if again != (twice, thrice):
            st.violation('again', 'index of %s again: %s instead of %s' % (S.hexs(label), ', '.join(map(S.hexs, again)), ', '.join(map(S.hexs, (twice, thrice)))), case)
    return got


def partitions(items):
    """Every set partition."""
    if not items:
        yield []
        return
    head, rest = items[0], items[1:]
    for p in partitions(rest):
        yield [[head]] + p
        for i in range(len(p)):
            yield p[:i] + [[head] + p[i]] + p[i + 1:]


def equivalence_spec(classes, n):
    items = []
    for cl in classes:
        for e in cl:
            vs = [S.var(f, TYPES[(i + len(e)) % 3]) for i, f in enumerate(cl) if f != e]
            if n % 2 and len(cl) > 1:
                vs.insert(0, S.var(e, 'r'))         # reflexive mappings change nothing to collisions
            items.append(S.char(e, vs))
    if n % 3 == 0:
        items.reverse()
    return S.spec(items)


def collide(classes, n, st, tier):
    sp = equivalence_spec(classes, n)
    lgr = S.build(sp, unidb=S.icu_db(), how='xml' if n % 5 == 0 else 'api')
    entries = [e for cl in classes for e in cl]
    labels = {}
    for k in (1, 2, 3):
        for p in itertools.product(entries, repeat=k):
            labels[sum(p, ())] = p
    case = {'classes': classes, 'n': n}
    where = {e: i for i, cl in enumerate(classes) for e in cl}
    by_index, by_class = {}, {}
    for l, p in labels.items():
        st.step()
        idx = ask(lgr, l)
        by_index.setdefault(idx, set()).add(l)
        by_class.setdefault(tuple(where[e] for e in p), set()).add(l)
        st.state((n, l))
        if idx != l:
            st.outcome((l, idx))
    st.evaluations += len(labels)
    st.trace(len(labels))
    # every pair of labels: same index <=> same sequence of classes
    a, b = set(map(frozenset, by_index.values())), set(map(frozenset, by_class.values()))
    for s in sorted(a - b, key=sorted)[:3]:
        st.violation('collision', 'labels with the same index: %s; labels which are variants of the first: %s' % (
            [S.hexs(x) for x in sorted(s)],
            [S.hexs(x) for x in sorted(by_class[tuple(where[e] for e in labels[min(s)])])]), case)
    # the variants the code itself generates are those which share the index
    for l, p in labels.items():
        if len(p) > (2 if tier == 'quick' else 3):
            continue
        vs = {tuple(r[0]) for r in lgr.compute_label_disposition(l, include_invalid=True, collect_log=False)} | {l}
        same = by_index[ask(lgr, l)]
        st.evaluations += 1
        if vs != same:
            st.violation('variants-index', 'label %s: variants %s, labels with the same index %s' % (
                S.hexs(l), sorted(map(S.hexs, vs)), sorted(map(S.hexs, same))), case)


def shards(tier):
    k = 32 if tier == 'quick' else 128
    return [['def', i, k] for i in range(k)] + [['class', i, 16] for i in range(16)]


def run_shard(shard, st):
    kind, k, mod = shard
    if kind == 'def':
        menus, specs = variant_specs(st.tier)
        labels = list(label_pool(st.tier))
        for n in range(k, len(specs), mod):
            sp = variant_spec(menus, specs[n], n=n)
            how = 'xml' if n % 7 == 0 else 'api'
            lgr, model = S.build(sp, unidb=S.icu_db(), how=how), Model(sp)
            for label in labels:
                st.state((n, label))
                one(lgr, model, label, st, {'spec': sp, 'label': label, 'how': how})
        specs, labels = ctx_specs(st.tier), ctx_labels(st.tier)
        for n in range(k, len(specs), mod):
            sp = ctx_spec(specs[n])
            lgr, model = S.build(sp, unidb=S.icu_db()), Model(sp)
            for label in labels:
                st.state(('ctx', n, label))
                one(lgr, model, label, st, {'spec': sp, 'label': label, 'how': 'api'})
        specs, labels = deep_specs(st.tier), deep_labels(st.tier)
        for n in range(k, len(specs), mod):
            sp = deep_spec(specs[n])
            lgr, model = S.build(sp, unidb=S.icu_db()), Model(sp)
            for label in labels:
                st.state(('deep', n, label))
                one(lgr, model, label, st, {'spec': sp, 'label': label, 'how': 'api'})
        for n, (sp, labels) in enumerate(large()):
            if n % mod == k:
                how = 'xml' if n % 2 else 'api'
                lgr, model = S.build(sp, unidb=S.icu_db(), how=how), Model(sp)
                for label in labels:
                    st.state(('large', n, label))
                    one(lgr, model, label, st, {'spec': sp, 'label': label, 'how': how})
        st.sample({'lgr': [[i['cp'], [v['cp'] for v in i['vars']]] for i in sp['items']]})
    else:
        entries = ENTRIES[:5] if st.tier == 'quick' else ENTRIES
        for n, p in enumerate(partitions(entries)):
            if n % mod == k:
                collide(p, n, st, st.tier)


def replay(case, st):
    case = S.from_json(case)
    if 'classes' in case:
        collide([list(c) for c in case['classes']], case['n'], st, 'thorough')
    else:
        sp = S.unjson_spec(case['spec'])
        one(S.build(sp, unidb=S.icu_db(), how=case['how']), Model(sp), case['label'], st, case)
