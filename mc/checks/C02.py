# -*- coding: utf-8 -*-
"""
C02 - the variants computed for a label are exactly the labels obtained by replacing listed code points and sequences by
their variants under their conditions; the label itself is returned exactly once, last.

Space: family of LGRs (mc.families) with simple, multiple, reflexive, conditional, sequence-to-single, single-to-sequence
and self-overlapping variants x eligible labels up to a length. Oracle: Model.derivations: what is produced with every
condition of the permutation satisfied must be there (completeness), nothing which no permutation produces may be there
(soundness); without conditions on the overlapping entries the two coincide.
"""
import itertools

from mc import lgrspec as S
from mc.families import variant_specs, variant_spec, ctx_specs, ctx_spec, ctx_labels, deep_specs, deep_spec, deep_labels, large, A, B, C
from mc.model import Model

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = ('a case is one (LGR, eligible label) pair whose complete variant set is compared; non trivial = distinct variant '
        'sets with at least one variant')
BOUNDS = {'quick': 'menu of 7x5x4x3x3x2 LGRs, every eligible label over {a,b,c} of length 1-3; every subset of 7 overlapping entries (to length 3) x labels to length 4; 74 larger LGRs: sequences to length 7, labels to length 63, entries of every plane, dozens of variants',
          'thorough': 'menu of 10x5x6x3x3x2x3 LGRs, labels of length 1-3 and over {a,b} of length 4; the subsets with labels to length 5'}
ASSUMPTIONS = ['what happens to an entry whose own condition holds in the label but not in the partly substituted label is '
               'left open (both readings of RFC 7940 8.2 accepted)']


def shards(tier):
    k = 48 if tier == 'quick' else 192
    return [[tier, i, k] for i in range(k)]


def labels(tier):
    for k in (1, 2, 3):
        for l in itertools.product((A, B, C), repeat=k):
            yield l
    if tier != 'quick':
        for l in itertools.product((A, B), repeat=4):
            yield l


def one(lgr, model, label, st, case):
    der_strict = model.derivations(label, True)
    st.step(model.last_steps)
    der = model.derivations(label, False)
    for d in der:
        st.state((case['n'], d[0]))
    elig = {}

    def ok(w):
        if w not in elig:
            elig[w] = model.eligible(w, True)[0]
        return elig[w]
    must = {d[0] for d in der_strict if d[3] and d[0] != label and ok(d[0])}
    may = {d[0] for d in der if d[0] != label}
    got = [tuple(r[0]) for r in lgr.compute_label_disposition(label, collect_log=False, include_invalid=True)]
    st.evaluations += 1
    st.trace()

    def bad(key, what):
        st.violation(key, 'label %s: %s' % (S.hexs(label), what), case)
    h = lambda s: sorted(map(S.hexs, s))
    if not got or got[-1] != label:
        bad('original-last', 'the label itself does not come last: %r' % h(got))
    if got.count(label) != 1:
        bad('original-once', 'the label itself is returned %d times' % got.count(label))
    if len(set(got)) != len(got):
        bad('duplicates', 'a label is returned twice: %r' % h(got))
    gs = set(got) - {label}
    if must - gs:
        bad('missing', 'missing variants %r' % h(must - gs))
    if gs - may:
        bad('extra', 'labels which no variant mapping produces: %r' % h(gs - may))
    # every way of asking gives the same labels
    full = list(lgr.compute_label_disposition(label, collect_log=False, include_invalid=True, generate_chars=True))
    fs = {tuple(r[0]) for r in full}
    if fs != gs | {label} or tuple(full[-1][0]) != label:
        bad('with-characters', 'other labels when the characters are asked for: %r' % h(fs ^ (gs | {label})))
    for r in full:
        w = tuple(c for ch in r[6] for c in ch.cp)
        if w != tuple(r[0]) and tuple(r[0]) != label:
            bad('characters', 'characters of %s spell %s' % (S.hexs(r[0]), S.hexs(w)))
    # identity derivations of a label without any mapping are not listed by the implementation: compare the others
    dw = {(d[0], d[1], d[4]) for d in der_strict if d[3] and d[0] != label and ok(d[0])}
    dg = {(tuple(r[0]), frozenset(r[4]), tuple(ch.cp for ch in r[6])) for r in full if tuple(r[0]) != label}
    if dw - dg:
        bad('derivations', 'ways of making a variant which are not reported: %r' % sorted(dw - dg, key=repr)[:3])
    dm = {(d[0], d[1], d[4]) for d in der}
    if dg - dm:
        bad('derivations-extra', 'reported ways of making a variant which do not exist: %r' % sorted(dg - dm, key=repr)[:3])
    # selected labels only
    some = sorted(gs)
    other = label + (0x7A,)
    for asked in ([], [other], some[:1], some[-1:], some[:2] + [label], some[::2], [other] + some[1:]):
        sel = [tuple(r[0]) for r in lgr.compute_label_disposition(label, collect_log=False, include_invalid=True, with_labels=asked)]
        if sel[-1] != label or sorted(sel[:-1]) != sorted(w for w in set(asked) & gs if w != label):
            bad('with-labels', 'asking for %r only returns %r' % (h(asked), h(sel)))
        if not gs:
            break
    if gs:
        st.outcome((case['n'], label, sorted(gs)))
        st.count('variants', len(gs))
    st.count('labels')


def run_shard(shard, st):
    tier, k, mod = shard
    menus, specs = variant_specs(tier)
    for n in range(k, len(specs), mod):
        sp = variant_spec(menus, specs[n], n=n)
        how = 'xml' if n % 7 == 0 else 'api'
        lgr, model = S.build(sp, unidb=S.icu_db(), how=how), Model(sp)
        for label in labels(tier):
            if not model.eligible(label)[0]:
                continue
            one(lgr, model, label, st, {'spec': sp, 'label': label, 'how': how, 'n': n})
    specs, labs = ctx_specs(tier), [l for l in ctx_labels(tier) if len(l) < 4 or tier != 'quick']
    for n in range(k, len(specs), mod):
        sp = ctx_spec(specs[n])
        lgr, model = S.build(sp, unidb=S.icu_db()), Model(sp)
        for label in labs:
            if model.eligible(label)[0]:
                one(lgr, model, label, st, {'spec': sp, 'label': label, 'how': 'api', 'n': 'ctx%d' % n})
    specs, labs = deep_specs(tier), deep_labels(tier)
    for n in range(k, len(specs), mod):
        sp = deep_spec(specs[n])
        lgr, model = S.build(sp, unidb=S.icu_db()), Model(sp)
        for label in labs:
            if model.eligible(label)[0]:
                one(lgr, model, label, st, {'spec': sp, 'label': label, 'how': 'api', 'n': 'deep%d' % n})
    for n, (sp, labs) in enumerate(large()):
        if n % mod == k:
            how = 'xml' if n % 2 else 'api'
            lgr, model = S.build(sp, unidb=S.icu_db(), how=how), Model(sp)
            for label in labs:
                if model.eligible(label)[0]:
                    one(lgr, model, label, st, {'spec': sp, 'label': label, 'how': how, 'n': 'large%d' % n})
    st.sample({'lgr': [[i['cp'], [v['cp'] for v in i['vars']]] for i in sp['items']]})


def replay(case, st):
    case = S.from_json(case)
    sp = S.unjson_spec(case['spec'])
    one(S.build(sp, unidb=S.icu_db(), how=case['how']), Model(sp), case['label'], st, case)
