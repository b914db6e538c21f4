# -*- coding: utf-8 -*-
"""
C20 - populating variants makes the LGR symmetric and transitive.

Space: every variant relation over small sets of nodes (code points, sequences, a code point of a range, code points which are not
in the LGR), and every set of conditioned variants between two nodes, with a third; in two orders of definition. Oracle: the
closure computed over the plain list of variants.
"""
import itertools

from mc import lgrspec as S
from mc.families import shapes
from mc.common import DoesNotTerminate, StopShard, cpu_limit

PROPERTY = 'C20'
LEVEL = 'model_checking'
RULE = 'a case is one LGR populated; non trivial = distinct results'
A, B, C, D, E, R, Q = (0x61,), (0x62,), (0x63,), (0x64,), (0x65,), (0x71,), (0x73,)
AB = (0x61, 0x62)
ABA = (0x61, 0x62, 0x61)
DE = (0x64, 0x65)
CONDS = [(None, None), ('w', None), (None, 'w'), ('v', None), (None, 'v')]
# family: (nodes of the repertoire, other nodes which are only targets, reflexive edges too)
GRAPHS = [((A, B, C), (D,), False), ((A, B, C, AB), (), False), ((A, B), (D, DE), True), ((A, AB, ABA), (B,), False),
          ((A, B), (R, D), False), ((A,), (R, D, E, AB), True), ((A, AB), ((0x72,), (0x70,)), False), ((A, B, C, E), (), False), ((AB, C), (D, Q), False)]
BOUNDS = {'quick': 'every relation of at most 6 pairs (of all, thorough) in %d families of 3 to 5 nodes (up to 2^12 relations each); lines, stars, cycles and (nearly) complete relations over 6 nodes; every pair of sets of at most 3 conditioned variants between two nodes, '
                   'the same with a third node' % len(GRAPHS),
          'thorough': 'also every relation over 4 nodes with 2 targets missing (2^20) and conditioned relations over 3 nodes'}
BIG = ((A, B, C, AB), (D,), True)
ASSUMPTIONS = ['a variant without condition may be given the condition of its reverse (this is what the tool says it does); one with a condition is kept as it is',
               'an unconditional variant next to a conditional one of the same code point is ambiguous: only the closure is asserted for these']


# relations over many nodes
MANY = [(A, B, AB, C, (0x3B1,), (0x10428,)), ((0x3B2,), (0x3B1,), (0x10428,), B, (0x66,), AB)]


def edges(fam):
    nodes, others, reflexive = fam
    return [(a, b) for a in nodes for b in nodes + others if reflexive or a != b]


def make(variants, how=0, db=False):
    """:param variants: list of (char, variant, when, not_when)."""
    from lgr.core import LGR
    lgr = LGR('p')
    if db:
        lgr.unicode_database = S.icu_db()
    lgr.add_reference('ref', ref_id='7')
    for n in ('w', 'v'):
        lgr.add_rule(S.rule_obj(n, [('behind', (('char', A, None),)), ('anchor',)]))
    nodes = sorted({A, B} | {v[0] for v in variants})
    for n in (nodes if how == 0 else nodes[::-1]):
        lgr.add_cp(list(n), comment='c%d' % len(n), ref=['7'], tag=['t'] if len(n) == 1 else None, when='w' if n == C else None)
    lgr.add_range(0x70, 0x72, tag=['t'])
    lgr.add_range(0x31, 0x33)
    for i, (a, b, w, n) in enumerate(variants if how == 0 else variants[::-1]):
        lgr.add_variant(list(a), list(b), variant_type='x%d' % (i % 3) if i % 4 else None, when=w, not_when=n, comment='v%d' % i,
                        ref=['7'] if i % 2 else None)
    return lgr


def entries(lgr):
    """{(cp): (attributes, [variants])}"""
    out = {}
    for c in lgr.repertoire.all_repertoire():
        out[c.cp] = ((c.when, c.not_when, tuple(c.tags), tuple(c.references), c.comment),
                     [(v.cp, v.when, v.not_when, v.type, v.comment, tuple(v.references)) for v in c.get_variants()])
    return out


def components(cps, variants):
    comp = {c: {c} for c in cps}
    for a, b, _, _ in variants:
        if comp[a] is not comp[b]:
            u = comp[a] | comp[b]
            for c in u:
                comp[c] = u
    return comp


def run(variants, st, how=0, db=False):
    from lgr.validate import check_symmetry, check_transitivity
    case = {'variants': variants, 'how': how, 'db': db}
    st.step()
    st.evaluations += 1
    st.trace()
    lgr = make(variants, how, db)
    before = entries(lgr)
    snap0 = S.snapshot(lgr)
    try:
        with cpu_limit(10):
            lgr.populate_variants()
    except Exception as e:
        if isinstance(e, DoesNotTerminate):
            st.violation('endless', 'populating %r does not end' % (variants,), case)
            raise StopShard()
        where = 'range' if any(v[1][0] in range(0x70, 0x73) and len(v[1]) == 1 for v in variants) else 'other'
        return st.violation('fails:' + where, 'populating %r: %s %s' % (variants, type(e).__name__, e), case)
    after = entries(lgr)
    st.outcome(sorted((a, [v[:4] for v in x[1]]) for a, x in after.items()))
    pairs = {}
    for a, b, w, n in variants:
        pairs.setdefault((a, b), []).append((w, n))
    targets = {v[1] for v in variants}
    # code points
    if set(after) != set(before) | targets:
        return st.violation('code-points', 'populating %r adds %r, loses %r, misses %r' % (
            variants, set(after) - set(before) - targets, set(before) - set(after), targets - set(after)), case)
    for c in before:
        if after[c][0] != before[c][0]:
            st.violation('attributes', 'populating %r changes %r from %r to %r' % (variants, c, before[c][0], after[c][0]), case)
    for c in set(after) - set(before):
        if after[c][0] != (None, None, (), (), None):
            st.violation('attributes', 'populating %r adds %r with attributes %r' % (variants, c, after[c][0]), case)
    # variants: the closure, nothing else
    comp = components(after, variants)
    for a in after:
        want = {b for b in comp[a] if b != a or (a, a) in pairs}
        got = {v[0] for v in after[a][1]}
        if want != got:
            st.violation('closure', 'after populating %r the variants of %r are %r instead of %r' % (variants, a, sorted(got), sorted(want)), case)
        for b in want & got:
            new = [v for v in after[a][1] if v[0] == b]
            conditions(variants, pairs, a, b, [v for v in before.get(a, (0, []))[1] if v[0] == b], new,
                       [v for v in after[b][1] if v[0] == a], st, case)
    r1, r2 = check_symmetry(lgr, {'ignore_rules': True})[0], check_transitivity(lgr, None)[0]
    if not (r1 and r2):
        st.violation('verdict', 'after populating %r validation says symmetric: %r, transitive: %r' % (variants, r1, r2), case)
    # everything else is as it was
    snap1 = S.snapshot(lgr)
    other = [k for k in snap0 if k not in ('chars', 'iter', 'ranges', 'class_objs', 'types') and snap0[k] != snap1[k]]
    if other:
        st.violation('other', 'populating %r changes %r' % (variants, S.diff_snap({k: snap0[k] for k in other}, snap1)), case)
    tagged = {c for c in after if 't' in after[c][0][2]}
    if {(c,) for c in lgr.get_tag_classes()['t'].codepoints} != tagged:
        st.violation('tags', 'populating %r: the members of the tag are not the code points which carry it' % (variants,), case)
    for first, last in lgr.repertoire.ranges:
        if any(after[c,][1] or not (lgr.get_char(c).first_cp, lgr.get_char(c).last_cp) == (first, last) for c in range(first, last + 1)):
            st.violation('ranges', 'populating %r: the range %X-%X does not say what its code points are' % (variants, first, last), case)
    if {(0x31, 0x33)} - set(lgr.repertoire.ranges):
        st.violation('ranges', 'populating %r alters a range which has no variants' % (variants,), case)
    # again
    try:
        with cpu_limit(10):
            lgr.populate_variants()
    except Exception as e:
        return st.violation('twice', 'populating %r twice: %s %s' % (variants, type(e).__name__, e), case)
    snap2 = S.snapshot(lgr)
    if snap2 != snap1:
        st.violation('twice', 'populating %r twice changes %r' % (variants, S.diff_snap(snap1, snap2)), case)


def conditions(variants, pairs, a, b, old, new, reverse, st, case):
    """Variants from a to b: what there was, and what was added."""
    orig, rev = pairs.get((a, b), []), pairs.get((b, a), [])
    ambiguous = lambda cs: (None, None) in cs and len(cs) > 1
    if ambiguous(orig) or ambiguous(rev):
        return
    kept = 0
    for v in old:
        exact = v in new
        # a variant without condition may have got one of its reverse
        similar = [x for x in new if x[3:] == v[3:] and (x[1:3] in rev) and x[1:3] != (None, None)] if v[1:3] == (None, None) else []
        kept += bool(exact or similar)
        if not exact and len(similar) != 1:
            return st.violation('lost', 'populating %r: the variant %r of %r became %r' % (variants, v, a, new), case)
    keys = [v[1:3] for v in new]
    if len(set(keys)) != len(keys):
        st.violation('duplicate', 'populating %r: variants of %r: %r' % (variants, a, new), case)
    old_details = [v[3:] for v in old]
    for v in new:
        if v not in old and v[3:] not in old_details and v[3:] != ('blocked', None, ()):
            st.violation('type', 'populating %r adds to %r the variant %r' % (variants, a, v), case)
        if v[1:3] != (None, None) and v[1:3] not in orig and v[1:3] not in rev:
            st.violation('condition', 'populating %r adds to %r the variant %r under a condition which was not there' % (variants, a, v), case)
    # the condition of the reverse is there, unless there is another one of the same kind
    for w, n in rev:
        for kind, x in ((0, w), (1, n)):
            if x is not None and not any(v[1 + kind] for v in new):
                st.violation('rule-symmetry', 'populating %r: %r has the variants %r but is a variant under %r of %r' % (variants, a, new, (w, n), b), case)
            if x is not None and len({c[kind] for c in orig + rev} - {None}) == 1 and not any(v[1 + kind] == x for v in new):
                st.violation('rule-symmetry', 'populating %r: %r has the variants %r but is a variant under %r of %r' % (variants, a, new, (w, n), b), case)


def graph(fam, mask):
    return [(a, b, None, None) for i, (a, b) in enumerate(edges(fam)) if mask >> i & 1]


def cond_sets(n):
    return [sub for k in range(0, n + 1) for sub in itertools.combinations(CONDS, k)]


def cond_cases(tier):
    small = cond_sets(2)
    for x in cond_sets(3):
        for y in cond_sets(3):
            yield [(A, B) + c for c in x] + [(B, A) + c for c in y]
    # the code point is not there: with the reverse of a part of the conditions, or none
    for x in cond_sets(3):
        yield [(A, D) + c for c in x] + [(B, C, None, None)]
        for y in small:
            yield [(A, D) + c for c in x] + [(B, D) + c for c in y]
    for x, y in itertools.product(small, repeat=2):
        yield [(A, A) + c for c in x] + [(A, B) + c for c in y] + [(B, C, None, None)]
        yield [(A, B) + c for c in x] + [(B, C) + c for c in y] + [(C, B, 'w', None)]
        yield [(A, AB) + c for c in x] + [(AB, A) + c for c in y] + [(A, D, None, 'v')]
        yield [(A, D) + c for c in x] + [(B, D) + c for c in y]
        yield [(A, D) + c for c in x] + [(B, R) + c for c in y]
    if tier != 'quick':
        one = cond_sets(1)
        for t in itertools.product(one, repeat=6):
            yield [e + c for e, s in zip(((A, B), (B, A), (B, C), (C, B), (A, C), (C, A)), t) for c in s]


def shards(tier):
    out = [['graph', i, k, 8] for i in range(len(GRAPHS)) for k in range(8)]
    out += [['many', i, k, 8] for i in range(len(MANY)) for k in range(8)]
    out += [['cond', 0, k, 16] for k in range(16)]
    if tier != 'quick':
        out += [['big', 0, k, 256] for k in range(256)]
    return out


def run_shard(shard, st):
    kind, i, k, mod = shard
    if kind in ('graph', 'big'):
        fam = GRAPHS[i] if kind == 'graph' else BIG
        for mask in range(k, 2 ** len(edges(fam)), mod):
            if bin(mask).count('1') > 6 and st.tier == 'quick':
                continue
            st.state((kind, i, mask))
            run(graph(fam, mask), st, how=mask % 2, db=mask % 5 == 0)
    elif kind == 'many':
        for n, v in list(enumerate(shapes(MANY[i])))[k::mod]:
            st.state((kind, i, n))
            run([e + (None, None) for e in v], st, n % 2, n % 5 == 0)
    else:
        for n, v in enumerate(cond_cases(st.tier)):
            if n % mod == k:
                st.state(('cond', n))
                run(list(dict.fromkeys(v)), st, n % 2)
    if k == 0:
        st.sample({'shard': shard})


def replay(case, st):
    case = S.from_json(case)
    run([tuple(v) for v in case['variants']], st, case['how'], case['db'])
