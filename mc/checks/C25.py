# -*- coding: utf-8 -*-
"""
C25 - harmonising LGRs makes the variant sets which they share agree.

Space: every pair (triple, with a root zone LGR) of LGRs made of a subset of some nodes (code points, sequences, a code point of a range) and a partition of it in variant
sets, with attributes given by position. Oracle: the connected components of the union of the relations.
"""
import itertools

from mc import lgrspec as S
from mc.common import digest

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = 'a case is one pair or triple of LGRs harmonised; non trivial = distinct results'
A, B, C, D, E = (0x61,), (0x62,), (0x63,), (0x64,), (0x65,)
AB, BA = (0x61, 0x62), (0x62, 0x61)
# kind: (nodes, with a root zone LGR, families of attributes)
QUICK = [((A, B, C, D), False, 3), ((A, B, AB), True, 2), ((AB, BA, D, E), False, 1)]
THOROUGH = QUICK + [((A, B, C, D, AB), False, 1), ((A, B, C, AB), True, 1), ((A, BA, AB, D, E), False, 1)]
BOUNDS = {'quick': 'every pair of symmetric and transitive relations over subsets of 4 nodes (twice), every triple over 3 nodes, in up to 3 dressings (types, conditions of code points, ranges, identity mappings, versions)',
          'thorough': 'every pair over 5 nodes (twice), every triple over 4 nodes'}
ASSUMPTIONS = ['the LGRs are symmetric and transitive; variants have no conditions']
OOR = 'out-of-repertoire'


def partitions(nodes):
    if not nodes:
        yield []
        return
    head, rest = nodes[0], nodes[1:]
    for p in partitions(rest):
        yield [[head]] + p
        for i in range(len(p)):
            yield p[:i] + [[head] + p[i]] + p[i + 1:]


def relations(nodes):
    """Every partition of every subset of the nodes."""
    out = []
    for n in range(len(nodes) + 1):
        for sub in itertools.combinations(nodes, n):
            out += [[list(map(list, b)) for b in p] for p in partitions(list(sub))]
    return out


def families(tier):
    return QUICK if tier == 'quick' else THOROUGH


def shards(tier):
    out = []
    for k, (nodes, rz, dress) in enumerate(families(tier)):
        n = len(relations(nodes))
        per = max(1, 400 // n) if not rz else 1
        for d in range(dress):
            out += [{'family': k, 'dress': d, 'first': [i, min(n, i + per)]} for i in range(0, n, per)]
    return out


def make(rel, dress, which):
    from lgr.core import LGR
    from lgr.metadata import Version
    lgr = LGR('h%d' % which)
    lgr.add_reference('ref', ref_id='7')
    lgr.add_rule(S.rule_obj('w', [('behind', (('char', A, None),)), ('anchor',)]))
    lgr.rules_xml.append('<rule name="w"/>')
    comment = (None, 'x', 'y - Harmonized')[(dress + which) % 3]
    if which or dress != 1:
        lgr.metadata.version = Version('1', comment)
    nodes = sorted({tuple(n) for block in rel for n in block})
    for i, n in enumerate(nodes):
        lgr.add_cp(list(n), comment='c%d%d' % (i, which) if dress else None, ref=['7'], tag=['t'] if dress and len(n) == 1 else None, when='w' if n == C and which and dress == 2 else None)
    lgr.add_range(0x70, 0x72, tag=['t'])
    if dress == 2:
        lgr.add_range(0x66, 0x68)
    k = 0
    for block in rel:
        for a in block:
            for b in block:
                if a != b or (dress == 1 and which and len(a) == 1) or (dress == 2 and not which):
                    k += 1
                    lgr.add_variant(list(a), list(b), variant_type=[('allocatable', 'blocked', None)[(k + which) % 3], 'id'][a == b], comment='v%d' % k if dress else None)
    return lgr


def entries(lgr):
    out = {}
    for c in lgr.repertoire.all_repertoire():
        out[c.cp] = ((c.comment, tuple(c.tags), tuple(c.references), c.when, c.not_when), {v.cp: (v.type, v.when, v.not_when, v.comment, tuple(v.references)) for v in c.get_variants()})
        assert len(out[c.cp][1]) == len(list(c.get_variants()))
    return out


def expected(rels):
    """The components of the union of the relations."""
    comp = {}
    for rel in rels:
        for block in rel:
            merged = {tuple(n) for n in block}
            for n in list(merged):
                merged |= comp.get(n, set())
            for n in merged:
                comp[n] = merged
    return comp


def check(rels, dress, st, copy=True):
    from lgr.tools.harmonize import harmonize
    case = {'rels': rels, 'dress': dress, 'copy': copy}
    lgrs = [make(r, dress, i) for i, r in enumerate(rels)]
    before = [S.snapshot(l) for l in lgrs]
    given = [entries_expanded(r, dress, i) for i, r in enumerate(rels)]
    h1, h2, (rev1, rev2) = harmonize(*lgrs, **({} if copy else {'_copy': False}))
    st.step()
    st.trace()
    st.evaluations += 1
    bad = lambda key, what: st.violation(key, what, case)
    after = [S.snapshot(l) for l in lgrs]
    if copy and before != after or not copy and before[2:] != after[2:]:
        bad('inputs', 'an LGR which is harmonised changes: %r' % [S.diff_snap(b, a) for b, a in zip(before, after)])
    if not copy and (h1 is not lgrs[0] or h2 is not lgrs[1]):
        bad('inputs', 'the LGRs are not updated')
    comp = expected(rels)
    for which, h in enumerate((h1, h2)):
        got, old = entries(h), given[which]
        own = {tuple(n) for b in rels[which] for n in b}
        want = set(old) | set().union(*[comp[n] for n in own]) if own else set(old)
        if set(got) != want:
            bad('repertoire', 'LGR %d has %r instead of %r' % (which + 1, sorted(got), sorted(want)))
            continue
        for n, (attrs, variants) in got.items():
            if n in old:
                if attrs != old[n][0]:
                    bad('lost', '%r of LGR %d is %r, was %r' % (n, which + 1, attrs, old[n][0]))
                for v, props in old[n][1].items():
                    if variants.get(v) != props:
                        bad('lost', 'variant %r of %r of LGR %d is %r, was %r' % (v, n, which + 1, variants.get(v), props))
            expect = set(comp.get(n, ())) - {n} | ({n} if n in old and n in old[n][1] or n not in old else set())
            if set(variants) != expect:
                bad('sets', 'variants of %r in LGR %d are %r instead of %r' % (n, which + 1, sorted(variants), sorted(expect)))
            for v, (typ, *rest) in variants.items():
                if (n not in old or v not in old[n][1]) and (typ != (OOR if n == v else 'blocked') or any(rest[:2])):
                    bad('type', 'new variant %r of %r in LGR %d is %r' % (v, n, which + 1, (typ, rest)))
        b, a = before[which], S.snapshot(h)
        for key in ('rules', 'rules_xml', 'classes', 'actions', 'refs', 'name'):
            if b[key] != a[key]:
                bad('lost', '%s of LGR %d change: %r, %r' % (key, which + 1, b[key], a[key]))
        bm, am = list(b['meta']), list(a['meta'])
        if bm[0]:
            c = bm[0][1] or ''
            bm[0] = (bm[0][0], c if c.endswith(' - Harmonized') else c + ' - Harmonized')
        if bm != am:
            bad('meta', 'metadata of LGR %d is %r instead of %r' % (which + 1, am, bm))
    if len(rels) == 2:
        n1, n2 = set(given[0]), set(given[1])
        if (set(rev1), set(rev2)) != (n1 - n2, n2 - n1):
            bad('review', 'code points to review are %r and %r' % (rev1, rev2))
    got = entries(h1), entries(h2)
    st.outcome(digest(sorted((repr(e) for e in got))))
    st.state(digest((sorted(got[0].items(), key=repr), sorted(got[1].items(), key=repr))))
    # once more changes nothing
    if copy and len(rels) == 2:
        again = harmonize(h1, h2)
        st.step()
        st.trace()
        st.evaluations += 1
        if (entries(again[0]), entries(again[1])) != got:
            bad('again', 'harmonising again changes the LGRs')


def entries_expanded(rel, dress, which):
    lgr = make(rel, dress, which)
    lgr.expand_ranges()
    return entries(lgr)


def run_shard(shard, st):
    nodes, rz, _ = families(st.tier)[shard['family']]
    rels = relations(nodes)
    for i in range(*shard['first']):
        for j, other in enumerate(rels):
            for third in (rels if rz else [None]):
                check([rels[i], other] + ([third] if rz else []), shard['dress'], st, copy=(i + j) % 2 == 0 or shard['dress'] == 0)
        st.sample({'rels': [rels[i], other], 'dress': shard['dress']})


def replay(case, st):
    check(case['rels'], case['dress'], st, case['copy'])
