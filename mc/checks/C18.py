# -*- coding: utf-8 -*-
"""
C18 - symmetry, transitivity and condition validation are exact.

Space: every variant relation over small sets of nodes (code points, a sequence, a code point of a range, a code point which is
not in the LGR), every set of conditioned variants between two nodes (with a third one), every history of validations with
different options on one LGR. Oracle: the definitions, over the list of variants.
"""
import itertools

from mc import lgrspec as S
from mc.families import shapes

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = 'a case is one LGR validated with one set of options; non trivial = distinct reports'
A, B, C, D, R = (0x61,), (0x62,), (0x63,), (0x64,), (0x71,)
AB = (0x61, 0x62)
CONDS = [(None, None), ('w', None), (None, 'w'), ('nope', None), (None, 'nope'), ('v', None)]
# family: (nodes of the repertoire, other nodes which are only targets, reflexive edges too)
GRAPHS = [((A, B, AB), (D,), True), ((A, B, C), (), True), ((A, B, C, AB), (), True), ((A, B), (R, D), True), ((A, AB, (0x61, 0x62, 0x61)), ((0x64, 0x65),), True)]
BOUNDS = {'quick': 'every relation of %d families of 3 or 4 nodes; lines, stars, cycles and (nearly) complete relations over 6 nodes; every pair of sets of conditioned variants between two nodes, with a third; histories of validations '
                   'of length <= 3' % len(GRAPHS),
          'thorough': 'every relation over 4 nodes and one target (2^20); conditioned relations over 3 nodes'}
BIG = ((A, B, C, AB), (D,), True)
ASSUMPTIONS = ['entries of the reports are compared as sets (a missing variant implied twice may be listed once or twice)']
OPTIONS = [{}, {'ignore_rules': True}, {'rfc7940': True}, {'other': 1, 'ignore_rules': False}]


# relations over many nodes
MANY = [(A, B, AB, C, (0x3B1,), (0x10428,)), ((0x3B2,), (0x3B1,), (0x10428,), B, (0x66,), AB)]


def edges(fam):
    nodes, others, reflexive = fam
    return [(a, b) for a in nodes for b in nodes + others if reflexive or a != b]


def make(variants, how=0):
    """
    :param variants: list of (char, variant, when, not_when).
    :param how: order of the definitions.
    """
    from lgr.core import LGR
    from lgr.rule import Rule
    from lgr.matcher import AnchorMatcher, LookBehindMatcher, CharMatcher
    lgr = LGR('v')
    for n in ('w', 'v'):
        r = Rule(name=n)
        lb = LookBehindMatcher()
        lb.add_child(CharMatcher([0x61]))
        r.add_child(lb)
        r.add_child(AnchorMatcher())
        lgr.add_rule(r)
    nodes = sorted({A, B, C, AB} | {v[0] for v in variants})
    for n in (nodes if how == 0 else nodes[::-1]):
        lgr.add_cp(list(n))
    lgr.add_range(0x70, 0x72)
    for a, b, w, n in (variants if how == 0 else variants[::-1]):
        lgr.add_variant(list(a), list(b), variant_type='x', when=w, not_when=n)
    return lgr


def expected(variants, ignore):
    inside = {A, B, C, AB, (0x70,), (0x71,), (0x72,)} | {v[0] for v in variants}
    out = {}
    for v in variants:
        out.setdefault(v[0], []).append(v)
    sym, tra, con = set(), set(), set()
    tra_ok = True
    for a, b, w, n in variants:
        if b not in inside:
            sym.add((a, b, w, n, 'not-in-repertoire', None, None))
            tra_ok = False
        else:
            rev = [v for v in out.get(b, ()) if v[1] == a]
            if not rev:
                sym.add((a, b, w, n, 'missing-symmetric-variant', None, None))
            elif not ignore:
                if w and not any(v[2] == w for v in rev):
                    sym.add((a, b, w, n, 'variant-contextual-rule-missing', 'when', w))
                elif n and not any(v[3] == n for v in rev):
                    sym.add((a, b, w, n, 'variant-contextual-rule-missing', 'not-when', n))
            for _, c, w2, n2 in out.get(b, ()):
                if c != a and not any(v[1] == c for v in out.get(a, ())):
                    tra.add((a, c, w2, n2))
        for kind, x in (('when', w), ('not-when', n)):
            if x is not None and x not in ('w', 'v'):
                con.add((a, b, w, n, kind, x))
    return (not sym, sym), (tra_ok and not tra, tra), (not con, con)


def variant_sets(lgr, variants, force):
    """What is reached from each code point through variants (those of the repertoire, or all), sorted."""
    inside = [c.cp for c in lgr.repertoire.all_repertoire()]
    sets = set()
    for c in inside:
        found, todo = {c}, [c]
        while todo:
            a = todo.pop()
            new = {v[1] for v in variants if v[0] == a and (force or v[1] in inside)} - found
            found |= new
            todo.extend(new)
        if len(found) > 1:
            sets.add(tuple(sorted(found)))
    return sorted(sets)


def observed(lgr, options):
    from lgr.validate import check_symmetry, check_transitivity, check_conditional_variants
    ok, r = check_symmetry(lgr, options)
    sym = (ok, {(e['char'].cp, e['variant'].cp, e['variant'].when, e['variant'].not_when, e['type'], e['rule_type'], e['rule']) for e in r['repertoire']})
    ok, r = check_transitivity(lgr, options)
    tra = (ok, {(e['char'].cp, e['variant'].cp, e['variant'].when, e['variant'].not_when) for e in r['repertoire']})
    ok, r = check_conditional_variants(lgr, options)
    con = (ok, {(e['char'].cp, e['variant'].cp, e['variant'].when, e['variant'].not_when, e['rule_type'], e['rule']) for e in r['repertoire']})
    return sym, tra, con


def run(variants, options, st, how=0):
    case = {'kind': 'one', 'variants': variants, 'options': options, 'how': how}
    lgr = make(variants, how)
    st.step()
    st.evaluations += 1
    st.trace()
    got = observed(lgr, options)
    want = expected(variants, bool(options.get('ignore_rules')))
    for name, g, w in zip(('symmetry', 'transitivity', 'conditions'), got, want):
        if g != w:
            st.violation(name, '%s of %r: got %r, want %r' % (name, variants, g, w), case)
    for force in (False, True):
        got = [tuple(s) for s in lgr.repertoire.get_variant_sets(force=force)]
        exp = variant_sets(lgr, variants, force)
        if got != exp:
            st.violation('sets', 'the variant sets of %r are %r instead of %r%s' % (variants, got, exp, ' (all)' if force else ''), case)
    st.outcome(sorted(map(repr, want)) if len(variants) < 6 else tuple(map(repr, (w[0] for w in want))))
    res = lgr.metadata.rfc7940_checks.test_result
    basic = not any(e[4] != 'variant-contextual-rule-missing' for e in want[0][1])
    for name, w in (('basic_symmetry', basic), ('basic_transitivity', not want[1][1])):
        if res.get(name) is not w:
            st.violation('recorded', '%s is recorded as %r instead of %r for %r' % (name, res.get(name), w, variants), case)
    if basic and not options.get('ignore_rules') and res.get('strict_symmetry') is not want[0][0]:
        st.violation('recorded', 'strict symmetry is recorded as %r for %r' % (res.get('strict_symmetry'), variants), case)


def graph(fam, mask):
    return [(a, b, None, None) for i, (a, b) in enumerate(edges(fam)) if mask >> i & 1]


def cond_sets(extra=()):
    """Sets of conditioned variants from one node to another."""
    out = []
    for k in range(0, 4):
        for sub in itertools.combinations(CONDS, k):
            out.append(sub)
    return out


def cond_cases(tier):
    small = [s for s in cond_sets() if len(s) < 3]
    for x in cond_sets():
        for y in cond_sets():
            yield [(A, B) + c for c in x] + [(B, A) + c for c in y]
    for x, y in itertools.product(small, repeat=2):
        # a third node, a reflexive variant and a sequence
        yield [(A, A) + c for c in x] + [(A, B) + c for c in y] + [(B, A) + c for c in y]
        yield [(A, B) + c for c in x] + [(B, C) + c for c in y] + [(C, B, 'w', None)]
        yield [(A, AB) + c for c in x] + [(AB, A) + c for c in y]
        yield [(A, D) + c for c in x] + [(A, R) + c for c in y]
    if tier != 'quick':
        one = [s for s in cond_sets() if len(s) < 2]
        for t in itertools.product(one, repeat=6):
            yield [e + c for e, s in zip(((A, B), (B, A), (B, C), (C, B), (A, C), (C, A)), t) for c in s]


# -- histories of complete validations ---------------------------------------------------------------------------------------

HIST = [[(A, B, None, None), (B, A, None, None)], [(A, B, 'w', None)], [(A, B, None, None), (B, C, 'nope', None), (B, A, None, None)],
        [(A, D, None, None), (AB, A, 'w', None), (A, AB, None, None)]]
CALLS = [(i, o) for i in range(2) for o in range(len(OPTIONS))]


def with_db(variants):
    lgr = make(variants)
    lgr.unicode_database = S.icu_db()
    return lgr


def run_history(pair, calls, st):
    from lgr.validate import validate_lgr
    case = {'kind': 'history', 'pair': pair, 'calls': calls}
    lgrs = [with_db(HIST[i]) for i in pair]
    before = [S.snapshot(l) for l in lgrs]
    for k, (i, o) in enumerate(calls):
        st.step()
        st.evaluations += 1
        opt = dict(OPTIONS[o], unidb=S.icu_db())
        got = canon(validate_lgr(lgrs[i], opt))
        want = alone(pair[i], o)
        st.outcome(('history', repr(got)))
        if got != want:
            return st.violation('history', 'validation %d of %r differs from the same one alone: %r' % (
                k, calls, [p for p in zip(got, want) if p[0] != p[1]][:2]), case)
        if S.snapshot(lgrs[i]) != before[i]:
            return st.violation('altered', 'validating alters the LGR: %r' % S.diff_snap(before[i], S.snapshot(lgrs[i])), case)
        v = expected(HIST[pair[i]], bool(opt.get('ignore_rules')))
        names = dict(got)
        for name, w in zip(('check_symmetry', 'check_transitivity', 'check_conditional_variants'), v):
            if name not in names or len(w[1]) and 'repertoire' not in names[name]:
                st.violation('missing', 'no result of %s' % name, case)
    st.trace()


def alone(i, o, memo={}):
    from lgr.validate import validate_lgr
    if (i, o) not in memo:
        memo[i, o] = canon(validate_lgr(with_db(HIST[i]), dict(OPTIONS[o], unidb=S.icu_db())))
    return memo[i, o]


def canon(result):
    def c(x):
        if isinstance(x, dict):
            return repr(sorted((k, c(v)) for k, v in x.items()))
        if isinstance(x, (list, tuple)):
            return repr([c(v) for v in x])
        if hasattr(x, 'cp'):
            return repr((type(x).__name__, x.cp, getattr(x, 'when', None), getattr(x, 'not_when', None)))
        if isinstance(x, Exception):
            return type(x).__name__ + str(x)
        r = repr(x)
        return r.split(' at 0x')[0]
    return [(n, c(r)) for n, r in result]


# -- exploration ---------------------------------------------------------------------------------------------------------------

def shards(tier):
    out = [['graph', i, k, 8] for i in range(len(GRAPHS)) for k in range(8)]
    out += [['many', i, k, 8] for i in range(len(MANY)) for k in range(8)]
    out += [['cond', 0, k, 8] for k in range(8)] + [['history', 0, k, 8] for k in range(8)]
    if tier != 'quick':
        out += [['big', 0, k, 256] for k in range(256)]
        out += [['cond', 0, k, 64] for k in range(64)]
    return out


def run_shard(shard, st):
    kind, i, k, mod = shard
    if kind in ('graph', 'big'):
        fam = GRAPHS[i] if kind == 'graph' else BIG
        for mask in range(k, 2 ** len(edges(fam)), mod):
            st.state((kind, i, mask))
            g = graph(fam, mask)
            run(g, {}, st)
            if kind == 'graph':
                run(g, {'ignore_rules': True} if mask & 1 else None or {}, st, how=1)
    elif kind == 'many':
        for n, v in list(enumerate(shapes(MANY[i])))[k::mod]:
            st.state((kind, i, n))
            run([e + (None, None) for e in v], {'ignore_rules': True} if n & 1 else {}, st, n % 2)
    elif kind == 'cond':
        for n, v in enumerate(cond_cases(st.tier)):
            if n % mod == k:
                v = list(dict.fromkeys(v))
                st.state(('cond', n))
                for how, o in itertools.product((0, 1), OPTIONS[:2]):
                    run(v, o, st, how)
    else:
        n = 0
        for pair in itertools.combinations(range(len(HIST)), 2):
            for ln in range(1, 3 if st.tier == 'quick' else 4):
                for calls in itertools.product(CALLS, repeat=ln):
                    if n % mod == k:
                        st.state((pair, calls))
                        run_history(pair, calls, st)
                    n += 1
    if k == 0:
        st.sample({'shard': shard})


def replay(case, st):
    case = S.from_json(case)
    if case['kind'] == 'one':
        run([tuple(v) for v in case['variants']], case['options'], st, case['how'])
    else:
        run_history(tuple(case['pair']), case['calls'], st)
