# -*- coding: utf-8 -*-
"""
C19 - validation statistics count what is there.

Space: every subset of a menu of entries (in two orders of insertion), with every single edit applied afterwards (deletion,
partial deletion or expansion of a range, removal of a variant or a tag). Oracle: counting over the plain list of the entries.
"""
import itertools
import logging

from mc import lgrspec as S

PROPERTY = 'C19'
LEVEL = 'model_checking'
RULE = 'a case is one LGR (entries, then at most one edit); non trivial = distinct statistics'
A, B, C, D, X, Y = [ord(c) for c in 'abcdxy']
MENU = [
    S.char((A,), tags=('t1',)),
    S.char((B,), [S.var((X,), 't1')], tags=('t1', 't2')),
    S.char((C,), [S.var((C,), 'r'), S.var((X,), 't1', when='w'), S.var((X,), 't2', not_when='w'), S.var((Y,))]),
    S.char((D,), [S.var((D,), 'r')], tags=('t2',)),
    S.char((X,), [S.var((B,), 't1'), S.var((C,), 't1'), S.var((A, B), 't2')]),
    S.char((A, B), [S.var((X,), 't1')]),
    S.char((A, B, C), [S.var((A, B, C), 'r'), S.var((Y, X), 't1')]),
    S.char((X, Y, X)),
    S.rng(0x70, 0x72, tags=('t2',)),
    S.rng(0x30, 0x34),
    S.rng(0x37, 0x39, tags=('t1', 't3')),
]
MENU2 = MENU + [S.char((Y,), [S.var((Y, Y), 't1'), S.var((Y, Y), 't2', when='w')]), S.char((Y, Y), [S.var((Y,), 't9')])]
EDITS = [None, ('delcp', (A,)), ('delcp', (A, B)), ('delcp', (C,)), ('delrange', 0x70, 0x72), ('expand', 0x37, 0x39), ('expandall',),
         ('delcp', (0x31,)), ('delvar', (B,), (X,)), ('delvar', (C,), (X,)), ('deltag', 't1'), ('addvar', (A,), (B,), 't7'),
         ('addcp', (0x65, 0x66))]
BOUNDS = {'quick': 'every subset of %d entries, two orders, each with every one of %d edits (in turn)' % (len(MENU), len(EDITS)),
          'thorough': 'every subset of %d entries, two orders, with every edit' % len(MENU2)}
ASSUMPTIONS = ['two variants of one entry which differ only in their condition are one mapping and two variants of their type, as the report presents them',
               'when several ranges (sequences) are the largest, any of them may be named']


def model(items):
    """Entries as a plain list of [kind, cps, tags, variants]."""
    out = []
    for it in items:
        if 'first' in it:
            out.append(['range', tuple(range(it['first'], it['last'] + 1)), it['tags'], []])
        else:
            out.append(['char', it['cp'], it['tags'], [(v['cp'], v['type']) for v in it['vars']]])
    return out


def edit_model(m, e):
    """The list after the edit, or None when the edit is not possible."""
    if e is None:
        return m
    find = lambda cp: [x for x in m if x[0] == 'char' and x[1] == cp]
    holding = lambda cps: [x for x in m if x[0] == 'range' and set(cps) <= set(x[1])]
    if e[0] == 'delcp':
        if len(e[1]) == 1 and holding(e[1]):
            x = holding(e[1])[0]
            parts = [p for p in (tuple(c for c in x[1] if c < e[1][0]), tuple(c for c in x[1] if c > e[1][0])) if p]
            rest = [['range' if len(p) > 1 else 'char', p, x[2], []] for p in parts]
            return [y for y in m if y is not x] + rest
        return [x for x in m if x not in find(e[1])] if find(e[1]) else None
    if e[0] == 'delrange':
        return [x for x in m if x not in holding((e[1], e[2]))] if holding((e[1], e[2])) else None
    if e[0] in ('expand', 'expandall'):
        xs = holding((e[1], e[2])) if e[0] == 'expand' else [x for x in m if x[0] == 'range']
        if e[0] == 'expand' and not xs:
            return None
        return [x for x in m if x not in xs] + [['char', (c,), x[2], []] for x in xs for c in x[1]]
    if e[0] == 'delvar':
        if not find(e[1]) or not [v for v in find(e[1])[0][3] if v[0] == e[2]]:
            return None
        x = find(e[1])[0]
        return [y if y is not x else [y[0], y[1], y[2], [v for v in y[3] if v[0] != e[2]]] for y in m]
    if e[0] == 'deltag':
        if not any(e[1] in x[2] for x in m):
            return None
        return [[k, c, tuple(t for t in ts if t != e[1]), vs] for k, c, ts, vs in m]
    if e[0] == 'addvar':
        return [[k, c, t, vs + [(e[2], e[3])] if (k, c) == ('char', e[1]) else vs] for k, c, t, vs in m] if find(e[1]) else None
    return m + [['char', e[1], (), []]]


def edit_real(lgr, e):
    if e is None:
        return
    op, args = e[0], e[1:]
    if op == 'delcp':
        lgr.del_cp(list(args[0]))
    elif op == 'delrange':
        lgr.del_range(*args)
    elif op == 'expand':
        lgr.expand_range(*args)
    elif op == 'expandall':
        lgr.expand_ranges()
    elif op == 'delvar':
        for v in list(lgr.get_variants(list(args[0]))):
            if v.cp == args[1]:
                lgr.del_variant(list(args[0]), list(args[1]), when=v.when, not_when=v.not_when)
    elif op == 'deltag':
        lgr.del_tag(args[0])
    elif op == 'addvar':
        lgr.add_variant(list(args[0]), list(args[1]), variant_type=args[2])
    else:
        lgr.add_cp(list(args[0]))


def expected(m, rules):
    seqs = [x for x in m if x[0] == 'char' and len(x[1]) > 1]
    ranges = [x for x in m if x[0] == 'range']
    sets = [{v[0] for v in x[3]} for x in m]
    tags, types = {}, {}
    for k, cps, ts, vs in m:
        for t in ts:
            tags[t] = tags.get(t, 0) + (len(cps) if k == 'range' else 1)
        for _, t in vs:
            types[t] = types.get(t, 0) + 1
    withv = [i for i, s in enumerate(sets) if s]
    total = sum(map(len, sets))
    llen = max([len(x[1]) for x in ranges], default=0)
    slen = max([len(x[1]) for x in seqs], default=0)
    return {'codepoint_number': sum(len(x[1]) if x[0] == 'range' else 1 for x in m),
            'range_number': len(ranges), 'largest_range_len': llen,
            'largest_range': {(x[1][0], x[1][-1]) for x in ranges if len(x[1]) == llen} or {None},
            'sequence_number': len(seqs), 'largest_sequence_len': slen,
            'largest_sequence': {x[1] for x in seqs if len(x[1]) == slen} or {None},
            'codepoints_with_variants': len(withv), 'mapping_number': total, 'variants_by_type': types,
            'largest_variant_set': max([len(sets[i] | {m[i][1]}) for i in withv], default=0),
            'average_variants': round(total / len(withv), 1) if withv else 0,
            'codepoints_by_tag': tags, 'rule_number': rules}


def observed(lgr):
    from lgr.validate.lgr_stats import compute_stats, generate_stats
    s1 = generate_stats(lgr)
    ok, res = compute_stats(lgr, {})
    s2 = res['stats']
    if ok is not True or s1 != s2:
        return {'compute_stats': (ok, s2)}
    out = dict(s1)
    r, q = out['largest_range'], out['largest_sequence']
    out['largest_range'] = None if r is None else (r.first_cp, r.last_cp)
    out['largest_sequence'] = None if q is None else q.cp
    return out


def run(case, st, memo={}):
    menu, mask, order, e = case
    items = [it for i, it in enumerate(MENU2) if mask >> i & 1]
    m = edit_model(model(items), e)
    if m is None:
        return
    st.step()
    st.evaluations += 1
    st.trace()
    rules = mask % 3
    sp = S.spec(items if order == 0 else items[::-1])
    lgr = S.build(sp)
    for n in ('w', 'v')[:rules]:
        lgr.add_rule(S.rule_obj(n, [('any', None)]))
    edit_real(lgr, e)
    before = S.snapshot(lgr)
    want, got = expected(m, rules), observed(lgr)
    st.outcome(sorted(want.items(), key=repr))
    for k in sorted(set(want) | set(got)):
        w, g = want.get(k, 'nothing'), got.get(k, 'nothing')
        if not (g in w if k in ('largest_range', 'largest_sequence') and isinstance(w, set) else g == w):
            st.violation('stats:' + k, '%s is %r instead of %r' % (k, g, w), case)
    if S.snapshot(lgr) != before:
        st.violation('altered', 'computing statistics alters the LGR', case)


def shards(tier):
    return [[k, 32] for k in range(32)]


def run_shard(shard, st):
    k, mod = shard
    n = len(MENU) if st.tier == 'quick' else len(MENU2)
    log = logging.getLogger('lgr.validate.lgr_stats')
    for mask in range(k, 2 ** n, mod):
        st.state(mask)
        for order in (0, 1):
            es = EDITS if st.tier != 'quick' else [None, EDITS[1 + (mask // mod + order * 5) % (len(EDITS) - 1)]]
            for e in es:
                # the report for the log is made of the same statistics
                log.setLevel(logging.DEBUG if mask % 4 == 1 else logging.NOTSET)
                run((n, mask, order, e), st)
    log.setLevel(logging.NOTSET)
    if k == 0:
        st.sample({'items': [S.item_xml(i) for i in MENU[:3]]})


def replay(case, st):
    n, mask, order, e = S.from_json(case)
    run((n, mask, order, e if e is None else tuple(e)), st)
