# -*- coding: utf-8 -*-
"""Menus of small LGRs shared by several checks."""
import itertools

from mc import lgrspec as S

A, B, C, X, Y = [ord(c) for c in 'abcxy']
RULES = [('afterA', [('behind', (('char', (A,), None),)), ('anchor',)]),
         ('start', [('behind', (('start',),)), ('anchor',)]),
         ('beforeB', [('anchor',), ('ahead', (('char', (B,), None),))]),
         ('endsB', [('char', (B,), None), ('end',)]),
         ('hasC', [('char', (C,), None)]),
         ('xx', [('char', (X,), '2+')])]

VA = [[], [S.var((X,), 't1')], [S.var((X,), 't1'), S.var((Y,), 't2')], [S.var((A,), 'r'), S.var((X,), 't1')],
      [S.var((X,), 't1', when='start'), S.var((X,), 't2', not_when='start')], [S.var((X, Y), 't1')], [S.var((B,), 't1')]]
VB = [None, [], [S.var((Y,), 't2')], [S.var((A,), 't2', when='afterA')], [S.var((B,), 'r')]]
VAB = [None, [], [S.var((C,), 't3')], [S.var((A, B), 'r3')]]
VC = [[S.var((B,), 't4')]]
XS = [(), ((X,),), ((X,), (Y,))]
CTXB = [(None, None), ('afterA', None), (None, 'afterA')]
CTXAB = [(None, None), ('start', None)]

# larger menus (thorough)
VA2 = VA + [[S.var((X,), 't1', not_when='beforeB')], [S.var((A, B), 't5')], [S.var((A,), 'r', when='beforeB'), S.var((C,), None)]]
VAB2 = VAB + [[S.var((X,), 't1'), S.var((Y, X), 't2')], [S.var((X, Y), 't1', when='start')]]
VC2 = VC + [[], [S.var((C,), 'r4', not_when='start')]]


def variant_specs(tier):
    """Indexable list of parameter tuples of the variant family."""
    if tier == 'quick':
        menus = [VA, VB, VAB, XS, CTXB, CTXAB, VC]
    else:
        menus = [VA2, VB, VAB2, XS, CTXB, CTXAB, VC2]
    out = []
    for t in itertools.product(*[range(len(m)) for m in menus]):
        if menus[1][t[1]] is None and t[4]:
            continue
        if menus[2][t[2]] is None and t[5]:
            continue
        out.append(t)
    return menus, out


def variant_spec(menus, t, actions=(), n=0):
    va, vb, vab, xs, cb, cab, vc = [m[i] for m, i in zip(menus, t)]
    items = [S.char((A,), va)]
    if vb is not None:
        items.append(S.char((B,), vb, when=cb[0], not_when=cb[1]))
    if vab is not None:
        items.append(S.char((A, B), vab, when=cab[0], not_when=cab[1]))
    items.append(S.char((C,), vc))
    items += [S.char(q) for q in xs]
    if n % 3 == 1:
        items.reverse()
    return S.spec(items, rules=RULES, actions=actions)


# Conditions on what precedes / follows an entry, around a sequence (positions after and before a sequence differ from the
# number of entries): own conditions and conditions of variants, the variants being longer or shorter than the entry.

def _side(name, before, node):
    return (name, [('behind', (node,)), ('anchor',)] if before else [('anchor',), ('ahead', (node,))])


CTXRULES = [_side('afterB', True, ('char', (B,), None)), _side('beforeA', False, ('char', (A,), None)),
            _side('afterC', True, ('char', (C,), None)), _side('beforeC', False, ('char', (C,), None)),
            _side('afterAB', True, ('char', (A, B), None)), _side('first', True, ('start',)), _side('last', False, ('end',)),
            ('hasA', [('char', (A,), None)]), ('endsC', [('char', (C,), None), ('end',)])]
CONDS = [(None, None)] + [(n, None) for n, _ in CTXRULES] + [(None, n) for n, _ in CTXRULES]


def ctx_specs(tier):
    """Parameter tuples: condition of C's variant, condition of AB's variant, shapes, own condition of C / AB."""
    out = []
    for i, c1 in enumerate(CONDS):
        for j, c2 in enumerate(CONDS):
            if tier == 'quick' and i and j and i != j:
                continue
            for shape in range(4):
                out.append((c1, c2, shape, (None, None), (None, None)))
    for c in CONDS[1:]:
        for shape in range(4):
            out.append(((None, None), (None, None), shape, c, (None, None)))
            out.append(((None, None), (None, None), shape, (None, None), c))
    return out


def ctx_spec(t):
    c1, c2, shape, own1, own2 = t
    long_c, long_ab = shape & 1, shape >> 1
    return S.spec([S.char((A,), [S.var((Y,), 't0')]),
                   S.char((C,), [S.var((X, Y) if long_c else (X,), 't1', when=c1[0], not_when=c1[1])], when=own1[0], not_when=own1[1]),
                   S.char((A, B), [S.var((X, A, X) if long_ab else (0x39,), 't2', when=c2[0], not_when=c2[1])],
                          when=own2[0], not_when=own2[1]),
                   S.char((X,)), S.char((Y,)), S.char((0x39,))], rules=CTXRULES)


def ctx_labels(tier):
    """Every label made of the entries a, ab, c."""
    n = 4 if tier == 'quick' else 5
    out = set()
    for k in range(1, n + 1):
        for p in itertools.product(((A,), (A, B), (C,)), repeat=k):
            l = sum(p, ())
            if len(l) <= n:
                out.add(l)
    return sorted(out, key=lambda l: (len(l), l))


# Entries which nest and overlap in every way: every subset of them, with variants on all, on the sequences or on the single ones

DEEP = [(A,), (B,), (C,), (A, B), (B, C), (A, B, C), (A, B, A)]
DEEPV = {(A,): 0x71, (B,): 0x72, (C,): 0x73, (A, B): 0x31, (B, C): 0x32, (A, B, C): 0x74, (A, B, A): 0x30}


def deep_specs(tier):
    out = []
    for m in range(1, 2 ** len(DEEP)):
        for mode in range(4 if tier != 'quick' else 3):
            out.append((m, mode))
    return out


def deep_spec(t):
    m, mode = t
    items = []
    for i, e in enumerate(DEEP):
        if not m >> i & 1:
            continue
        vs = []
        if mode == 0 or (mode == 1 and len(e) > 1) or (mode == 2 and len(e) == 1) or (mode == 3 and (m >> ((i + 1) % 7)) & 1):
            vs = [S.var((DEEPV[e],), 't%d' % i)]
            if mode == 2:
                vs.append(S.var((A, DEEPV[e]), 'u%d' % i))
            if mode == 3:
                vs.insert(0, S.var(e, 'r%d' % i))
        items.append(S.char(e, vs))
    items += [S.char((c,)) for c in sorted(DEEPV.values())]
    if (m + mode) % 3 == 0:
        items.reverse()
    return S.spec(items)


def deep_labels(tier):
    out = []
    for k in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for l in itertools.product((A, B, C), repeat=k):
            if k < 4 or l[0] == A or tier != 'quick':
                out.append(l)
    return out


# Beyond the small scopes: long sequences, many partitions, labels of the maximal length, code points of every plane, many variants

def large():
    """[(spec, labels)]: few configurations, of a size which the families above do not reach."""
    out = []
    # sequences which are prefixes of one another, to a length of 7, in every insertion order of four of them
    unit = (A, B, C, A, B, C, A)
    for order in itertools.permutations((1, 4, 5, 7)):
        items = [S.char(unit[:k], [S.var((0x30 + k,), 't%d' % k)]) for k in order]
        items += [S.char((B,)), S.char((C,), [S.var((Y,), 'u')])] + [S.char((0x30 + k,)) for k in (1, 4, 5, 7)] + [S.char((Y,))]
        out.append((S.spec(items), [unit[:n] for n in range(1, 8)] + [(B,) + unit, unit + unit[:4], unit[:5] + unit]))
    # a label with dozens of partitions
    for lows in itertools.combinations(range(1, 5), 2):
        for cond in ((None, None), ('start', None), (None, 'endsB')):
            items = []
            for k in range(1, 5):
                vs = [S.var((0x31 + k,), 't%d' % k, when=cond[0])] if k in lows else []
                items.append(S.char((A,) * k, vs, not_when=cond[1] if k == 3 else None))
            items += [S.char((0x31 + k,)) for k in range(1, 5)] + [S.char((B,), [S.var((0x30,), 'z')]), S.char((0x30,))]
            out.append((S.spec(items, rules=RULES), [(A,) * n for n in range(1, 8)] + [(A,) * 5 + (B,), (A, B) + (A,) * 4, (A,) * 4 + (B,) * 2]))
    # labels of the maximal length: the only variant is at any end, in the middle; conditions which look at everything
    far = [('afterAny62', [('behind', (('start',), ('any', '62'))), ('anchor',)]),
           ('afterB', [('behind', (('char', (B,), None), ('char', (A,), '0+'))), ('anchor',)]),
           ('all63', [('start',), ('any', '63'), ('end',)]), ('far', [('anchor',), ('ahead', (('char', (A,), '40+'), ('char', (B,), None)))]),
           ('afterManyA', [('behind', (('char', (B,), None), ('char', (A,), '40+'))), ('anchor',)])]
    for when, not_when in [(None, None)] + [(n, None) for n, _ in far] + [(None, n) for n, _ in far]:
        items = [S.char((A,)), S.char((B,)), S.char((C,), [S.var((X,), 't', when=when, not_when=not_when), S.var((C,), 'r', when=not_when, not_when=when)]), S.char((X,))]
        labels = []
        for n in (61, 62, 63):
            for pos in (0, 1, 30, n - 2, n - 1):
                labels.append((A,) * pos + (C,) + (A,) * (n - pos - 1))
                if pos:
                    labels.append((B,) + (A,) * (pos - 1) + (C,) + (A,) * (n - pos - 1))
                if pos < n - 1:
                    labels.append((A,) * pos + (C,) + (A,) * (n - pos - 2) + (B,))
        out.append((S.spec(items, rules=far), labels))
        # the same conditions on the entry
        items = [S.char((A,)), S.char((B,)), S.char((C,), [S.var((X,), 't')], when=when, not_when=not_when), S.char((X,))]
        out.append((S.spec(items, rules=far), labels))
    # (conditions are on code points of the BMP: the installed ICU binding truncates others)
    # code points of every plane, whose order as numbers, as UTF-16 and as hexadecimal numbers are not the same
    planes = (0x61, 0xFB1E, 0xFE20, 0xFE73, 0x10428, 0x1E922, 0x20000, 0x2A700, 0x30000)
    for shift in range(len(planes)):
        p = planes[shift:] + planes[:shift]
        entries = [(p[0],), (p[1], p[2]), (p[3],), (p[4], p[0])]
        items = []
        for i, e in enumerate(entries):
            items.append(S.char(e, [S.var((p[5 + i],), 't%d' % i, when='afterP' if i == 2 and p[7] < 0x10000 else None), S.var((p[(i + 1) % 4], p[8 - i]), 'u%d' % i)]))
        have = {i['cp'] for i in items}
        items += [S.char((c,)) for c in p if (c,) not in have]
        rules = [('afterP', [('behind', (('class', ('set', planes[:4]), None),)), ('anchor',)])]
        out.append((S.spec(items, rules=rules), [sum(q, ()) for k in (1, 2, 3) for q in itertools.product(entries + [(p[4],)], repeat=k)]))
    # many variants of an entry, of several types
    many = [S.var((c,), ('t1', 't2', None)[i % 3], when='start' if i == 11 else None) for i, c in enumerate(range(0x3B1, 0x3BE))]
    many += [S.var((A, c), 't3') for c in range(0x3B1, 0x3BC)] + [S.var((A,), 'r')]
    items = [S.char((A,), many), S.char((B,), many[:12]), S.char((C,))] + [S.char((c,)) for c in range(0x3B1, 0x3BE)]
    out.append((S.spec(items, rules=RULES), [(A,), (B,), (A, C), (C, B), (A, B), (B, B, C)]))
    return out


def shapes(nodes):
    """Relations over many nodes: every line, both ways or one, every star, cycle and all pairs with at most one missing. Yields sets of pairs."""
    out = set()
    n = len(nodes)
    for p in itertools.permutations(nodes):
        line = [(p[i], p[i + 1]) for i in range(n - 1)]
        if p[0] == nodes[0] or p[-1] == nodes[-1]:
            out.add(frozenset(line))
            out.add(frozenset(line + [(b, a) for a, b in line]))
        if p[0] == nodes[0]:
            out.add(frozenset(line + [(p[-1], p[0])]))
            out.add(frozenset(line[:n // 2 - 1] + line[n // 2:] + [(b, a) for a, b in line[n // 2:]]))     # two components
    for a in nodes:
        out.add(frozenset((a, b) for b in nodes if b != a))
        out.add(frozenset((b, a) for b in nodes if b != a))
        out.add(frozenset([(b, a) for b in nodes if b != a] + [(a, b) for b in nodes if b != a]))
    every = frozenset((a, b) for a in nodes for b in nodes if a != b)
    out.add(every)
    out |= {every - {e} for e in every}
    out |= {every - {e, (e[1], e[0])} for e in every}
    # long lines and circles, big stars, over further nodes
    for m in (8, 11):
        p = [x for x in nodes] + [(0x4E00 + i,) for i in range(m - n)]
        for p in (p, p[::-1], p[::2] + p[1::2]):
            line = [(p[i], p[i + 1]) for i in range(m - 1)]
            star = [(p[0], x) for x in p[1:]]
            for pairs in (line, star, line + [(p[-1], p[0])]):
                out.add(frozenset(pairs))
                out.add(frozenset(pairs + [(b, a) for a, b in pairs]))
                out.add(frozenset(pairs[1:] + [(b, a) for a, b in pairs]))
    return sorted(sorted(s) for s in out)
