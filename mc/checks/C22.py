# -*- coding: utf-8 -*-
"""
C22 - the intersection of two LGRs.

Space: the pairs of C21. Oracle: the documented meaning of each element (doc/algo.rst), where references to rules and classes stand for what they define.
"""
import sys

from mc import compare
from mc import lgrspec as S

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = 'a case is one ordered pair of LGRs; non trivial = distinct pairs of contents'
BOUNDS = {t: 'every ordered pair of each of %s; each pair again in another process with other hashes of strings' % ', '.join('%d (%s)' % (len(compare.family(f, t)), f) for f in compare.FAMILIES) for t in ('quick', 'thorough')}
ASSUMPTIONS = ['references of code points, and comments of references and of variants are dropped, as documented', 'rules, classes and actions have no references',
               'a definition kept because the other LGR has one of the same name may refer to one which is not kept (the result requires a manual edition, as documented)']


def shards(tier):
    return compare.shards(tier)


def renderings(shard, tier):
    return compare.renderings(sys.modules[__name__], shard, tier)


def combine(one, two):
    from lgr.tools.compare import intersect_lgrs
    return intersect_lgrs(one, two)


def render(one, two):
    return compare.rendering(combine(one, two))


def check(one, two, o1, o2, res, fail, days):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    names = compare.names_of(one, two)
    common = {'rule': set(one.rules) & set(two.rules), 'class': set(one.classes) & set(two.classes)}
    got = compare.observe(res, (names, None))
    compare_names(common, o1, o2, got, fail)
    c1, c2 = compare.observe(one, (names, common)), compare.observe(two, (names, common))
    for kind in ('rules', 'classes'):
        want = {k for _, k in c1[kind]} | {k for _, k in c2[kind]}
        if sorted((k for _, k in got[kind]), key=repr) != sorted(want, key=repr):
            fail('%s are %r, not %r' % (kind, got[kind], want))
    acts = [a for n, a in enumerate(o1['actions']) if a in o2['actions'] and a not in o1['actions'][:n]]
    if got['actions'] != acts:
        fail('actions are %r, not %r' % (got['actions'], acts))
    if set(got['chars']) != set(o1['chars']) & set(o2['chars']):
        fail('repertoire is %r' % sorted(got['chars']))
    for cp, g in got['chars'].items():
        a, b = o1['chars'][cp], o2['chars'][cp]
        if tuple(x if x == y else None for x, y in zip(a['cond'], b['cond'])) != g['cond']:
            fail('conditions of %r are %r, from %r and %r' % (cp, g['cond'], a['cond'], b['cond']))
        if sorted(g['tags']) != sorted(set(a['tags']) & set(b['tags'])):
            fail('tags of %r are %r, from %r and %r' % (cp, g['tags'], a['tags'], b['tags']))
        if g['comment'] not in compare.both(a['comment'], b['comment']):
            fail('comment of %r is %r' % (cp, g['comment']))
        if g['range'] and not (a['range'] and b['range']):
            fail('%r is in a range' % (cp,))
        want = set(a['variants']) & set(b['variants'])
        if set(g['variants']) != want:
            fail('variants of %r are %r, not %r' % (cp, g['variants'], want))
        for v, (t, c) in g['variants'].items():
            ta, tb = a['variants'][v][0], b['variants'][v][0]
            if t != (ta if ta == tb else None):
                fail('type of variant %r of %r is %r' % (v, cp, t))
    compare.check_meta(o1, o2, got, fail, days, False)
    if 'UNDEFINED' in repr([got['rules'], got['classes']]):
        return
    back = S.parse_bytes(serialize_lgr_xml(res, pretty_print=True), filename='back.xml')
    again = compare.observe(back, (names, None))
    again['date'] = got['date']
    diff = {k: (got[k], again[k]) for k in got if got[k] != again[k] and k != 'chars'}
    if diff:
        fail('reading what is written differs: %r' % diff)
    for cp in set(got['chars']) | set(again['chars']):
        g, h = [dict(o['chars'][cp], range=None, tags=sorted(o['chars'][cp]['tags'])) if cp in o['chars'] else None for o in (got, again)]
        if g != h:
            fail('reading what is written differs for %r: %r, %r' % (cp, g, h))


def compare_names(common, o1, o2, got, fail):
    for kind, k in (('rules', 'rule'), ('classes', 'class')):
        for n, key in got[kind]:
            if key[0] not in common[k]:
                fail('%s %s is not in both' % (kind, n))
    compare.check_names(*[restrict(o, common) for o in (o1, o2)], mark(got, o1, o2), fail)


def restrict(o, common):
    return {'rules': [x for x in o['rules'] if x[0] in common['rule']], 'classes': [x for x in o['classes'] if x[0] in common['class']]}


def mark(got, o1, o2):
    """Each kept definition under its new name, with its meaning in the LGR it comes from."""
    out = {}
    for kind in ('rules', 'classes'):
        d1, d2 = dict(o1[kind]), dict(o2[kind])
        out[kind] = []
        for n, k in got[kind]:
            src = d1 if n == k[0] or n.endswith('1') else d2
            out[kind].append((n, src.get(k[0])))
        out[kind] = [(n, k if k else (n, None)) for n, k in out[kind]]
    return out


def run_shard(shard, st):
    compare.run_shard(sys.modules[__name__], shard, st, st.tier)


def replay(case, st):
    compare.replay(sys.modules[__name__], case, st)
