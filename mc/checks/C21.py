# -*- coding: utf-8 -*-
"""
C21 - the union of two LGRs.

Space: every ordered pair of LGRs of six families (metadata and references; comment, tags and conditions of a code point; its variants; repertoires with sequences and
ranges; rules and classes of the same name with the same definition or not, referring to one another, and everything which refers to them; lists of actions).
Oracle: the documented meaning of each element (doc/algo.rst), where references to rules and classes stand for what they define.
"""
from mc import compare
from mc import lgrspec as S

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = 'a case is one ordered pair of LGRs; non trivial = distinct pairs of contents'
BOUNDS = {t: 'every ordered pair of each of %s; each pair again in another process with other hashes of strings' % ', '.join('%d (%s)' % (len(compare.family(f, t)), f) for f in compare.FAMILIES) for t in ('quick', 'thorough')}
ASSUMPTIONS = ['references of code points, and comments of references and of variants are dropped, as documented', 'rules, classes and actions have no references', 'of variants which differ by their type only, one is kept']


def shards(tier):
    return compare.shards(tier)


def renderings(shard, tier):
    import sys
    return compare.renderings(sys.modules[__name__], shard, tier)


def combine(one, two):
    from lgr.tools.compare import union_lgrs
    return union_lgrs(one, two)


def render(one, two):
    return compare.rendering(combine(one, two))


def check(one, two, o1, o2, res, fail, days):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    names = compare.names_of(one, two), None
    got = compare.observe(res, names)
    compare.check_names(o1, o2, got, fail)
    for kind in ('rules', 'classes'):
        want = {k for _, k in o1[kind]} | {k for _, k in o2[kind]}
        if sorted((k for _, k in got[kind]), key=repr) != sorted(want, key=repr):
            fail('%s are %r, not %r' % (kind, got[kind], want))
    acts = []
    for a in o1['actions'] + o2['actions']:
        if a not in acts:
            acts.append(a)
    if got['actions'] != acts:
        fail('actions are %r, not %r' % (got['actions'], acts))
    if set(got['chars']) != set(o1['chars']) | set(o2['chars']):
        fail('repertoire is %r' % sorted(got['chars']))
    for cp, g in got['chars'].items():
        ins = [o['chars'][cp] for o in (o1, o2) if cp in o['chars']]
        a, b = ins[0], ins[-1]
        if tuple(x if x == y else None for x, y in zip(a['cond'], b['cond'])) != g['cond']:
            fail('conditions of %r are %r, from %r and %r' % (cp, g['cond'], a['cond'], b['cond']))
        if sorted(g['tags']) != sorted(set(a['tags']) | set(b['tags'])):
            fail('tags of %r are %r, from %r and %r' % (cp, g['tags'], a['tags'], b['tags']))
        if g['comment'] not in compare.both(a['comment'], b['comment']):
            fail('comment of %r is %r' % (cp, g['comment']))
        if g['range'] and (not a['range'] or not b['range']):
            fail('%r is in a range' % (cp,))
        want = set(a['variants']) | set(b['variants'])
        if set(g['variants']) != want:
            fail('variants of %r are %r, not %r' % (cp, g['variants'], want))
        for v, (t, c) in g['variants'].items():
            if t not in {i['variants'][v][0] for i in ins if v in i['variants']}:
                fail('type of variant %r of %r is %r' % (v, cp, t))
            if c is not None and c not in {i['variants'][v][1] for i in ins if v in i['variants']}:
                fail('comment of variant %r of %r is %r' % (v, cp, c))
    compare.check_meta(o1, o2, got, fail, days, True)
    # what is written is the same LGR
    back = S.parse_bytes(serialize_lgr_xml(res, pretty_print=True), filename='back.xml')
    again = compare.observe(back, names)
    again['date'] = got['date']
    diff = {k: (got[k], again[k]) for k in got if got[k] != again[k] and k != 'chars'}
    if diff:
        fail('reading what is written differs: %r' % diff)
    for cp in set(got['chars']) | set(again['chars']):
        g, h = [dict(o['chars'][cp], range=None, tags=sorted(o['chars'][cp]['tags'])) if cp in o['chars'] else None for o in (got, again)]
        if g != h:
            fail('reading what is written differs for %r: %r, %r' % (cp, g, h))


def run_shard(shard, st):
    import sys
    compare.run_shard(sys.modules[__name__], shard, st, st.tier)


def replay(case, st):
    import sys
    compare.replay(sys.modules[__name__], case, st)
