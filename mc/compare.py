# -*- coding: utf-8 -*-
"""
Families of LGRs which are compared two by two (C21, C22, C23), and an observation of an LGR in which every reference to a rule or
to a class is replaced by what it stands for, so that renamed definitions are recognised by their content.
"""
import itertools
import json
import os
import re
import subprocess
import sys

from lxml import etree

from mc import lgrspec as S
from mc.common import VERIF, digest

A, B, C, X, Y = [ord(c) for c in 'abcxy']
AT = (('anchor',),)
NODE = lambda c: ('char', (c,), None)

# -- families ---------------------------------------------------------------------------------------------------------------------


def meta_specs():
    """Each piece of metadata in turn, and all of them together."""
    base = {}
    yield base
    for v in ('1', '2'):
        for c in (None, 'x', 'y'):
            yield {'version': v, 'version_comment': c}
    for d, t in itertools.product(('one', 'two & <three>', '  four\n '), ('text/plain', 'text/html', None)):
        yield {'description': d, 'description_type': t}
    for sc in ([('org', 'domain')], [('com', 'domain')], [('org', None)], [('com', 'domain'), ('org', 'domain')], [('.', 'domain'), ('org', 'domain'), ('org', None)]):
        yield {'scopes': sc}
    for la in (['und-Latn'], ['fr'], ['fr', 'und-Latn'], ['und-Latn', 'de', 'fr']):
        yield {'languages': la}
    for k in ('validity_start', 'validity_end'):
        for d in ('2009-12-31', '2010-01-01', '2010-10-01'):
            yield {k: d}
    yield {'validity_start': '2010-01-01', 'validity_end': '2012-02-01'}
    for u in ('6.3.0', '10.0.0', '9.0.0', '6.2.0', '6.3.1'):
        yield {'unicode_version': u}
    for d in ('2001-01-01', '2020-01-01'):
        yield {'date': d}
    yield {'refs': [('0', 'r0', None)]}
    yield {'refs': [('0', 'r1', None)]}
    yield {'refs': [('0', 'r1', None), ('1', 'r0', None)]}
    yield {'refs': [('7', 'r2', None), ('8', 'r1', None), ('9', 'r3', None), ('10', 'r0', None)]}
    yield {'version': '1', 'scopes': [('org', 'domain'), ('fr', 'domain')], 'languages': ['fr', 'de', 'it'], 'description': 'one', 'validity_start': '2010-01-01',
           'validity_end': '2012-02-01', 'unicode_version': '6.3.0', 'refs': [('0', 'r0', None), ('1', 'r1', None)], 'date': '2001-01-01'}
    yield {'version': '2', 'version_comment': 'x', 'scopes': [('fr', 'domain'), ('net', 'domain')], 'languages': ['it', 'es', 'fr'], 'description': 'two', 'description_type': 'text/html',
           'validity_start': '2011-01-01', 'validity_end': '2011-02-01', 'unicode_version': '10.0.0', 'refs': [('0', 'r1', None), ('1', 'r2', None)], 'date': '2002-02-02'}


def meta_family():
    out = []
    for m in meta_specs():
        m = dict(m)
        refs = m.pop('refs', ())
        out.append(S.spec([S.char((A,))], refs=refs, meta=m))
    return out


RS = [('r', [NODE(A)]), ('s', [NODE(B)])]


def char_family():
    """One code point with every combination of comment, tags and conditions; with each set of variants; each repertoire."""
    out = []
    for comment, tags, cond in itertools.product((None, 'x', 'y'), ((), ('t',), ('u',), ('u', 't'), ('t', 'v', 'u')), ((None, None), ('r', None), ('s', None), (None, 'r'), (None, 's'))):
        if (comment == 'y') and (len(tags) > 1 or cond[1]):
            continue
        out.append(S.spec([S.char((A,), comment=comment, tags=tags, when=cond[0], not_when=cond[1])], rules=RS))
    return out


VMENU = [S.var((X,), 't1'), S.var((X,), 't2'), S.var((X,), 't1', when='r'), S.var((X,), 't1', not_when='r'), S.var((X,), None, when='s'), S.var((X,), None), S.var((Y,), 't1', comment='x'), S.var((X, Y), 't1'),
         S.var((A,), 't3', comment='y'), S.var((Y,), 't1')]


def variant_family():
    out = []
    for n in range(4):
        for vs in itertools.combinations(VMENU, n):
            keys = [(v['cp'], v['when'], v['not_when']) for v in vs]
            if len(set(keys)) == len(keys):
                out.append(S.spec([S.char((A,), vs, comment='z' if len(vs) % 2 else None), S.char((X,)), S.char((Y,))], rules=RS))
    return out


def repertoire_family():
    out = []
    opts = [None, S.char((B,)), S.char((B,), [S.var((X,), 't1')], tags=('t',))]
    for b, ab, ba, x in itertools.product(opts, (None, S.char((A, B)), S.char((A, B), [S.var((X,), 't1')], comment='x')), (None, S.char((B, A))), (None, S.char((0x1F600,), comment='y'), S.char((X,)))):
        out.append(S.spec([i for i in (x, b, ab, ba) if i] + [S.char((A,))]))
    for a, b in ((A, B), (B, C), (A, C), (A, A + 4)):
        out.append(S.spec([S.rng(a, b, tags=('t',), comment='x')]))
        out.append(S.spec([S.rng(a, b), S.char((X,), [S.var((A,), 't1')])]))
    return out


K1, K2 = ('set', (A, B)), ('set', (A,))


def rule(name, kind):
    if kind == 1:
        return (name, [NODE(A)])
    if kind == 2:
        return (name, [NODE(B), NODE(A)])
    if kind == 3:
        return (name, [('ruleref', 's', None)])
    if kind == 4:
        return (name, [('class', ('ref', 'k'), '2+')])
    if kind == 5:
        return (name, [('choice', (('class', ('union', (('ref', 'k'), ('set', (X,)))), None), ('rule', (('ruleref', 's', None),), None)), None), ('behind', (('class', ('ref', 'm'), None),)), ('anchor',)])


def class_(name, kind):
    return (name, (None, K1, K2, ('union', (('ref', 'k'), ('set', (X,)))), ('diff', ('ref', 'k'), K2))[kind])


def definition_family(tier):
    """Rules and classes of the same names with the same definitions or not, which refer to one another, and everything which refers to them."""
    out = []
    uses = [(), ('char',), ('var',), ('action',), ('char', 'var', 'action')]
    for r, s, k, m in itertools.product((0, 1, 2, 3, 4, 5), (0, 1, 2), (0, 1, 2), (0, 1, 3, 4)):
        if r in (3, 5) and not s or r in (4, 5) and not k or m > 1 and not k or r == 5 and not m:
            continue
        if m and r != 5 and (s, r) != (0, 1):
            continue
        if tier == 'quick' and (s and r not in (3, 5) and (r, s) != (1, 1) or k and r not in (0, 4, 5) or m == 4):
            continue
        rules = [x for x in (rule('s', s) if s else None, rule('r', r) if r else None) if x]
        classes = [x for x in (class_('k', k) if k else None, class_('m', m) if m else None) if x]
        for use in uses if r else uses[:1]:
            if tier == 'quick' and len(use) == (0 if r < 4 else 1):
                continue
            items = [S.char((A,), [S.var((X,), 't1', when='r' if 'var' in use else None)] + ([S.var((B,), 't1', when='r'), S.var((A,), 't1', not_when='r')] if 'var' in use else []), when='r' if 'char' in use else None),
                     S.char((B,), [S.var((X,), 't1', not_when='r' if 'var' in use else None)], not_when='r' if 'char' in use else None), S.char((X,))]
            actions = [S.action('d1', match='r'), S.action('d2', not_match='r')] if 'action' in use else []
            out.append(S.spec(items, rules=rules, classes=classes, actions=actions))
    # other definitions already have the new names, and a name is part of another
    for extra in (('r_1',), ('r_2',), ('r_1', 'r_2'), ('r_1', 'r__1'), ('rr',), ('e',)):
        for k in (1, 2):
            out.append(S.spec([S.char((A,), when='r'), S.char((B,), when=extra[0])], rules=[rule('r', k)] + [rule(n, 2) for n in extra], classes=[class_(extra[0], 1), class_('r', k)],
                              actions=[S.action('r', match='r'), S.action('d', match=extra[0])]))
    return out


AMENU = [S.action('d1', match='r'), S.action('d1', not_match='r'), S.action('d1', any=('t1', 't2')), S.action('d1', all=('t1', 't2')), S.action('d1', only=('t2', 't1')), S.action('d2', match='r'), S.action('d1', match='r', comment='x'),
         S.action('d1'), S.action('d1', match='s', any=('t1',))]


def action_family(tier):
    out = []
    for n in range(3 if tier == 'quick' else 4):
        for acts in itertools.permutations(AMENU if tier == 'thorough' else AMENU[:1] + AMENU[4:], n):
            if n == 3 and AMENU.index(acts[0]) > 4:
                continue
            out.append(S.spec([S.char((A,), [S.var((B,), 't1')])], rules=RS, actions=acts))
    # three actions shared in different orders
    for acts in itertools.permutations(AMENU[:3] + AMENU[7:8], 3 if tier == 'quick' else 4):
        out.append(S.spec([S.char((A,), [S.var((B,), 't1')])], rules=RS, actions=acts))
    return out


def family(name, tier):
    return {'meta': meta_family, 'char': char_family, 'variant': variant_family, 'repertoire': repertoire_family, 'definition': lambda: definition_family(tier), 'action': lambda: action_family(tier)}[name]()


FAMILIES = ['meta', 'char', 'variant', 'repertoire', 'definition', 'action']


def shards(tier):
    out = []
    for f in FAMILIES:
        n = len(family(f, tier))
        per = max(1, 1500 // n)
        out += [{'family': f, 'first': [i, min(n, i + per)]} for i in range(0, n, per)]
    return out


def build(sp, name):
    return S.build(sp, how='xml', name=name)


# -- observation ------------------------------------------------------------------------------------------------------------------

def observe(l, names=None):
    """
    :param names: Names of rules and of classes in the LGRs which have been combined (to find the name from which a definition has been renamed),
                  and the ones to keep, if not all of them.
    """
    rules = {n: etree.fromstring(x) for n, x in zip(l.rules, l.rules_xml)}
    classes = {n: etree.fromstring(x) for n, x in zip(l.classes, l.classes_xml)}
    known, only = names if names else (None, None)

    def base(n, kind):
        if known is not None and n not in known[kind]:
            m = re.match(r'(.*?)_+[12]$', n)
            assert m and m.group(1) in known[kind], n
            return m.group(1)
        return n

    def expand(e, depth=0):
        at = {k: v for k, v in e.attrib.items() if depth or k != 'name'}
        ref = at.pop('by-ref', None)
        kind = 'rule' if e.tag == 'rule' else 'class'
        if ref is not None:
            at['by-ref'] = key(ref, kind, depth + 1)
        return (e.tag, tuple(sorted(at.items(), key=repr)), (e.text or '').strip(), tuple(expand(c, depth + 1) for c in e if isinstance(c.tag, str)))

    def key(n, kind, depth=0):
        assert depth < 50
        d = (rules if kind == 'rule' else classes)
        if n not in d or only is not None and n not in only[kind]:
            return (n, 'UNDEFINED')
        e = d[n]
        assert e.get('name') == n, (n, e.get('name'))
        return (base(n, kind), expand(e))

    cond = lambda n: None if n is None else key(n, 'rule')
    chars = {}
    for c in l.repertoire.all_repertoire():
        chars[c.cp] = {'cond': (cond(c.when), cond(c.not_when)), 'tags': tuple(c.tags), 'comment': c.comment, 'range': hasattr(c, 'first_cp'), 'refs': tuple(c.references),
                       'variants': {(v.cp, cond(v.when), cond(v.not_when)): (v.type, v.comment) for v in c.get_variants()}}
        assert len(chars[c.cp]['variants']) == len(list(c.get_variants()))
    acts = [(a.disp, cond(a.match), cond(a.not_match), tuple(sorted(a.any_variant or ())), tuple(sorted(a.all_variants or ())), tuple(sorted(a.only_variants or ()))) for a in l.actions]
    # the XML of actions says the same as they do
    for a, x in zip(l.actions, l.actions_xml):
        e = etree.fromstring(x)
        assert (e.get('disp'), e.get('match'), e.get('not-match')) == (a.disp, a.match, a.not_match), x
        assert [set((e.get(k) or '').split()) for k in ('any-variant', 'all-variants', 'only-variants')] == [set(v or ()) for v in (a.any_variant, a.all_variants, a.only_variants)], x
    assert len(l.actions) == len(l.actions_xml)
    m = l.metadata
    return {'rules': sorted(((n, key(n, 'rule')) for n in l.rules if only is None or n in only['rule']), key=repr), 'classes': sorted(((n, key(n, 'class')) for n in l.classes if only is None or n in only['class']), key=repr),
            'chars': chars, 'actions': acts,
            'version': (m.version.value, m.version.comment) if m.version else None, 'description': (m.description.value, m.description.description_type) if m.description else None,
            'scopes': [(s.value, s.scope_type) for s in m.scopes], 'languages': list(m.languages), 'start': m.validity_start, 'end': m.validity_end, 'unicode': m.unicode_version, 'date': m.date,
            'refs': [r['value'] for r in l.reference_manager.values()]}


def check_names(o1, o2, result, fail):
    """Definitions are renamed only when they have the same name and not the same meaning."""
    for kind in ('rules', 'classes'):
        d1, d2 = dict(o1[kind]), dict(o2[kind])
        seen = set()
        for n, k in result[kind]:
            if n in seen:
                fail('%s %s twice' % (kind, n))
            seen.add(n)
            b = k[0]
            conflict = b in d1 and b in d2 and d1[b] != d2[b]
            if conflict != (n != b):
                fail('%s %s named %s' % (kind, b, n))
            if n != b and not re.match(re.escape(b) + ('_+1$' if d1.get(b) == k else '_+2$'), n):
                fail('%s %s named %s' % (kind, b, n))


def names_of(l1, l2):
    return {'rule': set(l1.rules) | set(l2.rules), 'class': set(l1.classes) | set(l2.classes)}


def both(a, b):
    """What is chosen by the user names both values."""
    if a is None or b is None or a == b:
        return {b if a is None else a}
    return {a + '|' + b}


def newest(a, b, num):
    key = (lambda v: [int(x) for x in v.split('.')]) if num else (lambda v: v)
    return max((v for v in (a, b) if v), key=key) if a or b else None


def check_meta(o1, o2, res, fail, days, union):
    exp = lambda cond, what: None if cond else fail('%s is %r, from %r and %r' % (what, res[what], o1[what], o2[what]))
    exp(res['start'] == newest(o1['start'], o2['start'], False), 'start')
    ends = [d for d in (o1['end'], o2['end']) if d]
    exp(res['end'] == (min(ends) if ends else None), 'end')
    exp(res['unicode'] == newest(o1['unicode'], o2['unicode'], True), 'unicode')
    exp(res['date'] in days, 'date')
    for what in ('scopes', 'languages', 'refs'):
        want = set(o1[what]) | set(o2[what]) if union else set(o1[what]) & set(o2[what])
        exp(sorted(res[what], key=repr) == sorted(want, key=repr), what)
    for what in ('version', 'description'):
        a, b, r = o1[what], o2[what], res[what]
        if not a or not b:
            exp(r == (a or b), what)
        elif what == 'version':
            exp(r and r[0] in both(a[0], b[0]) and r[1] in both(a[1], b[1]), what)
        elif a == b:
            exp(r and r[0] == a[0], what)
        else:
            exp(r and a[0] in r[0] and b[0] in r[0], what)
            html = a[1] == b[1] == 'text/html'
            exp((r[1] == 'text/html') == html and (union or a[1] != b[1] or r[1] == a[1]), what)
            exp(a[1] == b[1] or all(t in r[0] for t in (a[1], b[1]) if t), what)


# -- runs with other seeds of the hash of strings ---------------------------------------------------------------------------------

def rendering(l):
    """Everything which is written, and everything which is visible, but the date."""
    from lgr.parser.xml_serializer import serialize_lgr_xml
    s = S.snapshot(l)
    s.pop('meta')
    s['chars'] = [(c.cp, tuple(c.tags), c.when, c.not_when, c.comment, tuple((v.cp, v.type, v.when, v.not_when, v.comment) for v in c.get_variants())) for c in l.repertoire.all_repertoire()]
    return digest((re.sub(rb"<date>[^<]*</date>", b"", serialize_lgr_xml(l, pretty_print=False)), sorted(s.items()))).hex()


def rendering_of_shard(module, shard, tier, seed):
    """The renderings of each pair of a shard, made by another process whose strings have other hashes."""
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    code = ("import sys,json; sys.path.insert(0, %r); from mc import common; common.quiet_logging(); sys.path.insert(0, common.REPO)\n"
            "import importlib; m = importlib.import_module('mc.checks.%s'); json.dump(m.renderings(json.loads(sys.argv[1]), sys.argv[2]), sys.stdout)" % (VERIF, module))
    p = subprocess.run([sys.executable, '-c', code, json.dumps(shard), tier], env=env, capture_output=True, cwd=VERIF)
    assert p.returncode == 0, p.stderr[-2000:]
    return json.loads(p.stdout)


def run_shard(mod, shard, st, tier):
    import datetime
    specs = family(shard['family'], tier)
    lgrs = [build(sp, 'two.xml') for sp in specs]
    mine = []
    for i in range(*shard['first']):
        one = build(specs[i], 'one.xml')
        for j in range(len(specs)):
            case = {'pair': [shard['family'], i, j], 'one': S.to_xml(specs[i]), 'two': S.to_xml(specs[j])}
            mine += check_pair(mod, one, lgrs[j], case, st, (i, j))
    if mod.renderings:
        for seed in ((1,) if tier == 'quick' else (1, 2, 3)):
            other = rendering_of_shard(mod.PROPERTY, shard, tier, seed)
            assert len(other) == len(mine)
            for n, (a, b) in enumerate(zip(mine, other)):
                st.step()
                if a != b:
                    i, j = shard['first'][0] + n // len(specs), n % len(specs)
                    st.violation('%s:order' % shard['family'], 'the result is not the same in another process: %s / %s' % (a, b),
                                 {'pair': [shard['family'], i, j], 'one': S.to_xml(specs[i]), 'two': S.to_xml(specs[j]), 'seed': seed})


def renderings(mod, shard, tier):
    specs = family(shard['family'], tier)
    lgrs = [build(sp, 'two.xml') for sp in specs]
    out = []
    for i in range(*shard['first']):
        one = build(specs[i], 'one.xml')
        out += [mod.render(one, two) for two in lgrs]
    return out


_KNOWN = {}


def known(l):
    """What an LGR was at first."""
    if id(l) not in _KNOWN:
        if len(_KNOWN) > 5000:
            _KNOWN.clear()
        _KNOWN[id(l)] = (l, S.snapshot(l), observe(l))
    return _KNOWN[id(l)][1:]


def edit(l):
    """Change everything in an LGR."""
    m = l.metadata
    if m.version:
        m.version.value += '~'
    if m.description:
        m.description.value += '~'
    for s in m.scopes:
        s.value += '~'
    for names in (m.scopes, m.languages, l.rules, l.classes, l.rules_xml, l.classes_xml, l.actions_xml):
        names.append('~')
    for c in list(l.repertoire.all_repertoire()):
        for e in [c] + list(c.get_variants()):
            e.references.append('~')
            e.when = e.not_when = e.comment = '~'
        c.tags.append('~')
        c.add_variant((0x7E,))
    for a in l.actions:
        a.match = a.comment = '~'
        a.references.append('~')
    l.actions.append(l.actions[0] if l.actions else None)
    l.add_cp((0x7E,))
    for r in l.reference_manager.values():
        r['value'] += '~'


def check_pair(mod, one, two, case, st, ij):
    """Combine two LGRs and check the result; the LGRs have been used before, and are again: they have to remain as they were."""
    import datetime
    problems = []
    fail = problems.append
    for l in (one, two):
        l.expand_ranges()
    before = [known(l) for l in (one, two)]
    day = datetime.date.today().isoformat()
    res = mod.combine(one, two)
    days = (day, datetime.date.today().isoformat())
    st.step()
    after = [S.snapshot(l) for l in (one, two)]
    if [b[0] for b in before] != after:
        fail('an LGR which is combined changes: %r' % [S.diff_snap(b, a) for (b, _), a in zip(before, after)])
    o1, o2 = [b[1] for b in before]
    mod.check(one, two, o1, o2, res, fail, days)
    if hasattr(res, 'repertoire'):
        edit(res)
        after = [S.snapshot(l) for l in (one, two)]
        if [b[0] for b in before] != after:
            fail('an LGR changes when the result is edited: %r' % [S.diff_snap(b, a) for (b, _), a in zip(before, after)])
            _KNOWN.clear()
    st.outcome((case['pair'][0], digest((o1, o2))))
    for o in (o1, o2):
        st.state(digest(sorted(o.items())))
    st.trace()
    st.evaluations += 1
    st.sample({'one': case['one'], 'two': case['two']})
    for p in problems[:3]:
        st.violation('%s:%s' % (case['pair'][0], re.sub(r"[^a-z ]", '', p[:30])), p, case)
    st.count(case['pair'][0])
    return [mod.render(one, two)] if mod.renderings else []


def replay(mod, case, st):
    for order in (0, 1):
        one, two = S.parse_xml(case['one'], filename='one.xml'), S.parse_xml(case['two'], filename='two.xml')
        if order:
            mod.combine(one, two)
        check_pair(mod, one, two, case, st, (0, 0))
    if 'seed' in case:
        f, i, j = case['pair']
        mine = renderings_pair(mod, case)
        code = rendering_of_pair(mod.PROPERTY, case)
        if mine != code:
            st.violation('%s:order' % f, 'the result is not the same in another process', case)


def renderings_pair(mod, case):
    return mod.render(S.parse_xml(case['one'], filename='one.xml'), S.parse_xml(case['two'], filename='two.xml'))


def rendering_of_pair(module, case):
    env = dict(os.environ, PYTHONHASHSEED=str(case['seed']))
    code = ("import sys,json; sys.path.insert(0, %r); from mc import common; common.quiet_logging(); sys.path.insert(0, common.REPO)\n"
            "import importlib; from mc import compare; m = importlib.import_module('mc.checks.%s'); json.dump(compare.renderings_pair(m, json.load(sys.stdin)), sys.stdout)" % (VERIF, module))
    p = subprocess.run([sys.executable, '-c', code], input=json.dumps({'one': case['one'], 'two': case['two']}).encode(), env=env, capture_output=True, cwd=VERIF)
    assert p.returncode == 0, p.stderr[-2000:]
    return json.loads(p.stdout)
