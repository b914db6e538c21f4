# -*- coding: utf-8 -*-
"""
C24 - merging a set of LGRs keeps the content of each of them.

Space: every pair and triple of variant partitions over some nodes; every pair of attributes (comment, tags, references, conditions) of a code point and every triple of its
conditions; every pair of sets of conditioned variants; every pair of sets of rules, classes and actions which refer to one another, to tags, to references and to
the common rule; every pair of metadata. All orders of the set. Oracle: doc/algo.rst over the documents of the members.
"""
import itertools
import re
import sys

from lxml import etree

from mc import compare
from mc import lgrspec as S
from mc.checks import C25
from mc.common import digest

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = 'a case is one list of LGRs merged in every order; non trivial = distinct merged LGRs'
A, B, C, X, Y = compare.A, compare.B, compare.C, compare.X, compare.Y
SCRIPTS = ['und-Latn', 'fr', 'und-Cyrl']           # in the order of the set which is given: the merge sorts them
TRANSITIVE = 'New variant for merge to keep transitivity'     # of a variant defined by a later member: its comment and references are not updated (documented)
MSR = 'leading-combining-mark'
R = lambda name, *nodes: (name, list(nodes))
REFS = [('0', 'zero', None), ('1', 'one', None), ('2', 'two', None)]
REFS2 = [('0', 'two', None), ('2', 'zero', None), ('3', 'three', None)]


def relation_specs(nodes):
    out = []
    for n, rel in enumerate(C25.relations(nodes)):
        items = []
        for block in rel:
            for a in block:
                items.append(S.char(tuple(a), [S.var(tuple(b), ('allocatable', 'blocked', 'fallback')[(len(b) + n) % 3], comment='v') for b in block if a != b or n % 3 == 1]))
        items.sort(key=lambda i: i['cp'], reverse=n % 2 == 1)
        out.append(S.spec(items or [S.char((0x7A,))]))
    return out


def char_specs():
    out = []
    rules = [R('r', ('class', ('ref', 'k'), None)), R('s', ('char', (B,), None)), R(MSR, ('start',), ('char', (C,), None))]
    for comment, tags, refs, cond, defs in itertools.product((None, 'x', 'y'), ((), ('t', 'u', 'sc:Q')), ((), ('0', '2')), ((None, None), ('r', None), (None, 'r'), ('s', None), (MSR, None), (None, MSR)), (REFS, REFS2)):
        if refs and defs is REFS2:
            refs = ('2', '3')       # not the ids they have in the other LGR
        if comment == 'y' and (tags or refs) or defs is REFS2 and (comment or tags):
            continue
        out.append(S.spec([S.char((A,), comment=comment, tags=tags, refs=refs, when=cond[0], not_when=cond[1]), S.rng(0x30, 0x32, tags=('d',)), S.char((A, B), comment=comment, when=cond[0], not_when=cond[1])],
                          rules=rules, classes=[('k', ('set', (A,)))], refs=defs))
    return out


def condition_specs():
    rules = [R('s', ('char', (B,), None)), R('r', ('ruleref', 's', None), ('class', ('tag', 't'), None)), R(MSR, ('start',), ('char', (C,), None))]
    return [S.spec([S.char((A,), when=w, not_when=n, tags=('t',))] + ([S.char((B,), when=w)] if n is None else []), rules=rules) for w, n in
            [(None, None), ('r', None), (None, 'r'), ('s', None), (None, 's'), (MSR, None), (None, MSR)]] + [S.spec([S.char((B,), when='s')], rules=rules)]


VMENU = [S.var((X,), 't1'), S.var((X,), 't2', when='r'), S.var((X,), 't1', not_when='r', refs=('0',)), S.var((X,), None, when='s'), S.var((Y,), 'blocked', comment='x', refs=('2', '0')), S.var((Y,), 't1', when=MSR), S.var((A,), 't3', comment='y'),
         S.var((X, Y), 't1'), S.var((0x7A,), 'out')]


def variant_specs():
    rules = [R('r', ('char', (A,), None)), R('s', ('char', (B,), None)), R(MSR, ('start',), ('char', (C,), None))]
    out = []
    for n in range(3):
        for vs in itertools.combinations(VMENU, n):
            if len({v['cp'] for v in vs} - {(A,)}) <= 1 or n == 2:
                out.append(S.spec([S.char((A,), vs), S.char((X,), [S.var((A,), 't')] if any(v['cp'] == (X,) for v in vs) else []), S.char((Y,))], rules=rules, refs=REFS if len(out) % 2 else REFS2))
    return out


def definition_specs():
    out = []
    nodes = [[], [('char', (A,), None)], [('ruleref', 's', None), ('class', ('ref', 'k'), '2')], [('class', ('union', (('ref', 'k'), ('tag', 't'), ('tag', 'sc:Q'))), None)], [('ruleref', MSR, None), ('ruleref', MSR + '-2', None)],
             [('choice', (('rule', (('ruleref', 's', None),), None), ('char', (A,), '2+')), None)]]
    actsets = [[], [S.action('valid', match='r', comment='match r'), S.action('r', not_match='r', refs=('2',))], [S.action('invalid', match=MSR), S.action('blocked', not_match=MSR), S.action('invalid', any=('in',)), S.action('in', match='in', all=('x',))],
               [S.action('valid', not_match=MSR + '-2', only=('x', 'y'), comment=MSR), S.action('invalid', any=('invalid',)), S.action('valid')]]
    for r, k, a in itertools.product(range(len(nodes)), (('set', (A, B)), ('union', (('tag', 't'), ('ref', 'm'))), ('diff', ('ref', 'm'), ('tag', 'sc:Q'))), range(len(actsets))):
        if a and r not in (1, 2, 4) or k[0] == 'diff' and a:
            continue
        rules = [R('s', ('char', (B,), None)), R(MSR, ('start',), ('char', (C,), None)), R(MSR + '-2', ('char', (C,), None)), R('in', ('char', (C,), None))] + ([R('r', *nodes[r])] if r else [R('r', ('end',))])
        out.append(S.spec([S.char((A,), tags=('t', 'sc:Q'))], rules=rules, classes=[('m', ('set', (C,))), ('k', k)], actions=actsets[a], refs=REFS if len(out) % 2 else REFS2))
    return out


def script_specs():
    """Merged with a Unicode database: code points of one, several and no script, in sequences and ranges."""
    out = []
    for tags, items in itertools.product(((), ('t',), ('Latn', 'sc:Latn'), ('Kana', 'Hira')), ([S.char((0x61,))], [S.char((0x30FC,)), S.char((0x61, 0x30FC))], [S.rng(0x3041, 0x3043), S.char((0x30FC,))], [S.char((0x2D,)), S.char((0x660,))])):
        out.append(S.spec([dict(i, tags=tags if len(i.get('cp', (0,))) == 1 else ()) for i in items]))
    return out


def meta_specs():
    return compare.meta_family()


FAMILIES = {'relation4': (lambda: relation_specs(((A,), (B,), (C,), (A, B))), 2), 'relation3': (lambda: relation_specs(((A,), (B,), (A, B))), 3), 'char': (char_specs, 2), 'condition': (condition_specs, 3), 'variant': (variant_specs, 2),
            'definition': (definition_specs, 2), 'meta': (meta_specs, 2), 'scripts': (script_specs, 2),
            'relation4t': (lambda: relation_specs(((A,), (B,), (C,), (A, B))), 3), 'relation5': (lambda: relation_specs(((A,), (B,), (C,), (A, B), (B, A))), 2), 'variant3': (lambda: variant_specs()[::2], 3)}
QUICK = ['relation4', 'relation3', 'char', 'condition', 'variant', 'definition', 'meta', 'scripts']
BOUNDS = {'quick': 'every ordered pair (condition, relation3: triple) of each of %s' % ', '.join('%d (%s)' % (len(FAMILIES[f][0]()), f) for f in QUICK),
          'thorough': 'triples of partitions over 4 nodes, pairs over 5, triples of half of the sets of conditioned variants'}
ASSUMPTIONS = ['the first languages of the LGRs of a set are not the same', 'members whose variants are symmetric and transitive (transitivity is only asserted for these)', 'the content of rules of the same name used as conditions in several LGRs is the one of the last (documented)',
               'common rules of the same name have the same content (the first is kept)']


def shards(tier):
    out = []
    for f in QUICK if tier == 'quick' else list(FAMILIES):
        make, k = FAMILIES[f]
        n = len(make())
        per = max(1, 300 // n ** (k - 1))
        out += [{'family': f, 'first': [i, min(n, i + per)]} for i in range(0, n, per)]
    return out


def xml(sp, script):
    sp = dict(sp, meta=dict(sp['meta'], languages=[script] + list(sp['meta'].get('languages', ()))))
    text = S.to_xml(sp)
    # references of rules and classes, and of their parts
    if len(sp['refs']) == 3:
        for a, b in (('<rule name="r"', ' ref="%s"' % sp['refs'][1][0]), ('<rule name="s"', ' comment="c" ref="%s %s"' % (sp['refs'][2][0], sp['refs'][0][0])), ('<union name="k"', ' ref="%s" comment="c"' % sp['refs'][0][0]), ('<class from-tag="t"', ' ref="%s"' % sp['refs'][1][0])):
            text = text.replace(a, a + b)
    return text


# -- meaning ----------------------------------------------------------------------------------------------------------------------

class Conflict(Exception):
    pass


def renamed(name, script):
    return None if name is None else ('Common-' if name == MSR else script + '-') + name


def tree(e, refs, script=None, own=None):
    """An element with everything it names: as it is (merged), or as it has to be named when it is merged."""
    at = dict(e.attrib)
    if 'ref' in at:
        at['ref'] = tuple(refs[r] for r in at['ref'].split())
    if script:
        if 'name' in at:
            at['name'] = own or (renamed(at['name'], script) if e.tag == 'rule' else script + '-' + at['name'])
        if 'by-ref' in at:
            at['by-ref'] = renamed(at['by-ref'], script) if e.tag == 'rule' else script + '-' + at['by-ref']
        if 'from-tag' in at and ':' not in at['from-tag']:
            at['from-tag'] = script + '-' + at['from-tag']
        for k in ('match', 'not-match'):
            if k in at:
                at[k] = renamed(at[k], script)
    return (e.tag, tuple(sorted(at.items())), (e.text or '').strip(), tuple(tree(c, refs, script) for c in e))


def definitions(l, names, xmls, script=None):
    refs = {str(k): v['value'] for k, v in l.reference_manager.items()}
    return {n: tree(etree.fromstring(x), refs, script) for n, x in zip(names, xmls)}


def meaning(members):
    """:param members: [(script, LGR)] sorted. The merged LGR, or Conflict."""
    from lgr.core import DEFAULT_ACTIONS
    chars, rules, classes, actions = {}, {}, {}, []
    for script, l in members:
        refs = {str(k): v['value'] for k, v in l.reference_manager.items()}
        mine = definitions(l, l.rules, l.rules_xml, script)
        for n, t in mine.items():
            rules.setdefault(renamed(n, script), t)
        for n, t in definitions(l, l.classes, l.classes_xml, script).items():
            classes[script + '-' + n] = t
        actions += [tree(etree.fromstring(x), refs, script) for a, x in zip(l.actions, l.actions_xml) if a not in DEFAULT_ACTIONS]
        for c in l.repertoire:
            e = chars.setdefault(c.cp, {'comment': [], 'tags': [], 'refs': [], 'cond': [None, None], 'variants': {}, 'from': []})
            e['from'].append(script)
            if c.comment is not None and c.comment not in e['comment']:
                e['comment'].append(c.comment)
            e['tags'] += [t if ':' in t else script + '-' + t for t in c.tags]
            if l.unicode_database is not None and len(c.cp) == 1:
                e['tags'] += [str(x) for x in l.unicode_database.get_script_extensions(c.cp[0])]
            e['refs'] += [refs[r] for r in c.references]
            for i, name in enumerate((c.when, c.not_when)):
                if not name:
                    continue
                old = e['cond'][i]
                if old is None:
                    e['cond'][i] = ([script], name)
                elif old[1] != name:
                    raise Conflict((c.cp, name))
                else:
                    e['cond'][i] = ([script] + old[0], name)
                    if name != MSR:
                        own = '-'.join(e['cond'][i][0] + [name])
                        rules[own] = tree(etree.fromstring(l.rules_xml[l.rules.index(name)]), refs, script, own)
            for v in c.get_variants():
                key = (v.cp, renamed(v.when, script), renamed(v.not_when, script))
                if key not in e['variants']:
                    e['variants'][key] = ('blocked', v.comment, tuple(refs[r] for r in v.references))
    for e in chars.values():
        if all(e['cond']):
            raise Conflict('when and not-when')
        e['cond'] = [c and ('Common-' + MSR if c[1] == MSR else '-'.join(c[0] + [c[1]])) for c in e['cond']]
    return chars, rules, classes, actions


def closure(rels):
    return C25.expected(rels)


def content(l):
    refs = {str(k): v['value'] for k, v in l.reference_manager.items()}
    chars = {}
    for c in l.repertoire.all_repertoire():
        chars[c.cp] = {'comment': c.comment, 'tags': tuple(c.tags), 'refs': [refs[r] for r in c.references], 'cond': [c.when, c.not_when],
                       'variants': {(v.cp, v.when, v.not_when): (v.type, v.comment, tuple(refs[r] for r in v.references)) for v in c.get_variants()}, 'range': hasattr(c, 'first_cp')}
    return chars, definitions(l, l.rules, l.rules_xml), definitions(l, l.classes, l.classes_xml), [tree(etree.fromstring(x), refs) for x in l.actions_xml], sorted(refs.values())


def load(texts, family=None):
    return [S.parse_xml(t, filename='m%d.xml' % i, unidb=S.icu_db() if family == 'scripts' else None) for i, t in enumerate(texts)]


def merge(lgrs):
    from lgr.exceptions import LGRException
    from lgr.tools.merge_set import merge_lgr_set
    try:
        return merge_lgr_set(list(lgrs), 'merged')
    except LGRException as exc:
        return exc


def key_of(l):
    return l.metadata.languages[0].replace('und-', 'zzz')


def check(texts, family, st, lgrs=None):
    import datetime
    from lgr.exceptions import LGRException
    case = {'family': family, 'texts': texts}
    lgrs = lgrs or load(texts, family)
    for l in lgrs:
        l.expand_ranges()
    bad = lambda key, what: st.violation('%s:%s' % (family, key), what, case)
    before = [S.snapshot(l) for l in lgrs]
    day = datetime.date.today().isoformat()
    merged = merge(lgrs)
    days = (day, datetime.date.today().isoformat())
    st.step()
    st.trace()
    st.evaluations += 1
    after = [S.snapshot(l) for l in lgrs]
    if before != after:
        bad('inputs', 'a member changes: %r' % [S.diff_snap(b, a) for b, a in zip(before, after)])
    members = sorted(((l.metadata.languages[0], l) for l in lgrs), key=lambda m: key_of(m[1]))
    try:
        chars, rules, classes, actions = meaning(members)
    except Conflict as exc:
        if not isinstance(merged, LGRException):
            bad('conflict', 'conditions %r are merged' % (exc,))
        st.outcome('conflict')
        return
    if isinstance(merged, Exception):
        bad('refused', 'not merged: %r' % merged)
        return
    got = content(merged)
    for what, g, w in (('rules', got[1], rules), ('classes', got[2], classes)):
        if g != w:
            diff = {n: (g.get(n), w.get(n)) for n in set(g) | set(w) if g.get(n) != w.get(n)}
            bad(what, '%s: %r' % (what, diff))
    if got[3] != actions:
        bad('actions', 'actions are %r instead of %r' % (got[3], actions))
    if sorted(set(got[4])) != sorted({r['value'] for l in lgrs for r in l.reference_manager.values()}) or len(set(got[4])) != len(got[4]):
        bad('references', 'references are %r' % got[4])
    if set(got[0]) != set(chars):
        bad('repertoire', 'repertoire is %r' % sorted(got[0]))
        return
    rel = family.startswith('relation')
    # the variant sets of all members together
    edges = [[[cp, v[0]]] for cp, e in chars.items() for v in e['variants']]
    comp = closure(edges)
    for cp, w in chars.items():
        g = got[0][cp]
        if (g['comment'] or '').split('|') != (w['comment'] or ['']):
            bad('comment', 'comment of %r is %r instead of %r' % (cp, g['comment'], w['comment']))
        if sorted(g['tags']) != sorted(set(w['tags'])):
            bad('tags', 'tags of %r are %r instead of %r' % (cp, g['tags'], w['tags']))
        if sorted(g['refs']) != sorted(set(w['refs'])):
            bad('refs', 'references of %r are %r instead of %r' % (cp, g['refs'], w['refs']))
        if g['cond'] != w['cond']:
            bad('cond', 'conditions of %r are %r instead of %r' % (cp, g['cond'], w['cond']))
        for k, v in w['variants'].items():
            if g['variants'].get(k) not in (v, ('blocked', TRANSITIVE, ())):
                bad('variants', 'variant %r of %r is %r instead of %r' % (k, cp, g['variants'].get(k), v))
        for k, v in g['variants'].items():
            if k not in w['variants'] and (k[1:] != (None, None) or k[0] not in comp.get(cp, ()) or k[0] == cp or v[0] != 'blocked'):
                bad('variants', 'variant %r of %r is new' % (k, cp))
        if rel:
            expect = (comp.get(cp, {cp}) - {cp}) | {v[0] for v in w['variants'] if v[0] == cp}
            if {k[0] for k in g['variants']} != expect:
                bad('sets', 'variants of %r are %r instead of %r' % (cp, sorted(g['variants']), sorted(expect)))
        elif len(w['from']) == 1 and g['variants'] != w['variants'] and family != 'variant' and family != 'variant3':
            bad('variants', 'variants of %r are %r instead of %r' % (cp, g['variants'], w['variants']))
    if family == 'meta':
        check_meta([l for _, l in members], merged, bad, days)
    if family == 'relation4':
        check_labels([labelled(t) for t in texts], merged, bad, st)
    st.outcome(digest(got))
    st.state(digest(sorted(map(repr, got))))
    view = compare.rendering(merged)
    for order in itertools.permutations(lgrs):
        again = merge(order)
        st.step()
        st.trace()
        st.evaluations += 1
        if isinstance(again, Exception) or compare.rendering(again) != view:
            bad('order', 'the merged LGR depends on the order of the set: %r' % again)
    return view


def check_meta(lgrs, merged, bad, days):
    ms, m = [l.metadata for l in lgrs], merged.metadata
    flat = lambda xs: [x for n, x in enumerate(xs) if x not in xs[:n]]
    if m.date not in days:
        bad('date', m.date)
    for what, get in (('scopes', lambda m: [(s.value, s.scope_type) for s in m.scopes]), ('languages', lambda m: list(m.languages))):
        want = flat([x for k in ms for x in get(k)])
        if get(m) != want:
            bad(what, '%s are %r instead of %r' % (what, get(m), want))
    starts, ends = [k.validity_start for k in ms if k.validity_start], [k.validity_end for k in ms if k.validity_end]
    if m.validity_start != (max(starts) if starts else None) or m.validity_end != (min(ends) if ends else None):
        bad('validity', 'validity is %r %r' % (m.validity_start, m.validity_end))
    if m.unicode_version != max((k.unicode_version for k in ms), key=lambda v: [int(x) for x in v.split('.')]):
        bad('unicode', 'Unicode version is %r' % m.unicode_version)
    for attr in ('value', 'comment'):
        want = '|'.join(flat([getattr(k.version, attr) for k in ms if k.version and getattr(k.version, attr)]))
        if (getattr(m.version, attr) or '') != want:
            bad('version', 'version %s is %r instead of %r' % (attr, getattr(m.version, attr), want))
    for k in ms:
        if k.description and k.description.value not in m.description.value:
            bad('description', 'description is %r' % m.description.value)


LABELLED = {}


def labelled(text):
    """The LGR of a document, with a Unicode database: not merged, as the merge would add the scripts of the code points to their tags."""
    if text not in LABELLED:
        l = LABELLED[text] = S.parse_xml(text)
        l.unicode_database = S.icu_db()
    return LABELLED[text]


def check_labels(lgrs, merged, bad, st):
    """A label of a member is in the merged LGR, and has at least the same variants."""
    from lgr.parser.xml_serializer import serialize_lgr_xml
    merged = labelled(serialize_lgr_xml(merged).decode('utf-8'))
    for l in lgrs:
        alphabet = sorted({c for e in l.repertoire.all_repertoire() for c in e.cp})
        for label in itertools.chain.from_iterable(itertools.product(alphabet, repeat=n) for n in (1, 2)):
            if not l.test_label_eligible(label)[0]:
                continue
            st.step()
            st.trace()
            st.evaluations += 1
            if not merged.test_label_eligible(label)[0]:
                bad('labels', 'label %r is not eligible in the merged LGR' % (label,))
                continue
            mine, all_ = [{tuple(v[0]) for v in x.compute_label_disposition(label, include_invalid=True)} for x in (l, merged)]
            if not mine <= all_:
                bad('labels', 'label %r has variants %r, and %r in the merged LGR' % (label, mine, all_))


def cases(shard):
    make, k = FAMILIES[shard['family']]
    specs = make()
    for i in range(*shard['first']):
        for rest in itertools.product(range(len(specs)), repeat=k - 1):
            yield [xml(specs[n], SCRIPTS[p]) for p, n in enumerate((i,) + rest)]


def renderings(shard, tier):
    out, cache = [], {}
    for texts in cases(shard):
        m = merge(cached(texts, shard['family'], cache))
        out.append(None if isinstance(m, Exception) else compare.rendering(m))
    return out


def cached(texts, family, cache):
    for t in texts:
        if t not in cache:
            cache[t] = load([t], family)[0]
    return [cache[t] for t in texts]


def run_shard(shard, st):
    views, cache, all_cases = [], {}, []
    for texts in cases(shard):
        views.append(check(texts, shard['family'], st, cached(texts, shard['family'], cache)))
        all_cases.append(texts)
    st.sample({'family': shard['family'], 'texts': texts})
    for seed in (1,) if st.tier == 'quick' else (1, 2):
        for texts, a, b in zip(all_cases, views, compare.rendering_of_shard(PROPERTY, shard, st.tier, seed)):
            st.step()
            st.trace()
            st.evaluations += 1
            if a != b:
                st.violation('%s:process' % shard['family'], 'the merged LGR is not the same in another process', {'family': shard['family'], 'texts': texts, 'shard': shard})


def replay(case, st):
    check(case['texts'], case['family'], st)
    if 'shard' in case:
        run_shard(case['shard'], st)
