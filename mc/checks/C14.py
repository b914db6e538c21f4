# -*- coding: utf-8 -*-
"""
C14 - writing an LGR as XML and reading it back gives the same LGR.

Families: metadata (every pair of fields over menus of values), entries (every combination of the attributes of one entry, of
one variant, every subset of nested and adjacent entries in several orders), rules / classes / actions (every node kind alone
and in pairs, every combination of the attributes of an action, every interleaving of definitions), LGRs edited after having
been read (every history up to a depth). For each LGR: write (with and without pretty printing), compare the document with the
description it was made from (independent reader), read it back strictly, compare everything, write again: same bytes.
"""
import itertools
import xml.etree.ElementTree as ET

from mc import lgrspec as S
from mc.checks import C04, C05, C12
from mc.editmodel import op, run_real

PROPERTY = 'C14'
LEVEL = 'model_checking'
RULE = 'a case is one LGR (written twice and read back); non trivial = distinct documents written'
A, B, C, D = 0x61, 0x62, 0x63, 0x64

TEXTS = ['plain', 'a&b<c>"d\'e', 'é漢\U0001F600', 'line\nnext\ttab', ' lead  trail ', 'x]]>y<![CDATA[z', '&amp; &#65; %s {0}']
FIELDS = {
    'version': [None, ('1', None), ('1.0', 'note'), ('2', ''), (None, 'only a comment')] + [(t, t) for t in TEXTS],
    'date': [None, '2020-02-29'], 'validity_start': [None, '2021-01-01'], 'validity_end': [None, '2022-12-31'],
    'unicode_version': ['6.3.0', '10.0.0'],
    'languages': [(), ('en',), ('und-Latn', 'ar', 'zh-Hant'), ('und-Arab', 'en')],
    'scopes': [(), (('example.com', 'domain'),), (('z', None), ('a', 'domain'), ('z', 'domain'))] + [((t, t),) for t in TEXTS[1:]],
    'description': [None, ('text', None)] + [(t, 'text/plain') for t in TEXTS] + [(t, 'text/html') for t in TEXTS] +
                   [('a\rb', 'text/plain'), ('', 'text/html'), ('', None), ('<p>x</p>', 'text/enriched'), (']]>', 'text/html'), ('a]]>b]]>c', 'text/html')],
    'refs': [(), (('0', 'r', None),), (('10', 'r', 'c'), ('2', 's', None), ('A-1', 't', 'd'), ('_.:', 'u', None)),
             (('0', None, None), ('1', None, 'c'))] + [(('0', t, t),) for t in TEXTS],
}
COMMENTS = [None, ''] + TEXTS
CONDS = [(None, None), ('afterA', None), (None, 'afterA')]
RULES = [('afterA', [('behind', (('char', (A,), None),)), ('anchor',)]), ('hasB', [('char', (B,), None)])]
REFS = [('0', 'zero', None), ('A', 'a', 'c'), ('10', 'ten', None)]
REFLISTS = [(), ('0',), ('A', '10', '0')]
TAGLISTS = [(), ('t',), ('u', 't-1', 'é')]
SHAPES = [((A,), None), ((A, B), None), ((0x1F600,), None), ((A, B, A, C), None), ((C,), (C, D)), ((0x30,), (0x30, 0x3A))]
NESTED = [(A,), (A, B), (A, C), (A, B, C), (B,), (B, A), ('r', C, D), ('r', D + 1, D + 3), (C, A), (0x4E00,)]
ACTS = [(m, v) for m in ((None, None), ('hasB', None), (None, 'hasB'))
        for v in ({}, {'any': ('x',)}, {'any': ('x', 'y')}, {'all': ('y',)}, {'only': ('z', 'x')})]

BOUNDS = {'quick': 'metadata: full products of every pair of %d fields; entries: every combination of the attributes (%d comments, conditions, '
                   'references, tags) for %d shapes, variants likewise; every subset of %d nested or adjacent entries; rules: every element of a pool of %d '
                   'alone and in pairs, class expressions of depth 2, actions; edits: every history of length <= 2'
                   % (len(FIELDS), len(COMMENTS), len(SHAPES), len(NESTED), len(C04.POOL)),
          'thorough': 'triples of metadata fields; rules of three elements; histories of length <= 3'}
ASSUMPTIONS = ['texts hold characters which XML can carry unchanged (no control characters, no carriage return)',
               'rules, classes and actions come from a document: the LGR keeps them as text for writing']


# -- independent reading of a document: a tree without layout ---------------------------------------------------------

def canon(xml):
    root = ET.fromstring(xml)

    def node(e, leaf_text=True):
        tag = e.tag.split('}')[-1]
        kids = [node(k) for k in e]
        if tag in ('char', 'range', 'var') or tag == 'data':
            kids.sort(key=repr)
        text = e.text or ''
        if kids or tag in ('meta', 'data', 'rules', 'lgr', 'references'):
            text = ''
        if tag == 'class':
            text = tuple(text.split())
        return (tag, tuple(sorted((k, v) for k, v in e.attrib.items() if v != '')), text, tuple(kids))

    tag, at, text, kids = node(root)
    out = {k[0]: k[3] for k in kids}
    # the order of the elements of meta has no meaning, but among languages, scopes and references
    out['meta'] = tuple(sorted(out.get('meta', ()), key=lambda k: k[0]))
    out['rules'] = tuple(sorted(out.get('rules', ()), key=lambda k: {'rule': 1, 'action': 2}.get(k[0], 0)))
    return out


def metadata(m):
    from lgr.metadata import Metadata, Scope, Description, Version
    md = Metadata()
    md.set_unicode_version(m.get('unicode_version', '6.3.0'))
    if m.get('version'):
        md.version = Version(*m['version'])
    for f in ('date', 'validity_start', 'validity_end'):
        if m.get(f):
            getattr(md, 'set_' + f)(m[f])
    for l in m.get('languages', ()):
        md.add_language(l)
    for v, t in m.get('scopes', ()):
        md.scopes.append(Scope(v, t))
    if m.get('description'):
        md.description = Description(*m['description'])
    return md


def make(sp, m):
    lgr = S.build(dict(sp, meta={}))
    lgr.metadata = metadata(m)
    return lgr


def spec_xml(sp, m):
    """The document describing it, with the writer of the checks."""
    mm = {k: v for k, v in m.items() if v and k not in ('version', 'description')}
    if m.get('version'):
        mm['version'], mm['version_comment'] = m['version'][0] or '', m['version'][1]
    if m.get('description'):
        mm['description'], mm['description_type'] = m['description'][0] or '', m['description'][1]
    refs = [(i, v or '', c) for i, v, c in sp['refs']]
    return S.to_xml(dict(sp, meta=mm, refs=refs))


def strip(snap):
    out = dict(snap)
    for k in ('rules_xml', 'classes_xml', 'actions_xml'):
        out[k] = tuple(canon('<lgr>%s</lgr>' % x) and repr(ET.canonicalize('<l>%s</l>' % x, strip_text=True)) for x in snap[k])
    # classes of tags which no code point carries any more
    out['class_objs'] = tuple(c for c in snap['class_objs'] if c[2] or not c[3])
    out['refs'] = tuple((i, v or None, c or None) for i, v, c in snap['refs'])
    md = list(snap['meta'])
    if md[0]:
        md[0] = tuple(x or None for x in md[0])
    if md[-1]:
        md[-1] = (md[-1][0] or None, md[-1][1])
    out['meta'] = tuple(md)
    out.pop('types')
    return out


LABELS = [l for k in (1, 2) for l in itertools.product((A, B, C), repeat=k)] + [(A, B, C), (C, B, A)]


def answers(lgr, rules=False):
    out = []
    for l in LABELS:
        r = lgr.test_label_eligible(l, collect_log=False)
        out.append((r[0], tuple(r[1]), r[3], r[4]))
        if r[0]:
            out.append(sorted((v[0], v[1], v[3], sorted(map(str, v[4]))) for v in lgr.compute_label_disposition(l, collect_log=False)))
        if rules:
            out.extend(lgr.rules_lookup[n].matches(l, lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database) for n in lgr.rules)
    return out


def roundtrip(lgr, st, case, want_xml=None, force=False, ask=None, pretty=True):
    """
    :param want_xml: the document which describes the LGR.
    :param ask: function giving the answers to compare.
    """
    from lgr.parser.xml_serializer import serialize_lgr_xml
    st.evaluations += 1
    st.trace()
    before = S.snapshot(lgr)
    try:
        doc = serialize_lgr_xml(lgr)
    except Exception as e:
        return st.violation('write', 'writing raises %s: %s' % (type(e).__name__, e), case)
    st.outcome(doc)
    if want_xml is not None:
        a, b = canon(doc), canon(want_xml)
        for k in b:
            if a.get(k, ()) != b[k]:
                d = [x for x in a.get(k, ()) if x not in b[k]], [x for x in b[k] if x not in a.get(k, ())]
                st.violation('document', '<%s> is written as %r instead of %r' % (k, d[0][:3], d[1][:3]), case)
                break
    if S.snapshot(lgr) != before:
        st.violation('altered', 'writing alters the LGR: %r' % S.diff_snap(before, S.snapshot(lgr)), case)
    docs = [('', doc)]
    if pretty:
        docs.append(('pretty printed, ', serialize_lgr_xml(lgr, pretty_print=True)))
        docs.append(('as text, ', serialize_lgr_xml(lgr, encoding='unicode', xml_declaration=False).encode('utf-8')))
        docs.append(('in UTF-16, ', serialize_lgr_xml(lgr, encoding='utf-16')))
    want = strip(before)
    for how, d in docs:
        try:
            back = S.parse_bytes(d, force=force, filename=lgr.name, unidb=S.icu_db() if ask and not how else None)
        except Exception as e:
            st.violation('read', '%sreading back raises %s: %s' % (how, type(e).__name__, e), case)
            continue
        got = strip(S.snapshot(back))
        if got != want:
            st.violation('differs', '%sread back, it differs: %r' % (how, S.diff_snap(want, got)), case)
            continue
        if how:
            continue
        again = serialize_lgr_xml(back)
        if again != doc:
            st.violation('fixed-point', 'written again, the document read back gives other bytes: %r then %r' % (
                doc[:1500], again[:1500]), case)
        if ask is not None:
            x, y = ask(lgr), ask(back)
            if x != y:
                st.violation('answers', 'labels are answered differently: %r' % [p for p in zip(x, y) if p[0] != p[1]][:3], case)


# -- families -----------------------------------------------------------------------------------------------------------

def meta_cases(tier):
    names = sorted(FIELDS)
    k = 2 if tier == 'quick' else 3
    seen = set()
    for group in itertools.combinations(names, k):
        for vals in itertools.product(*[FIELDS[n] for n in group]):
            m = {n: v for n, v in zip(group, vals) if v not in (None, ())}
            key = repr(sorted(m.items()))
            if key not in seen:
                seen.add(key)
                yield m
    for i in range(max(map(len, FIELDS.values()))):
        yield {n: v[i % len(v)] for n, v in FIELDS.items() if v[i % len(v)] not in (None, ())}


def run_meta(m, st, case):
    refs = list(m.get('refs', ()))
    sp = S.spec([S.char((A,), refs=tuple(r[0] for r in refs))], refs=refs)
    md = {k: v for k, v in m.items() if k != 'refs'}
    roundtrip(make(sp, md), st, case, spec_xml(sp, md))


def entry_items(tier):
    for (cp, r), comment, (w, n), refs, tags in itertools.product(SHAPES, COMMENTS, CONDS, REFLISTS, TAGLISTS):
        if r is not None:
            yield [S.rng(r[0], r[1], when=w, not_when=n, tags=tags, refs=refs, comment=comment)]
        elif len(cp) == 1 or not tags:
            yield [S.char(cp, when=w, not_when=n, tags=tags, refs=refs, comment=comment)]
    shapes = [(B,), (A,), (A, B), (0x1F600, B, B)]
    for cp, typ, comment, (w, n), refs in itertools.product(shapes, (None, 'blocked', 'x-1.é'), COMMENTS, CONDS, REFLISTS):
        yield [S.char((A,), [S.var(cp, typ, w, n, comment, refs)])]
    # several variants with the same code points, and others
    vs = [S.var((B,), 't'), S.var((B,), 'u', when='afterA'), S.var((B,), 'v', not_when='afterA', comment='k'), S.var((A,), None),
          S.var((A, B), 't'), S.var((C,), 't', refs=('0',))]
    for k in range(2, 5):
        for sub in itertools.permutations(vs, k) if k < 4 else itertools.combinations(vs, k):
            yield [S.char((A,), sub), S.char((A, B), sub[::-1], comment='second')]


def entry_case(items):
    return S.spec(items, rules=RULES, refs=REFS)


def nested_cases(tier):
    for mask in range(1, 2 ** len(NESTED)):
        sub = [e for i, e in enumerate(NESTED) if mask >> i & 1]
        for order in (sub, sub[::-1]):
            items = []
            for i, e in enumerate(order):
                if e[0] == 'r':
                    items.append(S.rng(e[1], e[2], comment='r%d' % e[1], tags=('t',)))
                else:
                    items.append(S.char(e, [S.var((B, B), 'x')] if len(e) == 2 else [], comment=str(len(e))))
            yield items


def attributed_rules():
    """Comments, references and layouts of the definitions themselves, kept as text."""
    c = ' comment="a &amp; &lt;b&gt; &quot;c&quot;"'
    yield '<rule name="r"%s ref="0 A"><start%s/><char cp="0061"%s count="1+"/><end/></rule>' % (c, c, c)
    yield '<rule name="r"><look-behind%s><char cp="0061"/></look-behind><anchor%s/><look-ahead%s><any%s/></look-ahead></rule>' % (c, c, c, c)
    yield '<rule name="r">\n  <choice count="2"%s>\n    <char cp="0061"/>\n  <rule%s><any/></rule> </choice>\n</rule>' % (c, c)
    yield '<class name="k"%s ref="10"> 0061\n 0063-0064 </class>' % c
    yield '<class name="k"><char cp="0061"%s/><range first-cp="0063" last-cp="0064"/></class>' % c
    yield '<union name="k"%s><class>0061</class>\n<complement%s><class property="gc:Ll"/></complement></union>' % (c, c)
    yield '<action disp="x"%s ref="A 0" match="hasB" any-variant="x y"/>' % c
    yield '<action disp="x"/>'
    yield '<action disp="x" not-match="hasB" only-variants="x"/>'
    yield '<rule name="r"><class%s>0061</class><class by-ref="named" count="0:1"%s/><union count="2"><class>0061</class><class by-ref="named"/></union></rule>' % (c, c)


BASE = ('<?xml version="1.0" encoding="utf-8"?>\n<lgr xmlns="%s"><meta><references><reference id="0">z</reference><reference id="A">a</reference>'
        '<reference id="10">t</reference></references></meta><data><char cp="0061" tag="t"><var cp="0062" type="x"/></char><char cp="0062" tag="u"/>'
        '<char cp="0063"/><range first-cp="0067" last-cp="0069" tag="t"/></data><rules>%%s</rules></lgr>' % S.LGR_NS)
HEAD = ('<class name="named">0061 0062</class>', '<rule name="hasB"><char cp="0062"/></rule>')


def rule_docs(tier):
    """Documents with many definitions each (kind, definitions as text)."""
    out = []
    extra = list(attributed_rules())
    for n in (1, 2):
        for t in itertools.permutations(extra, n):
            if n == 2 and [x.split('"')[1] for x in t if not x.startswith('<action')].count('r') > 1:
                continue
            if n == 2 and [x.split('"')[1] for x in t if not x.startswith('<action')].count('k') > 1:
                continue
            out.append(HEAD + t)
    # definitions in every interleaving
    defs = ['<class name="k">0061</class>', '<rule name="r"><char cp="0061"/></rule>', '<action disp="d1"/>', '<action disp="d2" match="hasB"/>',
            '<class name="l"><char cp="0063"/></class>']
    for p in itertools.permutations(defs):
        out.append(HEAD + p)
    # actions: pairs of all combinations of attributes
    acts = [S.action_xml(S.action('d%d' % i, m, n, **v)) for i, ((m, n), v) in enumerate(ACTS)]
    for i in range(len(acts)):
        out.append(HEAD + tuple(acts[i:] + acts[:i]))
    # every element, alone and in pairs, in chunks
    cl = [S.class_xml(c, name=n) for n, c in C04.REFCLASSES]
    rl = ['<rule name="%s">%s</rule>' % (n, ''.join(S.node_xml(x) for x in nodes)) for n, nodes in C04.REFRULES]
    seqs = [(n,) for n in C04.POOL] + list(itertools.product(C04.POOL, repeat=2))
    if tier != 'quick':
        seqs += list(itertools.product(C04.POOL, C04.CORE, C04.CORE))
    size = 150
    for i in range(0, len(seqs), size):
        out.append(tuple(cl + rl + ['<rule name="x%d">%s</rule>' % (j, ''.join(S.node_xml(x) for x in s))
                                    for j, s in enumerate(seqs[i:i + size])]))
    cn = [S.class_xml(c, name=n) for n, c in C05.NAMED]
    ex = [x for x in C05.expressions('quick') if x[0] != 'ref']
    for i in range(0, len(ex), size):
        out.append(tuple(cn + [S.class_xml(c, name='k%d' % j) for j, c in enumerate(ex[i:i + size])] +
                         ['<rule name="u%d"><class by-ref="k%d"/></rule>' % (j, j) for j in range(len(ex[i:i + size]))]))
    return out


def run_rules(defs, st, case):
    text = BASE % '\n  '.join(defs)
    try:
        lgr = S.parse_xml(text, unidb=S.icu_db())
    except Exception as e:
        return st.violation('read-rules', 'reading %s raises %s: %s' % (text[:300], type(e).__name__, e), case)
    st.count('definitions', len(defs))
    few = len(defs) < 40
    roundtrip(lgr, st, case, text.replace('</meta>', '<unicode-version>6.3.0</unicode-version></meta>'),
              ask=lambda l: answers(l, True), pretty=few)


EDITED = BASE.replace('<references>', '<version comment="v">1</version><language>en</language><references>') % (
    '<class name="named">0061 0062</class><class name="tt" from-tag="t"/><rule name="w"><look-behind><class by-ref="tt"/></look-behind><anchor/></rule>'
    '<action disp="d" any-variant="x"/>')
METAOPS = [('meta', 'date', '2020-02-29'), ('meta', 'unicode_version', '7.0.0'), ('meta', 'languages', ('ar', 'en')),
           ('meta', 'add_language', 'und-Hebr'), ('meta', 'version', ('2', None)), ('meta', 'scope', ('x', 'domain')),
           ('meta', 'description', ('d<', 'text/html')), ('meta', 'nodescription', None)]
OPS = list(C12.OPS) + [op('del_cp', 0x68), op('del_range', 0x67, 0x69), op('expand_range', 0x67, 0x69), op('add_cp', (A, B, C), comment='k', when='w'),
                       op('add_variant', (A, B), (A,), when='w'), op('add_variant', A, A, not_when='w', comment='m'), op('add_cp', 0x68, force=True),
                       op('add_range', 0x6A, 0x6B, not_when='w', comment='adjacent')] + METAOPS


def edit(lgr, o):
    from lgr.metadata import Scope, Description, Version
    if o[0] != 'meta':
        return run_real(lgr, o)
    md = lgr.metadata
    _, f, v = o
    if f == 'languages':
        md.set_languages(v)
    elif f == 'add_language':
        md.add_language(v)
    elif f == 'version':
        md.version = Version(*v)
    elif f == 'scope':
        md.scopes.append(Scope(*v))
    elif f == 'description':
        md.description = Description(*v)
    elif f == 'nodescription':
        md.description = None
    else:
        getattr(md, 'set_' + f)(v)


def run_edits(ops, st):
    lgr = S.parse_xml(EDITED, unidb=S.icu_db())
    for o in ops:
        st.step()
        edit(lgr, o)
    roundtrip(lgr, st, {'kind': 'edits', 'ops': ops}, force=any(dict(o[2]).get('force') for o in ops if o[0] != 'meta'),
              ask=answers if len(ops) < 2 else None, pretty=False)


def families(tier):
    return {'meta': list(meta_cases(tier)), 'entry': list(entry_items(tier)), 'nested': list(nested_cases(tier)),
            'rules': rule_docs(tier), 'edits': [()] + [t for k in range(1, 3 if tier == 'quick' else 4)
                                                      for t in itertools.product(OPS, repeat=k)]}


def shards(tier):
    n = {'meta': 8, 'entry': 8, 'nested': 8, 'rules': 16, 'edits': 8}
    if tier != 'quick':
        n = {k: v * 8 for k, v in n.items()}
    return [[k, i, m] for k, m in n.items() for i in range(m)]


def run_shard(shard, st):
    kind, k, mod = shard
    fam = families(st.tier)[kind]
    for n in range(k, len(fam), mod):
        st.state((kind, n))
        run_one(kind, fam[n], st)
    if k == 0:
        st.sample({'kind': kind, 'cases': len(fam), 'last': repr(fam[-1])[:300]})


def run_one(kind, x, st):
    case = {'kind': kind, 'case': x}
    if kind == 'meta':
        st.step()
        run_meta(x, st, case)
    elif kind in ('entry', 'nested'):
        st.step()
        sp = entry_case(x)
        if kind == 'nested':
            sp['refs'] = []
        lgr = make(sp, {})
        if kind == 'nested':
            lgr.unicode_database = S.icu_db()
        roundtrip(lgr, st, case, spec_xml(sp, {}), pretty=kind == 'entry', ask=answers if kind == 'nested' and len(x) < 3 else None)
    elif kind == 'rules':
        st.step()
        run_rules(x, st, case)
    else:
        run_edits(x, st)


def replay(case, st):
    case = S.from_json(case)
    if case['kind'] == 'edits':
        run_edits(case['ops'], st)
    else:
        x = case['case']
        run_one(case['kind'], list(x) if case['kind'] in ('entry', 'nested') else x, st)
