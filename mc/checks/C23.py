# -*- coding: utf-8 -*-
"""
C23 - the difference report of two LGRs (and of two sets of LGRs) says exactly what differs.

Space: the pairs of C21 and C22, identical ones included; every pair of sets of LGRs out of a menu. The report is read back as a list of events (element, values) which is
compared with the differences between the documents.
"""
import ast
import itertools
import re
import sys

from mc import compare
from mc import lgrspec as S
from mc.common import digest

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = 'a case is one ordered pair of LGRs (of sets of LGRs) compared; non trivial = distinct pairs of contents'
BOUNDS = {t: 'every ordered pair of each of %s, with identical elements shown or not; each pair again in another process with other hashes of strings; every ordered pair of lists of at most 2 of 6 LGRs of 2 languages'
             % ', '.join('%d (%s)' % (len(compare.family(f, t)), f) for f in compare.FAMILIES) for t in ('quick', 'thorough')}
ASSUMPTIONS = ['actions are compared as a set', 'the layout of the report is the current one']
ONE = re.compile(r"\n(?P<name>[^\n]+) values differ:\nFirst LGR: '(?P<a>.*?)'\.\nSecond LGR: '(?P<b>.*?)'\.\n", re.S)
SET = re.compile(r"\n(?P<name>[^\n]+) values differ:\nValues only in first LGR: (?P<a>.*?)\.\nValues only in second LGR: (?P<b>.*?)\.\n", re.S)
SAME = re.compile(r"\nSame (?P<name>[^\n]+) value for both LGR: '(?P<a>.*?)'\.", re.S)
NONE = re.compile(r"\n(?P<name>First|Second) LGR has no (?P<a>[a-z]+)")
CP = re.compile(r"\n    \+ Compare code point (?P<name>U\+[^\n]*)")
SETS = {'Scopes': lambda t: t.split(', '), 'Languages': ast.literal_eval, 'References': ast.literal_eval, 'Repertoire': str.split, 'Variants': lambda t: re.split(', (?=Variant )', t), 'Actions': ast.literal_eval,
        'Rules': ast.literal_eval, 'Classes': ast.literal_eval}


def shards(tier):
    return compare.shards(tier) + [{'sets': i} for i in range(len(SETMENU))]


def renderings(shard, tier):
    return compare.renderings(sys.modules[__name__], shard, tier)


def combine(one, two):
    from lgr.tools.compare import diff_lgrs
    return diff_lgrs(one, two, show_same=False), diff_lgrs(one, two)


def render(one, two):
    return digest(combine(one, two)).hex()


def events(text):
    """What a report says: {(code point or None, element): what}, and what it says is the same."""
    found = []
    for rx, kind in ((ONE, 'one'), (SET, 'set'), (SAME, 'same'), (NONE, 'none'), (CP, 'cp')):
        found += [(m.start(), kind, m) for m in rx.finditer(text)]
    wle = text.index('** Compare WLE **')
    out, same, compared, cp = {}, {}, [], None
    rest = text
    for pos, kind, m in sorted(found, key=lambda f: f[0]):
        if pos > wle:
            cp = None
        if kind == 'cp':
            cp = m.group('name').strip()
            compared.append(cp)
        elif kind == 'none':
            out.setdefault((None, m.group('a').capitalize()), []).append(m.group('name'))
        elif kind == 'same':
            assert (cp, m.group('name').capitalize()) not in same
            same[cp, m.group('name').capitalize()] = m.group('a')
        elif kind == 'one':
            out.setdefault((cp, m.group('name')), []).append((m.group('a'), m.group('b')))
        else:
            f = lambda t: sorted(SETS[m.group('name')](t)) if t else []
            out.setdefault((cp, m.group('name')), []).append((f(m.group('a')), f(m.group('b'))))
    n = re.search(r'\n(\d+) code points are identical', text)
    return out, same, compared, int(n.group(1)) if n else 0


def u(cp):
    return ' '.join('U+%04X' % c for c in cp)


def expected(one, two):
    """The differences, by element, of two documents."""
    out, every = {}, []

    def single(cp, name, a, b):
        every.append((cp, name))
        if a != b:
            out.setdefault((cp, name), []).append((str(a), str(b)))

    def several(cp, name, a, b):
        every.append((cp, name))
        if set(a) != set(b):
            out.setdefault((cp, name), []).append((sorted(x for x in set(a) - set(b)), sorted(x for x in set(b) - set(a))))

    m, n = one.metadata, two.metadata
    for name, a, b, attrs in (('Version', m.version, n.version, (('Version', 'value'), ('Version comment', 'comment'))), ('Description', m.description, n.description, (('Description type', 'description_type'), ('Description', 'value')))):
        if a is None or b is None:
            if a is not b:
                out.setdefault((None, name), []).append('First' if a is None else 'Second')
        else:
            for what, attr in attrs:
                single(None, what, getattr(a, attr), getattr(b, attr))
    several(None, 'Scopes', list(map(str, m.scopes)), list(map(str, n.scopes)))
    several(None, 'Languages', m.languages, n.languages)
    single(None, 'Date', m.date, n.date)
    single(None, 'Validity start', m.validity_start, n.validity_start)
    single(None, 'Validity end', m.validity_end, n.validity_end)
    single(None, 'Unicode version', m.unicode_version, n.unicode_version)
    several(None, 'References', *[[r['value'] for r in l.reference_manager.values()] for l in (one, two)])
    chars = [{c.cp: c for c in l.repertoire} for l in (one, two)]
    every.append((None, 'Repertoire'))
    if set(chars[0]) != set(chars[1]):
        out[None, 'Repertoire'] = [tuple(sorted(' '.join(u(c) for c in set(a) - set(b)).split()) for a, b in (chars, chars[::-1]))]
    same = 0
    for cp in set(chars[0]) & set(chars[1]):
        a, b = chars[0][cp], chars[1][cp]
        before = len(out)
        single(u(cp), 'Comment', a.comment, b.comment)
        single(u(cp), 'Tags', a.tags, b.tags)
        single(u(cp), 'When rule', a.when, b.when)
        single(u(cp), 'Not-when rule', a.not_when, b.not_when)
        several(u(cp), 'Variants', *[['Variant %s: type=%s - when=%s - not-when=%s - comment=%s' % (u(v.cp), v.type, v.when, v.not_when, v.comment) for v in c.get_variants()] for c in (a, b)])
        same += len(out) == before
    clean = lambda l: [x.strip() for x in l]
    whole = set()
    for kind in ('Actions', 'Rules', 'Classes'):
        if kind == 'Actions':
            a, b = clean(one.actions_xml), clean(two.actions_xml)
        else:
            a, b = getattr(one, kind.lower()), getattr(two, kind.lower())
        several(None, kind, a, b)
        whole.add((None, kind))
    for name, xs in (('Rule definition', [dict(zip(l.rules, clean(l.rules_xml))) for l in (one, two)]), ('Class definition', [dict(zip(l.classes, clean(l.classes_xml))) for l in (one, two)])):
        for n in xs[0]:
            if n in xs[1]:
                single(None, name, xs[0][n], xs[1][n])
                whole.add((None, name))
    return out, [e for e in every if e not in whole], same, [u(c) for c in set(chars[0]) & set(chars[1])]


def check(one, two, o1, o2, res, fail, days):
    want, every, identical, common = expected(one, two)
    for text, show in zip(res, (False, True)):
        got, same, compared, n = events(text)
        if {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in want.items()} and not (show and missing(got, want)):
            fail('%sreport says %r instead of %r' % ('full ' if show else '', got, want))
        if show:
            if sorted(compared) != sorted(common):
                fail('full report compares %r' % compared)
            both = [e for e in every if e not in want]
            if sorted(same, key=repr) != sorted(both, key=repr):
                fail('full report says %r are the same instead of %r' % (sorted(same, key=repr), both))
        else:
            if same or n != identical or sorted(compared) != sorted({c for c, _ in want if c}):
                fail('report counts %d identical code points and compares %r; %d are' % (n, compared, identical))
        if not want and not show and re.search('differ|only in|has no', text):
            fail('report of no difference: %s' % text)


def missing(got, want):
    """The full report also says what neither LGR has."""
    rest = {k: v for k, v in got.items() if v != ['First', 'Second']}
    return {k: sorted(v) for k, v in rest.items()} == {k: sorted(v) for k, v in want.items()}


# -- sets -------------------------------------------------------------------------------------------------------------------------

LGRS = [S.spec([S.char((compare.A,))], meta={'languages': ['und-Latn']}), S.spec([S.char((compare.A,), tags=('t',)), S.char((compare.B,))], meta={'languages': ['und-Latn', 'fr']}), S.spec([S.char((compare.A,))], meta={'languages': ['und-Cyrl']}),
        S.spec([S.char((compare.C,))], meta={'languages': ['und-Cyrl'], 'version': '2'}), S.spec([S.char((compare.A,))]), S.spec([S.char((compare.A,))], meta={'languages': ['fr', 'und-Latn']})]
SETMENU = [t for n in range(3) for t in itertools.permutations(range(len(LGRS)), n)]


def check_sets(i, j, st):
    from lgr.tools.compare import diff_lgr_sets, diff_lgrs
    from lgr.tools.compare.diff import diff_metadata
    case = {'sets': [i, j]}
    sets = [[S.build(LGRS[k], how='xml', name='%s%d.xml' % (n, k)) for k in SETMENU[x]] for n, x in (('one', i), ('two', j))]
    merged = [S.build(LGRS[x % 4], how='xml', name='set%d.xml' % n) for n, x in enumerate((i, j))]
    for show in (False, True):
        text = diff_lgr_sets(merged[0], merged[1], sets[0], sets[1], show_same=show)
        st.step()
        scripts = [{}, {}]
        twice = []
        for n, s in enumerate(sets):
            for l in s:
                if l.metadata.languages:
                    k = l.metadata.languages[0]
                    if k in scripts[n]:
                        twice.append((merged[n].name, k))
                    scripts[n].setdefault(k, []).append(l)
        if sorted(re.findall("More than one LGR in set '([^']*)' match script '([^']*)'", text)) != sorted(twice):
            st.violation('sets', 'languages which several LGRs have', case)
        only = [(k, merged[n].name, "', '".join(l.name for l in scripts[n][k]), merged[1 - n].name) for n in (0, 1) for k in scripts[n] if k not in scripts[1 - n]]
        if sorted(re.findall("Script '([^']*)' is available in LGR set '([^']*)' with LGR '(.*)' but not in LGR set '([^']*)'", text)) != sorted(only):
            st.violation('sets', 'languages only in one set', case)
        pairs = [(k, a, b) for k in scripts[0] for a in scripts[0][k] for b in scripts[1].get(k, ())]
        heads = re.findall(r'### Compare LGRs for script (\S+): (\S+) - (\S+) ###\n\n(.*?)(?=\n\n\n###|\Z)', text, re.S)
        if sorted((k, a, b) for k, a, b, _ in heads) != sorted((k, a.name, b.name) for k, a, b in pairs):
            st.violation('sets', 'pairs which are compared: %r' % [h[:3] for h in heads], case)
        for k, a, b in pairs:
            body = [t for l, x, y, t in heads if (l, x, y) == (k, a.name, b.name)]
            if body and body[0].strip() != diff_lgrs(a, b, show_same=show).strip():
                st.violation('sets', 'difference of %s and %s in the sets' % (a.name, b.name), case)
        if diff_metadata(merged[0].metadata, merged[1].metadata, is_set=True) not in text:
            st.violation('sets', 'metadata of the sets', case)
    st.outcome((i, j))


def run_shard(shard, st):
    if 'sets' in shard:
        for j in range(len(SETMENU)):
            check_sets(shard['sets'], j, st)
        return
    compare.run_shard(sys.modules[__name__], shard, st, st.tier)


def replay(case, st):
    if 'sets' in case:
        check_sets(case['sets'][0], case['sets'][1], st)
    else:
        compare.replay(sys.modules[__name__], case, st)
