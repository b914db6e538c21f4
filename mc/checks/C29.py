# -*- coding: utf-8 -*-
"""
C29 - reviewing an IDN table against a reference LGR.

Space: every ordered pair (table, reference) of families of LGRs (tags and conditions of a code point; repertoires with sequences and ranges; conditioned and typed variants in both
directions; partitions in variant sets; classes; rules and what uses them; lists of actions; languages), and every table of a script with or without each of the code points
of the labels by which general rules are recognised, with several rules. Oracle: the comparison done on the specifications from which the LGRs are made.
"""
import itertools
import re
import unicodedata

from mc import compare
from mc import lgrspec as S
from mc import model
from mc.checks import C25
from mc.common import digest

PROPERTY = 'C29'
LEVEL = 'model_checking'
RULE = 'a case is one ordered pair (table, reference), every part of its report being compared; non trivial = distinct reports'
A, B, C, X, Y = compare.A, compare.B, compare.C, compare.X, compare.Y
NODE = compare.NODE
MATCH, SUBSET, NOTE, MANUAL, REVIEW = 'MATCH', 'SUBSET', 'NOTE', 'MANUAL CHECK', 'REVIEW'
ORDER = [MATCH, SUBSET, NOTE, MANUAL, REVIEW]
worst = lambda results: max(results, key=ORDER.index) if results else MATCH

# -- families ---------------------------------------------------------------------------------------------------------------------

RS = [('r', [NODE(A)]), ('s', [NODE(B)])]
CONDS = [(None, None), ('r', None), ('s', None), (None, 'r')]


def char_specs():
    out = []
    for tags, cond in itertools.product(((), ('t',), ('u',), ('u', 't'), ('sc:Q',), ('sc:Z', 't'), ('schwa',)), CONDS):
        out.append(S.spec([S.char((A,), tags=tags, when=cond[0], not_when=cond[1])], rules=RS))
    for w, n in CONDS:
        out.append(S.spec([S.rng(A, C, tags=('t',), when=w, not_when=n)], rules=RS))
        out.append(S.spec([S.char((A,)), S.rng(B, C + 1, when=w, not_when=n), S.char((C + 4,), when=w)], rules=RS))
    return out


def repertoire_specs():
    out = []
    for a, b, ab, rest in itertools.product((None, S.char((A,))), (None, S.char((B,)), S.rng(B, C), S.char((B,), when='r')), ([], [S.char((A, B))], [S.char((A, B), when='r'), S.char((B, A, A))], [S.char((X, B))]),
                                            ([], [S.char((X,), [S.var((X,), 'out-of-repertoire-var')])])):
        items = [i for i in (a, b) if i] + ab + rest
        out.append(S.spec(items or [S.char((Y,))], rules=RS))
    return out


TYPES = [None, 'activated', 'optionally-activated', 'allocatable', 'optionally-allocatable', 'blocked', 'x']


def sided(fwd, rev, b=True):
    """a -> b and b -> a"""
    return S.spec([S.char((A,), [S.var((B,), t, w, n) for t, w, n in fwd])] + ([S.char((B,), [S.var((A,), t, w, n) for t, w, n in rev])] if b else []), rules=RS)


def variant_specs():
    out = [sided((), ()), sided((), (), False), sided([('blocked', None, None)], [], False)]
    for t, (w, n) in itertools.product(TYPES, CONDS):
        out.append(sided([(t, w, n)], [(t, w, n)]))
    for one, two in itertools.permutations([('blocked', None, None), ('allocatable', None, None), ('blocked', 'r', None), ('activated', None, 'r')], 2):
        out.append(sided([one], [two]))
    return out


def multi_specs():
    menu = [('blocked', None, None), ('allocatable', None, None), ('blocked', 'r', None), ('allocatable', 'r', None), ('blocked', 's', None), ('allocatable', None, 'r'), ('blocked', None, 's'), ('x', None, None), ('activated', 'r', None)]
    out = []
    for n in (1, 2, 3):
        for vs in itertools.combinations(menu, n):
            if len({v[1:] for v in vs}) == n and (n < 3 or vs[0] == menu[0]):
                out.append(sided(vs, vs))
    return out


def set_specs(nodes=((A,), (B,), (C,), (A, B))):
    out = []
    for n, rel in enumerate(C25.relations(nodes)):
        items = [S.char(tuple(a), [S.var(tuple(b), 'blocked') for b in block if a != b]) for block in rel for a in block]
        for more in ([], [S.char((X,))]) if n % 7 == 0 else ([],):
            out.append(S.spec(sorted(items, key=lambda i: i['cp']) + more or [S.char((0x7A,))]))
    return out


def class_specs():
    reps = [[S.char((A,), tags=('t',)), S.char((B,))], [S.char((A,), tags=('t',)), S.char((B,), tags=('t', 'u')), S.char((C,), tags=('u',))], [S.rng(A, C, tags=('u',)), S.char((A, B))], [S.char((X,))]]
    menu = [None, ('set', (A,)), ('set', (A, B)), ('set', (C, X)), ('tag', 't'), ('union', (('tag', 'u'), ('set', (A,)))), ('compl', ('set', (A,)))]
    out = []
    for rep, k, m in itertools.product(reps, menu, (None, ('set', (B,)), ('diff', ('ref', 'k'), ('set', (B,))))):
        if m and m[0] == 'diff' and not k:
            continue
        if m and rep is reps[3]:
            continue
        out.append(S.spec(rep, classes=[c for c in (k and ('k', k), m and ('m', m)) if c]))
    return out


def node_menu():
    c = lambda *cps, count=None: ('char', tuple(cps), count)
    k = lambda e, count=None: ('class', e, count)
    atoms = [c(A), c(A, B), c(A, count='1+'), c(A, count='2'), c(A, count='0+'), c(A, count='0:1'), ('any', None), ('any', '2'), k(('ref', 'k')), k(('ref', 'k'), '2+'), k(('set', (A, B))), k(('tag', 't')), k(('ref', 't')), k(('compl', ('ref', 'k'))),
             k(('union', (('ref', 'k'), ('set', (X,))))), k(('union', (('set', (X,)), ('ref', 'k')))), k(('inter', ('ref', 'k'), ('set', (A,)))), k(('diff', ('ref', 'k'), ('set', (A,)))), k(('diff', ('set', (A,)), ('ref', 'k'))), k(('symdiff', ('ref', 'k'), ('set', (A,)))),
             ('ruleref', 's', None), ('ruleref', 's', '2'), ('start',), ('end',)]
    out = [[a] for a in atoms]
    out += [[c(A), c(B)], [c(B), c(A)], [('start',), c(A)], [c(A), ('end',)], [('choice', ((c(A)), (c(B))), None)], [('choice', (c(A), c(B)), '2')], [('choice', (c(A, B), c(C)), None)],
            [('choice', (c(A), ('rule', (c(B), c(C)), None)), None)], [('choice', (('rule', (c(A), c(B)), None), c(C)), None)], [('rule', (c(A), c(B)), None)], [('rule', (c(A), c(B)), '2')],
            [('behind', (c(A),)), ('anchor',)], [('behind', (c(A), c(B))), ('anchor',)], [('behind', (c(A, B),)), ('anchor',)], [('anchor',), ('ahead', (c(A),))], [('anchor',), ('ahead', (c(A), c(B)))], [('anchor',), ('ahead', (c(A, B),))],
            [('anchor',), ('ahead', (('any', None), c(B)))], [('anchor',), ('ahead', (c(A, count='1+'),))], [('behind', (('start',), c(A))), ('anchor',)]]
    return out


def rule_specs():
    out = []
    for n, nodes in enumerate(node_menu()):
        out.append(S.spec([S.char((A,), tags=('t',)), S.char((B,))], rules=[('s', [NODE(C)]), ('r', nodes)], classes=[('k', ('set', (A,))), ('t', ('set', (B,)))]))
    for a, b, names in itertools.product((None, S.char((A,)), S.char((A,), when='r'), S.char((A,), not_when='r'), S.rng(A, B, when='r'), S.rng(A, C), S.char((A,), when='s')), (None, S.char((X, Y), when='r')), (('r',), ('r', 's'), ('q',))):
        items = [i for i in (a, b) if i] or [S.char((Y,))]
        if any((i['when'] or i['not_when'] or 'r') not in names for i in items):
            continue
        out.append(S.spec(items, rules=[(n, [NODE(B)]) for n in names]))
    return out


AMENU = [S.action('d1', match='r'), S.action('d1', not_match='r'), S.action('d1', any=('x', 'y')), S.action('d1', any=('y', 'x'), comment='c'), S.action('d1', all=('x', 'y')), S.action('d1', only=('x', 'y')), S.action('d1', only=('y',)), S.action('d2', match='r')]


def action_specs():
    return [S.spec([S.char((A,))], rules=RS[:1], actions=acts) for n in range(4) for acts in itertools.permutations(AMENU if n < 3 else AMENU[:3], n)] + [
        S.spec([S.char((A,))], rules=RS[:1], actions=[AMENU[i] for i in acts]) for acts in itertools.product((0, 7), repeat=3)]


# tag -> language, script, script which is implied by the language, whether the script needs not be said, known
LANGUAGES = {'und-Latn': ('', 'Latn', None, False, True), 'und-Cyrl': ('', 'Cyrl', None, False, True), 'fr': ('fr', '', 'Latn', False, True), 'fr-Latn': ('fr', 'Latn', 'Latn', True, True), 'ru': ('ru', '', 'Cyrl', False, True),
             'sr': ('sr', '', None, False, True), 'sr-Cyrl': ('sr', 'Cyrl', None, False, True), 'zh-Hans': ('zh', 'Hans', None, False, True), 'qq': ('', '', None, False, False)}
OTHERS = {'und-Beng': ('', 'Beng', None, False, True), 'und-Arab': ('', 'Arab', None, False, True), 'ja': ('ja', '', 'Jpan', False, True)}


def language_specs():
    return [S.spec([S.char((A,))], meta={'languages': list(tags)}) for n in range(3) for tags in itertools.permutations(LANGUAGES, n)][:60]


MARK, HYPHEN, DIGITS, RTL, MULTI, JA = 'combining_mark', 'consecutive_hyphens', 'digits', 'rtl', 'digits_set', 'japanese_contextj'
SCRIPTS = {
    'und-Beng': {'combining_mark': [[0x09C1, 0x09AE, 0x09AE]], 'consecutive_hyphens': [[0x2D, 0x09AE, 0x09AE], [0x09AE, 0x09AE, 0x2D], [0x09AE, 0x09AE, 0x2D, 0x2D, 0x09AE, 0x09AE]], 'rtl': [], 'digits_set': [[0x09AE, 0x09AE, 0x32, 0x09E9]],
                 'japanese_contextj': []},
    'und-Arab': {'combining_mark': [], 'consecutive_hyphens': [[0x2D, 0x62A, 0x62A], [0x62A, 0x62A, 0x2D], [0x62A, 0x62A, 0x2D, 0x2D, 0x62A, 0x62A]], 'rtl': [[0x32, 0x62A, 0x62A], [0x660, 0x62A, 0x62A], [0x6F5, 0x62A, 0x62A]],
                 'digits_set': [[0x62A, 0x62A, 0x32, 0x662], [0x62A, 0x62A, 0x32, 0x6F5], [0x62A, 0x62A, 0x662, 0x6F5]], 'japanese_contextj': []},
    'ja': {'combining_mark': [], 'consecutive_hyphens': [[0x2D, 0x3064, 0x3064], [0x3064, 0x3064, 0x2D], [0x3064, 0x3064, 0x2D, 0x2D, 0x3064, 0x3064]], 'rtl': [], 'digits_set': [], 'japanese_contextj': [[0x62, 0x30FB, 0x61]]},
    None: {k: [] for k in ('combining_mark', 'consecutive_hyphens', 'rtl', 'digits_set', 'japanese_contextj')}}


def general_specs():
    """Tables which have the code points of the labels or not, as single code points or in sequences, with rules which refuse the labels or not."""
    out = []
    none = ('rule0', [NODE(0x7A)])
    start = lambda *cps: ('bad', [('start',), ('class', ('set', tuple(cps)), None)])
    end = lambda cp: ('bad', [NODE(cp), ('end',)])
    double = ('bad', [NODE(0x2D), NODE(0x2D)])
    digits = lambda a, b: [S.rng(a, a + 9)] if b == 10 else [S.rng(a, a + b - 1)] if b > 1 else [S.char((a,))] if b else []

    def add(lang, items, *rules):
        if items:
            out.append(S.spec(items, rules=[(n + str(i), nodes) for i, (n, nodes) in enumerate(rules)], actions=[S.action('invalid', match=n + str(i)) for i, (n, _) in enumerate(rules)], meta={'languages': [lang] if lang else []}))
    hy = [(), (start(0x2D),), (start(0x2D), end(0x2D)), (start(0x2D), end(0x2D), double), (double,)]
    for lang, letter in (('und-Beng', 0x9AE), ('und-Arab', 0x62A), ('ja', 0x3064), (None, 0x62A)):
        for items, rules in itertools.product(([S.char((letter,))], [S.char((letter,)), S.char((0x2D,))], [S.char((letter, letter)), S.char((0x2D,))], [S.char((letter, letter)), S.char((0x2D, letter)), S.char((0x2D,))],
                                               [S.char((0x2D, letter, letter)), S.char((letter, letter, 0x2D)), S.char((letter,))], [S.char((0x2D,))]), hy):
            add(lang, items, *rules)
    for items, rules in itertools.product(([S.char((0x9C1,))], [S.char((0x9C1,)), S.char((0x9AE,))], [S.char((0x9C1,)), S.char((0x9AE, 0x9AE))], [S.char((0x9C1, 0x9AE)), S.char((0x9AE,))], [S.char((0x9C1,)), S.char((0x9AE,), when='rule00')], [S.char((0x9C1, 0x9AE, 0x9AE)), S.char((0x9C1,))],
                                           [S.char((0x9AE, 0x9C1)), S.char((0x9AE,))]), ((), (start(0x9C1),), (start(0x9AE),))):
        add('und-Beng', items, *(((none,) if any(i['when'] for i in items) else ()) + rules))
    for n, native, letter in itertools.product((0, 1, 2, 10), (0, 1, 4, 9, 10), (0x9AE,)):
        for rules in ((), (('bad', [('class', ('set', tuple(range(0x30, 0x3A))), None), ('class', ('set', tuple(range(0x9E6, 0x9F0))), None)]),), (('bad', [('class', ('set', (0x33,)), None), ('class', ('set', tuple(range(0x9E6, 0x9F0))), None)]),)):
            if n or native:
                add('und-Beng', digits(0x30, n) + digits(0x9E6, native) + [S.char((letter,))], *rules)
    for lang, n, native, other in itertools.product(('und-Arab', None, 'und-Beng'), (0, 3, 10), (0, 1, 3), (0, 10)):
        for rules in ((), (start(*range(0x30, 0x3A)),), (start(*(list(range(0x30, 0x3A)) + list(range(0x660, 0x66A)) + list(range(0x6F0, 0x6FA)))),), (('bad', [('class', ('set', tuple(range(0x30, 0x3A))), None), ('class', ('set', tuple(range(0x660, 0x66A))), None)]),)):
            if lang != 'und-Beng' or not rules:
                add(lang, digits(0x30, n) + digits(0x660, native) + digits(0x6F0, other) + [S.char((0x62A,))], *rules)
    for items in ([S.char((0x30FB,))], [S.char((0x30FB,)), S.rng(0x61, 0x62)], [S.char((0x62, 0x30FB)), S.char((0x61,))], [S.char((0x62,)), S.char((0x30FB, 0x61)), S.char((0x30FB,))]):
        for rules in ((), (('bad', [NODE(0x30FB), NODE(0x61)]),)):
            add('ja', items, *rules)
            add('und-Beng', items, *rules)
    return out


FAMILIES = {'char': char_specs, 'repertoire': repertoire_specs, 'variant': variant_specs, 'multi': multi_specs, 'sets': set_specs, 'class': class_specs, 'rule': rule_specs, 'action': action_specs, 'language': language_specs, 'general': general_specs,
            'sequences': lambda: set_specs(((A,), (C,), (A, B), (B, C))),
            'sets5': lambda: set_specs(((A,), (B,), (C,), (A, B), (B, A))), 'general-pairs': general_specs}
QUICK = ['char', 'repertoire', 'variant', 'multi', 'sets', 'sequences', 'class', 'rule', 'action', 'language', 'general']
LIMITED = {'general': 3}            # references for each table: none of the parts of general rules depends on the reference, but for the languages
ASSUMPTIONS = ['variants are symmetric and transitive, but the families of variants of two code points', 'the variant sets of a table and of a reference correspond when they have the same first code point, or one includes the other and no other does',
               'languages whose explicit script is not the one which they imply are not in the families', 'the labels by which general rules are recognised are those of the tool']


# -- general rules, script by script ---------------------------------------------------------------------------------------------
# blocks of each script, and which general rules there are labels for (hyphens: all of them)
BLOCKS = {'Arab': (0x620, 0x6FF), 'Armn': (0x530, 0x58F), 'Beng': (0x980, 0x9FF), 'Cyrl': (0x430, 0x45F), 'Deva': (0x900, 0x97F), 'Ethi': (0x1200, 0x137F), 'Geor': (0x10D0, 0x10FF),
          'Grek': (0x370, 0x3FF), 'Gujr': (0xA80, 0xAFF), 'Guru': (0xA00, 0xA7F), 'Hani': (0x4E00, 0x4E80), 'Knda': (0xC80, 0xCFF), 'Hang': (0xAC00, 0xAC40), 'Hebr': (0x590, 0x5FF), 'Hira': (0x3041, 0x3096),
          'Kana': (0x30A1, 0x30FE), 'Khmr': (0x1780, 0x17FF), 'Laoo': (0xE80, 0xEFF), 'Latn': (0x61, 0x7A), 'Mlym': (0xD00, 0xD7F), 'Mymr': (0x1000, 0x109F), 'Orya': (0xB00, 0xB7F), 'Sinh': (0xD80, 0xDFF),
          'Taml': (0xB80, 0xBFF), 'Telu': (0xC00, 0xC7F), 'Thaa': (0x780, 0x7BF), 'Thai': (0xE00, 0xE7F), 'Tibt': (0xF00, 0xFFF)}
MARKED = 'Beng Deva Gujr Guru Knda Khmr Laoo Mlym Mymr Orya Sinh Taml Telu Thaa Thai Tibt'.split()
NUMBERED = 'Arab Beng Deva Gujr Knda Khmr Laoo Mymr Thai Tibt'.split()
RTL = ['Arab', 'Hebr', 'Thaa']
# languages and scripts written like them
TAGS = dict([('und-' + k, k) for k in BLOCKS if k not in ('Hani', 'Hang', 'Hira', 'Kana')], zh='Hani', yue='Hani', cmn='Hani', ko='Hang', ja='Hira',
            **{'zh-Hant': 'Hani', 'und-Jpan': 'Hira', 'und-Hira': 'Hira', 'und-Kana': 'Hira', 'und-Aran': 'Arab', 'und-Latf': 'Latn', 'und-Latg': 'Latn', 'ka': 'Geor', 'kn': 'Knda', 'he': 'Hebr', 'ace-Latn': 'Latn',
               'und-Cyrs': 'Cyrl', 'ru': 'Cyrl', 'ar': 'Arab', 'hi': 'Deva', 'und': None})


BOUNDS = {'quick': 'every ordered pair of each of %s; general rules: with 3 references for each, and for %d language tags the table of all code points of the script, or all but hyphens, letters, marks or digits, with all the general rules or all but one part of them' % (', '.join('%d (%s)' % (len(FAMILIES[f]()), f) for f in QUICK), len(TAGS)),
          'thorough': 'with partitions of 5 nodes, and every pair of tables of the general rules'}


def script_cases():
    for tag in sorted(TAGS):
        for less in ('', 'hyphen', 'letters', 'marks', 'numbers'):
            for without in range(12):
                yield tag, less, without


def script_table(tag, less, without):
    """
    :return: (LGR, expected report): a table of all the code points of the script, but those said, which refuses all that general rules refuse,
             but one; None when there is no such one.
    """
    script = TAGS[tag]
    lo, hi = BLOCKS[script] if script else (0x61, 0x7A)
    cps = [c for c in range(lo, hi + 1) if unicodedata.category(chr(c)) in ('Ll', 'Lo', 'Lm', 'Mn', 'Mc', 'Nd') and unicodedata.normalize('NFKC', chr(c).casefold()) == chr(c)]
    ja = script == 'Hira'
    cps += [c for c in range(0x30, 0x3A) if c not in cps] + ([0x2D] if less != 'hyphen' else []) + ([0x30FB, 0x61, 0x62] if ja else [])
    cat = lambda c: unicodedata.category(chr(c))
    cps = [c for c in cps if not (less == 'marks' and cat(c)[0] == 'M') and not (less == 'numbers' and cat(c) == 'Nd') and not (less == 'letters' and cat(c)[0] == 'L')]
    lgr = S.parse_xml('<lgr xmlns="%s"><meta><language>%s</language></meta><data>%s</data></lgr>' % (S.LGR_NS, tag, ''.join('<char cp="%04X"/>' % c for c in cps)), force=True, unidb=S.icu_db())
    cps = [c.cp[0] for c in lgr.repertoire.all_repertoire()]
    marks, digits = [c for c in cps if cat(c)[0] == 'M'], [c for c in cps if cat(c) == 'Nd']
    groups = {}
    for c in digits:
        groups.setdefault(c - unicodedata.digit(chr(c)), []).append(c)
    sets = [tuple(g) for _, g in sorted(groups.items())]
    one = lambda cs: ('class', ('set', tuple(cs)), None)
    rules = []      # (the general rule it is part of, nodes of one rule or of each of two)
    hyphen = 0x2D in cps
    if hyphen:
        rules += [('consecutive_hyphens', [('start',), NODE(0x2D)]), ('consecutive_hyphens', [NODE(0x2D), ('end',)]), ('consecutive_hyphens', [NODE(0x2D), NODE(0x2D)])]
    if marks:
        rules.append(('combining_mark', [('start',), one(marks)]))
    if digits:
        rules.append(('rtl', [('start',), one(digits)]))
    for x, y in itertools.combinations(sets, 2):
        rules.append(('digits_set', [one(x), one(y)], [one(y), one(x)]))
    if ja:
        rules.append(('japanese_contextj', [one((0x61, 0x62)), NODE(0x30FB), one((0x61, 0x62))]))
    missing = None
    if without:
        if without > len(rules):
            return None
        missing = rules.pop(without - 1)[0]
    rules = [nodes for r in rules for nodes in r[1:]]
    xml = S.to_xml(S.spec([S.char((c,)) for c in cps], rules=[('r%d' % i, nodes) for i, nodes in enumerate(rules)], actions=[S.action('invalid', match='r%d' % i) for i in range(len(rules))], meta={'languages': [tag]}))
    lgr = S.parse_xml(xml, unidb=S.icu_db(), force=True)
    want = {}
    for k, on, known in (('consecutive_hyphens', hyphen, script is not None), ('combining_mark', bool(marks), script in MARKED), ('rtl', script in RTL and bool(digits), script in RTL), ('digits_set', len(digits) > 10, script in NUMBERED),
                         ('japanese_contextj', 0x30FB in cps, ja)):
        # nothing is said when the label, written in letters, cannot be one of the table
        want[k] = {'applicable': on, 'exists': missing != k if on and known and less != 'letters' and not (k == 'digits_set' and len(sets) < 2) else None}
    return lgr, want, xml


def check_script(tag, less, without, st):
    from lgr.tools.idn_review.review import review_lgr, review_with_core_requirements
    t = script_table(tag, less, without)
    if not t:
        return False
    lgr, want, xml = t
    other = S.build(S.spec([S.char((0x61,))], meta={'languages': ['und-Latn']}), unidb=S.icu_db())
    for name, rep in (('core', review_with_core_requirements(lgr)), ('review', review_lgr(lgr, other)['wle'])):
        st.step()
        st.trace()
        st.evaluations += 1
        got = rep['wle']['additional_general_rules'] if name == 'core' else rep['additional_general_rules']
        if got != want:
            st.violation('script:%s' % name, 'table of %s without %r, without its rule %d: general rules are %r instead of %r' % (
                tag, less, without, {k: v for k, v in got.items() if want.get(k) != v}, {k: v for k, v in want.items() if got.get(k) != v}), {'script': [tag, less, without]})
    st.state((tag, less, without))
    st.outcome((tag, repr(want)))
    return True


def shards(tier):
    out = [{'family': 'scripts', 'tag': tag} for tag in sorted(TAGS)]
    for f in QUICK if tier == 'quick' else list(FAMILIES):
        n = len(FAMILIES[f]())
        per = max(1, 500 // min(n, LIMITED.get(f, n)))
        out += [{'family': f, 'first': [i, min(n, i + per)]} for i in range(0, n, per)]
    return out


# -- oracle -----------------------------------------------------------------------------------------------------------------------

def rules_of(m):
    return {n: nodes for n, nodes in m.rules.items()}


def cond_name(e):
    return 'when-' + e.when if e.when else 'not-when-' + e.not_when if e.not_when else None


def want_char(t, r):
    """Result, and what the remark says."""
    if not t:
        return SUBSET, ['subset']
    if not r:
        return MANUAL, ['only exists in the IDN Table']
    a, b = [{x for x in e.tags if not x.startswith('sc:')} for e in (t, r)]
    tag = MATCH if a == b else NOTE if a > b else REVIEW
    a, b = cond_name(t), cond_name(r)
    cond = MATCH if a == b else NOTE if not b else REVIEW
    res = worst([tag, cond])
    if res == MATCH:
        return MATCH, ['Matches code point']
    # what leads to the result
    said = [{NOTE: 'Tags not required', REVIEW: 'Tags do not match'}[tag]] if tag == res else []
    return res, said + ([{NOTE: 'Rules not required', REVIEW: 'Rules do not match'}[cond]] if cond == res else [])


def by_cond(vs):
    """The conditions of the variants and their types."""
    return {(v['when'], v['not_when']): v['type'] for v in vs}


def want_variant(t, r, t_set, r_set, applicable):
    """:param t: variants of the table in one direction."""
    if not t_set:
        return REVIEW, 'Variant set exists in the reference LGR'
    if not r_set:
        return MANUAL, 'Variant set only exists in the IDN Table'
    if not t['any']:
        return (REVIEW, 'Variant member exists in the reference LGR') if applicable else (NOTE, 'Not applicable')
    if not r['any']:
        return MANUAL, 'Variant member exists in IDN Table but not'
    t, r = t['vars'], r['vars']
    if t == r:
        return MATCH, 'Exact match'
    if len(t) != 1 or len(r) != 1:
        kind = [c[0] and 1 or c[1] and 2 or 0 for c in t]
        if set(t) != set(r) or len(set(kind)) != len(kind):
            return None, None                   # not a match
        # the same conditions, one of each kind: types are compared two by two
        pairs = [(t[c], r[c]) for c in t if t[c] != r[c]]
        if any(x not in TYPES[1:6] for p in pairs for x in p):
            return REVIEW, 'Unknown variant type'
        less = {TYPES.index(a) < TYPES.index(b) for a, b in pairs}
        if len(less) > 1:
            return REVIEW, 'Unknown variant type'
        return (REVIEW, 'Variant type in the IDN Table is less conservative') if less == {True} else (NOTE, 'Variant types are mismatched')
    ((tc, tt),), ((rc, rt),) = t.items(), r.items()
    known = TYPES[1:6]
    kinds = [0 if c == (None, None) else 1 if c[0] else 2 for c in (tc, rc)]
    typ = None
    if kinds[0] == kinds[1] and tt != rt:
        typ = 'unknown' if tt not in known or rt not in known else 'less' if known.index(tt) < known.index(rt) else 'more'
    less = 'Variant type in the IDN Table is less conservative'
    if kinds[0] and not kinds[1]:
        return REVIEW, 'IDN Table variant generation is less conservative'
    if typ in ('less', 'unknown'):
        return REVIEW, less if typ == 'less' else 'Unknown variant type'
    if kinds[1] and not kinds[0]:
        return MANUAL, 'Variant condition rules are mismatched'
    if tc != rc:
        return MANUAL, 'Variant contextual rules are different'
    return NOTE, 'Variant types are mismatched'


def components(m):
    todo, out = set(m.entries), []
    cps = set(m.entries) | {v['cp'] for e in m.entries.values() for v in e.vars}
    edges = {}
    for e in m.entries.values():
        for v in e.vars:
            edges.setdefault(e.cp, set()).add(v['cp'])
            edges.setdefault(v['cp'], set()).add(e.cp)
    while cps:
        comp, todo = set(), [min(cps)]
        while todo:
            x = todo.pop()
            if x not in comp:
                comp.add(x)
                todo += edges.get(x, ())
        cps -= comp
        if len(comp) > 1:
            out.append(tuple(sorted(comp)))
    return out


def variants(m, a, b):
    vs = [v for v in m.entries[a].vars if v['cp'] == b] if a in m.entries else []
    return vs


def paired(ts, rs):
    """The pairs of sets (table, reference) which correspond; None if it is not clear."""
    related = lambda t, r: t[0] == r[0] or set(t) <= set(r) or set(t) >= set(r)
    for t in ts:
        if sum(related(t, r) for r in rs) > 1:
            return None
    for r in rs:
        if sum(related(t, r) for t in ts) > 1:
            return None
    out = [(t, r) for t in ts for r in rs if related(t, r)]
    return out + [(t, ()) for t in ts if t not in [p[0] for p in out]] + [((), r) for r in rs if r not in [p[1] for p in out]]


def check_sets(t, r, rep, bad):
    ts, rs = components(t), components(r)
    pairs = paired(ts, rs)
    got = [(tuple(x['idn_table']), tuple(x['ref_lgr'])) for x in rep['reports']]
    if pairs is None:
        # every set of the table is there, every set of the reference of which something is in the table, and what is said of their variants is true
        for n, sets in ((0, ts), (1, [s for s in rs if set(s) & set(t.entries)])):
            for s in sets:
                if s not in [g[n] for g in got]:
                    bad('sets', 'variant set %r is not reported' % (s,))
    else:
        def in_report(p):
            return p[0] or any(c in t.entries for c in p[1]) or any(len(c) > 1 and any((x,) in t.entries for x in c) for c in p[1][:])
        want = [p for p in pairs if p[0] or set(p[1]) & set(t.entries)]
        maybe = [p for p in pairs if p not in want and any(len(c) > 1 for c in p[1])]
        if [p for p in want if got.count(p) != 1] or [g for g in got if g not in want + maybe] or len(set(got)) != len(got):
            bad('sets', 'variant sets are %r instead of %r (and %r)' % (got, want, maybe))
        if [min(g[0][:1] + g[1][:1]) for g in got] != sorted(min(g[0][:1] + g[1][:1]) for g in got):
            bad('sets', 'variant sets are not in order: %r' % got)
        # a sequence of a set of the reference may be missing from the table
        for p in maybe:
            there = {x for e in t.entries for x in e}
            first = next((c for c in p[1] if len(c) > 1 and set(c) & there), None)
            if (p in got) != (first is not None and any((x,) in t.entries for x in first)):
                bad('sequences', 'variant set %r is reported or not' % (p,))
    for x, (ti, ri) in zip(rep['reports'], got):
        both = sorted(set(ti) | set(ri))
        relevant = {c for c in both if c in t.entries}
        missing = None
        if not ti:
            there = {y for e in t.entries for y in e}
            missing = next((c for c in ri if len(c) > 1 and set(c) & there), None)
            if missing:
                relevant |= {(y,) for y in missing if (y,) in t.entries}
        if tuple(sorted(relevant)) != tuple(x['relevant_idn_table_repertoire']):
            bad('relevant', 'relevant repertoire is %r instead of %r' % (x['relevant_idn_table_repertoire'], sorted(relevant)))
        todo = {}
        for a in both:
            for b in sorted({v['cp'] for m in (t, r) if a in m.entries for v in m.entries[a].vars}):
                todo[a, b] = True
        sym = all(variants(t, b, a) for a in ti for b in {v['cp'] for v in (t.entries[a].vars if a in t.entries else ())}) and all(a in t.entries for a in ti)
        if x['symmetry_check'] != (sym if ti else None):
            bad('symmetry', 'symmetry is %r for %r' % (x['symmetry_check'], ti))
        if len(ti) < 3 and x['transitivity_check'] not in ((None,) if not ti else (True,) if sym else (True, False)) or len(ti) > 2 and x['transitivity_check'] is not True:
            bad('transitivity', 'transitivity is %r for %r' % (x['transitivity_check'], ti))
        seen = {}
        if [v['dest_cp'] for v in x['report']] != sorted(v['dest_cp'] for v in x['report']):
            bad('order', 'variants are not in the order of their code points: %r' % [v['dest_cp'] for v in x['report']])
        for v in x['report']:
            a, b = v['source_cp'], v['dest_cp']
            if (a, b) in seen or (a, b) not in todo:
                bad('variants', 'variant %r of %r is reported twice or does not exist' % (b, a))
                continue
            seen[a, b] = seen[b, a] = True
            data = []
            for s, d in ((a, b), (b, a)):
                # a variant exists in the direction in which it is reported, its reverse goes with it
                data.append([{'any': bool(variants(m, a, b)), 'vars': by_cond(variants(m, s, d))} for m in (t, r)])
            types = lambda m, s, d: ' - '.join(sorted(k['type'] for k in variants(m, s, d) if k['type'] is not None))
            for key, w in (('fwd_type_idn', types(t, a, b)), ('fwd_type_ref', types(r, a, b)), ('rev_type_idn', types(t, b, a) if variants(t, a, b) else ''), ('rev_type_ref', types(r, b, a) if variants(r, a, b) else ''),
                           ('dest_in_idn', bool(variants(t, a, b)) and b in t.entries), ('dest_in_ref', bool(variants(r, a, b)) and b in r.entries),
                           ('reverse', bool(variants(t, a, b) and variants(t, b, a) or variants(r, a, b) and variants(r, b, a))),
                           ('symmetric', all(types(m, a, b) == types(m, b, a) for m in (t, r) if variants(m, a, b)))):
                if v[key] != w:
                    bad('variant:' + key, '%s is %r instead of %r' % (key, v[key], w))
            applicable = bool(variants(r, a, b)) and b in t.entries and bool(variants(r, b, a)) and a in t.entries
            for n, d in enumerate(('fwd', 'rev')):
                w, remark = want_variant(data[n][0], data[n][1], ti, ri, applicable)
                res, rem = v['result_' + d], v['remark_' + d]
                if w is None and res == MATCH or w is not None and (res != w or not rem.startswith(remark)):
                    bad('variant:result', '%s of variant %r of %r is %r (%s) instead of %r (%s): %r' % (d, b, a, res, rem, w, remark, data[n]))
                if ('may be missing' in rem) != (missing is not None) or missing and ''.join(map(chr, missing)) not in rem:
                    bad('missing', 'remark is %r' % rem)
        for p in todo:
            if p not in seen:
                bad('variants', 'variant %r is not reported' % (p,))
    inside = {c for s in ts for c in s}
    want = sorted(c for c in t.entries if c not in inside and c not in r.entries)
    if sorted(x['cp'] for x in rep['additional']) != want:
        bad('additional', 'additional code points are %r instead of %r' % ([x['cp'] for x in rep['additional']], want))


def check_classes(t, r, rep, bad):
    single = [{c[0] for c in m.entries if len(c) == 1} for m in (t, r)]
    want = []
    for name in sorted(set(t.classes) | set(r.classes)):
        a, b = [{c for c in cps if name in m.classes and m.in_class(m.classes[name], c)} for m, cps in zip((t, r), single)]
        if not a and not b & single[0]:
            continue
        if a == b:
            res = MATCH
        elif not a or not b:
            res = MANUAL
        elif (a - b) & single[1] or (b - a) & single[0]:
            res = REVIEW
        else:
            res = MANUAL if a - b else SUBSET
        want.append((name, sorted(map(chr, a)), sorted(map(chr, b)), res))
        if res == REVIEW:
            extra, missing = bool((a - b) & single[1]), bool((b - a) & single[0])
            remark = next((x['remark'] for x in rep if x['name'] == name), '')
            if ('extra member' in remark, 'missing member' in remark) != (extra, missing):
                bad('class:remark', 'class %s: %r' % (name, remark))
    got = [(x['name'], x['idn_members'], x['ref_members'], x['result']) for x in rep]
    if got != want:
        bad('classes', 'classes are %r instead of %r' % (got, want))


def normal(nodes):
    """Sequences of code points, groups and choices which are the same whatever the way in which they are written."""
    out = []
    for n in nodes:
        if n[0] == 'char' and n[2] is None:
            out += [('char', (c,), None) for c in n[1]]
        elif n[0] == 'rule' and n[2] is None:
            out += normal(n[1])
        elif n[0] in ('behind', 'ahead'):
            out.append((n[0], tuple(normal(n[1]))))
        elif n[0] == 'choice':
            out.append(('choice', tuple(tuple(normal([x])) for x in n[1]), n[2]))
        elif n[0] == 'rule':
            out.append(('rule', tuple(normal(n[1])), n[2]))
        elif n[0] == 'class' and n[1][0] in ('union', 'inter', 'symdiff'):
            parts = n[1][1] if n[1][0] == 'union' else n[1][1:]
            out.append(('class', (n[1][0], tuple(sorted(parts, key=repr))), n[2]))
        else:
            out.append(n)
    return out


def check_rules(t, r, rep, bad):
    ctx = [{}, {}]
    for c, m in zip(ctx, (t, r)):
        for e in m.entries.values():
            if e.when or e.not_when:
                c.setdefault(e.when or e.not_when, set()).add(e.cp)
    got = [(x['name'], x['idn_table'], x['reference_lgr'], x['result']) for x in rep['comparison']]
    want = []
    for name in sorted(set(t.rules) | set(r.rules)):
        a, b = ctx[0].get(name, set()), ctx[1].get(name, set())
        if name not in t.rules:
            res = SUBSET if b and not b & set(t.entries) else MANUAL
        elif name not in r.rules:
            res = MANUAL
        else:
            res = MATCH if normal(t.rules[name]) == normal(r.rules[name]) and a == b else MANUAL
            if res == MATCH and t.rules[name] != r.rules[name]:
                # not written the same way: both answers are right
                got = [(n, i, j, MATCH if n == name and x in (MATCH, MANUAL) else x) for n, i, j, x in got]
        want.append((name, name in t.rules, name in r.rules, res))
    if got != want:
        bad('rules', 'rules are %r instead of %r' % ([g for g in got if g not in want], [w for w in want if w not in got]))
    want = sorted(e.cp for e in t.entries.values() if not e.when and not e.not_when and e.cp not in r.entries)
    if [x['cp'] for x in rep['additional_cp']] != want:
        bad('without rules', 'code points without rules are %r instead of %r' % ([x['cp'] for x in rep['additional_cp']], want))


def check_actions(t, r, rep, bad):
    key = lambda a: (a['disp'], a['match'], a['not_match'], frozenset(a['any']), frozenset(a['all']), frozenset(a['only']))
    name = lambda side, n, a: '%s-%d%s' % (side, n + 1, ' (%s)' % a['comment'] if a['comment'] else '')
    ks = [[key(a) for a in m.actions] for m in (t, r)]
    common = set(ks[0]) & set(ks[1])
    want = [(name('IDN Table', n, a), True, key(a) in common, MATCH if key(a) in common else MANUAL) for n, a in enumerate(t.actions)]
    want += [(name('Ref. LGR', n, a), False, True, MANUAL) for n, a in enumerate(r.actions) if key(a) not in common]
    got = [(x['name'], x['idn_table'], x['reference_lgr'], x['result']) for x in rep['comparison']]
    if got != want:
        bad('actions', 'actions are %r instead of %r' % (got, want))
    seq = MATCH if ks[0] and [k for k in ks[0] if k in common] == [k for k in ks[1] if k in common] else MANUAL
    if rep['sequence'] != seq:
        bad('sequence', 'sequence is %r instead of %r' % (rep['sequence'], seq))


def check_languages(t, r, rep, bad):
    want = []
    for tag in sorted(t['languages']) or [None]:
        one = []
        for ref in sorted(r['languages']):
            if tag is None:
                one.append((ref, MANUAL))
                continue
            a, b = [LANGUAGES.get(x) or OTHERS[x] for x in (tag, ref)]
            res = MATCH if tag == ref else MANUAL if not a[4] else MATCH if a[0] and a[0] == b[0] or a[2] and a[2] == b[1] else REVIEW
            one.append((ref, res))
        want.append((tag or '-', one))
    got = [(x['idn_table_language_tag'], [(c['reference_lgr_language_tag'], c['result']) for c in x['comparison']]) for x in rep]
    if got != want:
        bad('languages', 'languages are %r instead of %r' % (got, want))


def check_general(t, tlangs, rlangs, rep, bad, st):
    lang = (tlangs or rlangs or [None])[0]
    if lang not in SCRIPTS:
        lang = None if not lang else 'und-Beng' if False else lang
        if lang is not None:
            return
    labels = SCRIPTS[lang]
    singles = [c[0] for c in t.entries if len(c) == 1]
    digits = sum(unicodedata.category(chr(c)) == 'Nd' for c in singles)
    rtl = 'und-Arab' in tlangs or lang is None and any(unicodedata.bidirectional(chr(c)) in ('R', 'AL') for c in singles)
    applicable = {'combining_mark': any(unicodedata.category(chr(c)).startswith('M') for c in singles), 'consecutive_hyphens': (0x2D,) in t.entries, 'rtl': rtl and digits > 0, 'digits_set': digits > 10, 'japanese_contextj': (0x30FB,) in t.entries}

    def covered(label):
        return not label or any(covered(label[n:]) for n in range(1, len(label) + 1) if tuple(label[:n]) in t.entries)

    for k, on in applicable.items():
        exists = None
        if on:
            for label in labels[k]:
                if not covered(label):
                    exists = None
                    break
                exists = not t.eligible(tuple(label))[0]
                if not exists:
                    break
        if rep[k] != {'applicable': on, 'exists': exists}:
            bad('general:' + k, '%s is %r instead of %r, %r' % (k, rep[k], on, exists))
        st.outcome((k, on, exists))


def check_summary(rep, bad):
    parts = {'language_tag': [(c['result'], c['remark']) for x in rep['language_tags'] for c in x['comparison']], 'repertoire': [(x['result'], x['remark']) for x in rep['repertoire']['reports']],
             'variant_sets': [(v['result_' + d], v['remark_' + d]) for x in rep['variant_sets']['reports'] for v in x['report'] for d in ('fwd', 'rev')],
             'classes': [(x['result'], x['remark']) for x in rep['classes']], 'wle': [(x['result'], x['remark']) for x in rep['wle']['comparison']], 'actions': [(x['result'], x['remark']) for x in rep['actions']['comparison']]}
    if set(parts) != set(rep['summary']):
        bad('summary', 'summary has %r' % list(rep['summary']))
    for k, rs in parts.items():
        s = rep['summary'][k]
        want = {}
        for res, rem in rs:
            want[res, rem] = want.get((res, rem), 0) + 1
        if s['overall'] != worst([x[0] for x in rs]):
            bad('overall', 'overall result of %s is %r' % (k, s['overall']))
        if sorted((x['result'], x['remark'], x['count']) for x in s['results']) != sorted(k + (n,) for k, n in want.items()):
            bad('counts', 'counts of %s are %r' % (k, s['results']))


def check(i, j, family, specs, lgrs, st):
    """:param lgrs: tables, references"""
    from lgr.tools.idn_review.review import review_lgr, review_with_core_requirements
    case = {'family': family, 'pair': [i, j]}

    def bad(key, what):
        st.violation('%s:%s' % (family, key), what + '\n  table: %s\n  reference: %s' % (S.to_xml(specs[i]), S.to_xml(specs[j])), case)
    table, ref = lgrs[0][i], lgrs[1][j]
    t, r = [MODELS.setdefault((family, n), None) or MODELS.__setitem__((family, n), model.Model(specs[n])) or MODELS[family, n] for n in (i, j)]
    before = [S.snapshot(table), S.snapshot(ref)] if (i + j) % 5 == 0 else None
    rep = review_lgr(table, ref)
    st.step()
    st.trace()
    st.evaluations += 1
    if before and before != [S.snapshot(table), S.snapshot(ref)]:
        bad('inputs', 'the LGRs change')
    # repertoire
    reports = rep['repertoire']['reports']
    if [x['cp'] for x in reports] != sorted(set(t.entries) | set(r.entries)):
        bad('repertoire', 'code points are %r' % [x['cp'] for x in reports])
    for x in reports:
        e, f = t.entries.get(x['cp']), r.entries.get(x['cp'])
        w, said = want_char(e, f)
        if (x['idn_table'], x['reference_lgr'], x['result']) != (e is not None, f is not None, w) or any(k not in x['remark'] for k in said) or x['glyph'] != ''.join(map(chr, x['cp'])):
            bad('repertoire:result', 'code point is %r instead of %r, %r' % (x, w, said))
    want = sorted({((c,), seq) for seq in r.entries if len(seq) > 1 for c in seq if (c,) in t.entries and (c,) not in r.entries})
    if sorted({(x['idn_cp'], x['ref_cp']) for x in rep['repertoire']['cp_in_sequences']}) != want:
        bad('sequences', 'code points in sequences are %r instead of %r' % (rep['repertoire']['cp_in_sequences'], want))
    check_sets(t, r, rep['variant_sets'], bad)
    check_classes(t, r, rep['classes'], bad)
    check_rules(t, r, rep['wle'], bad)
    check_actions(t, r, rep['actions'], bad)
    langs = [list(specs[n]['meta'].get('languages', ())) for n in (i, j)]
    check_languages({'languages': langs[0]}, {'languages': langs[1]}, rep['language_tags'], bad)
    check_general(t, langs[0], langs[1], rep['wle']['additional_general_rules'], bad, st)
    check_summary(rep, bad)
    if specs[i] == specs[j] and family != 'language' and 'variant' not in family:
        worse = [(k, s['results']) for k, s in rep['summary'].items() if s['overall'] != MATCH]
        if [k for k in worse if k[0] != 'language_tag']:
            bad('itself', 'a table does not match itself: %r' % worse)
    if i == j:
        core = review_with_core_requirements(table)
        st.step()
        st.trace()
        st.evaluations += 1
        check_general(t, langs[0], [], core['wle']['additional_general_rules'], bad, st)
        got = core['repertoire']
        if sorted(x['cp'] for x in got['report']) != sorted(t.entries) or got['pvalid_cp_nbr'] + got['invalid_cp_nbr'] != len(t.entries) or got['invalid_cp_nbr'] != sum(any(c in NOT_PVALID for c in cp) for cp in t.entries):
            bad('core', 'repertoire is %r' % got)
        digits = sum(len(c) == 1 and unicodedata.category(chr(c[0])) == 'Nd' for c in t.entries)
        if core['variant_sets'] != {'report': {'multiple_digit_sets': digits > 10}}:
            bad('core', 'variant sets are %r' % core['variant_sets'])
        check_compliance(table, t, bad, st)
        if core['header']['idn_table'] != {'filename': table.name, 'version': version_of(specs[i])} or core['header'].get('reference_lgr'):
            bad('header', 'the header is %r' % core['header'])
    h = rep['header']
    if h['idn_table'] != {'filename': table.name, 'version': version_of(specs[i])} or h['reference_lgr'] != {'name': ref.name, 'version': version_of(specs[j])}:
        bad('header', 'the header is %r' % h)
    rep['header'] = None
    st.outcome(digest(repr(rep)))
    st.state(digest((repr(specs[i]), repr(specs[j]))))
    return digest(repr(rep)).hex()


def version_of(sp):
    return (sp.get('meta') or {}).get('version')


NOT_PVALID = set(range(0x660, 0x66A)) | set(range(0x6F0, 0x6FA)) | {0x30FB}      # CONTEXTO
MODELS = {}


def check_compliance(table, t, bad, st):
    """Code points which are neither valid in IDNA 2008 nor out of the repertoire are counted and reported."""
    from lgr.tools.idna2008_compliance import check_idna2008_compliance
    got = check_idna2008_compliance(table)
    st.step()
    st.trace()
    st.evaluations += 1
    if got['contains_non_compliant'] != bool(got['non_compliant']) or got['compliant_nbr'] + len(got['non_compliant']) != len(t.entries) or got['non_compliant']:
        bad('compliance', 'compliance is %r' % got)


def pairs(shard, n):
    k = LIMITED.get(shard['family'])
    for i in range(*shard['first']):
        for j in (range(n) if not k else sorted({i, 0, n - 1})):
            yield i, j


def build_all(family):
    specs = [dict(sp, meta=dict(sp.get('meta') or {}, version=str(n))) if n % 3 else sp for n, sp in enumerate(FAMILIES[family]())]
    lgrs = [[S.parse_xml(S.to_xml(sp), filename='%s%d.xml' % (side, n), unidb=S.icu_db(), force=True) for n, sp in enumerate(specs)] for side in ('table', 'ref')]
    if len(MODELS) > 2000:
        MODELS.clear()
    return specs, lgrs


def renderings(shard, tier):
    from mc.common import Stats
    specs, lgrs = build_all(shard['family'])
    from lgr.tools.idn_review.review import review_lgr
    out = []
    for i, j in pairs(shard, len(specs)):
        rep = review_lgr(lgrs[0][i], lgrs[1][j])
        rep['header'] = None
        out.append(digest(repr(rep)).hex())
    return out


def run_shard(shard, st):
    f = shard['family']
    if f == 'scripts':
        for case in script_cases():
            if case[0] == shard['tag']:
                check_script(*case, st)
        return st.sample({'tag': shard['tag']})
    specs, lgrs = build_all(f)
    mine = [check(i, j, f, specs, lgrs, st) for i, j in pairs(shard, len(specs))]
    st.sample({'family': f, 'pair': [shard['first'][0], 0]})
    for seed in (1,) if st.tier != 'quick' or f in ('char', 'variant', 'multi', 'sets', 'class', 'action') else ():
        for (i, j), a, b in zip(pairs(shard, len(specs)), mine, compare.rendering_of_shard(PROPERTY, shard, st.tier, seed)):
            st.step()
            st.trace()
            st.evaluations += 1
            if a != b:
                st.violation('%s:process' % f, 'the report is not the same in another process\n  table: %s\n  reference: %s' % (S.to_xml(specs[i]), S.to_xml(specs[j])), {'family': f, 'pair': [i, j], 'shard': shard})


def replay(case, st):
    if 'script' in case:
        check_script(*case['script'], st)
        return
    if 'shard' in case:
        run_shard(case['shard'], st)
        return
    specs, lgrs = build_all(case['family'])
    check(case['pair'][0], case['pair'][1], case['family'], specs, lgrs, st)
