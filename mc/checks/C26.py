# -*- coding: utf-8 -*-
"""
C26 - collision reports list exactly the labels which collide; comparison of two LGRs over labels says exactly what differs.

Space: symmetric and transitive LGRs (with and without sequences, sets of variants of one to four code points, actions), every list
of up to 3 or 4 labels out of a pool (labels of several sets, not in the LGR, malformed, as A-label) with every list of up to 2
existing TLDs, through the four reports (complete, with dump, short, programmatic); every pair of LGRs with lists of labels for
the comparison. Oracle: index labels and dispositions of the reference model.
"""
import collections
import itertools
import re

from mc import lgrspec as S
from mc.model import Model

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = 'a case is one report over a list of labels; non trivial = distinct reports'
A, B, C, D, X, Y, Z = [ord(c) for c in 'abcdxyz']


def clique(*members, types=('blocked', 'allocatable', 't')):
    """Entries which are variants of each other; the type depends on the pair."""
    members = [m if isinstance(m, tuple) else (m,) for m in members]
    return [S.char(m, [S.var(o, types[(i + j) % len(types)]) for j, o in enumerate(members) if o != m]) for i, m in enumerate(members)]


def with_own(items, cp, t):
    return [dict(it, vars=it['vars'] + [S.var((cp,), t)]) if it['cp'] == (cp,) else it for it in items]


RULES = [('xx', [('char', (X,), '2+')]), ('first-y', [('start',), ('char', (Y,), None)])]
SPECS = [
    S.spec(clique(A, X) + [S.char((B,)), S.char((C,))], rules=RULES),
    S.spec(clique(A, X, Y) + clique(B, Z) + [S.char((C,))], rules=RULES, actions=[S.action('invalid', match='xx'), S.action('d1', match='first-y')]),
    S.spec(with_own(clique(A, X), A, 'own') + clique(B, C, types=('allocatable', 'activated')), rules=RULES, actions=[S.action('blocked', any=('own',)), S.action('d2', only=('allocatable', 'activated'))]),
    S.spec(clique((A, B), (Z,)) + [S.char((A,)), S.char((B,)), S.char((X,)), S.char((C,))], rules=RULES),
    S.spec(clique(A, B, C, X, types=('blocked', 'blocked', 't')) + [S.char((Y,)), S.char((Z,))], rules=RULES, actions=[S.action('allocatable', any=('t',))]),
    S.spec([S.char((c,)) for c in (A, B, C, X, Y)], rules=RULES),
    S.spec(clique(A, X, types=('invalid', 't')) + clique(B, Y) + [S.char((C,)), S.char((Z,))], rules=RULES),
    # x is in the LGR where another x follows it or comes before only: the variants of a label may not be labels
    S.spec([dict(i, when='near-x') if i['cp'] == (X,) else i for i in clique(A, X) + clique(B, Z, types=('allocatable',))] + [S.char((C,))],
           rules=RULES + [('near-x', [('choice', (('rule', (('behind', (('char', (X,), None),)), ('anchor',)), None), ('rule', (('anchor',), ('ahead', (('char', (X,), None),))), None)), None)])]),
]
POOL = ['a', 'x', 'b', 'ab', 'xb', 'zc', 'c', 'xz', 'yc', 'dd', 'xn--99999999', 'U+0061 U+0062', 'aa', 'xx']
NBAD = 'xn--99999999'
TLDS = [(), ('x',), ('ab', 'zc'), ('q',), ('x', 'y'), ('a', 'xb'), ('aa', 'xn--99999999')]
BOUNDS = {'quick': '%d LGRs; every list of at most 3 of %d labels (and every fifth of 4) with %d lists of TLDs; every pair of LGRs with every list of at most 2 labels and a list of all' % (
              len(SPECS), len(POOL), len(TLDS)),
          'thorough': 'every list of at most 4 labels; comparison over every list of at most 3 labels'}
ASSUMPTIONS = ['the LGRs are symmetric and transitive and their variants have no condition (the reports ask for this)',
               'which of two colliding labels is named first is not specified; nor is the order of groups',
               'a label which is in both lists may be reported as both']
PAIR = re.compile("Label: +\t\u2066'(.*?)'\u2069 *\\| \u2066'(.*?)'\u2069")
CATS = re.compile('Category: +\t(\\w+) *\\| (\\w+)')


def cps(line):
    """Label a line stands for, None when malformed."""
    if line == NBAD:
        return None
    if 'U+' in line:
        return tuple(int(t[2:], 16) for t in line.split())
    return tuple(map(ord, line))


def text(l):
    return ''.join(map(chr, l))


class World(object):
    def __init__(self, i):
        self.sp = SPECS[i]
        self.model = Model(self.sp)
        self.memo = {}

    def index(self, label):
        if ('i', label) not in self.memo:
            self.memo['i', label] = self.model.index_label(label) if self.model.read(label)[0] else None
        return self.memo['i', label]

    def variants(self, label):
        """{variant label: set of dispositions it can have}, the label included."""
        if ('v', label) not in self.memo:
            out = collections.defaultdict(set)
            m = self.model
            for w, types, only, mapped, _ in m.derivations(label, False):
                e = m.eligible(w, w != label)
                if not m.read(w)[0]:
                    out[w].add('invalid')
                    continue
                out[w].add(m.apply_actions(w, types, only)[0] if w != label else e[3])
            out[label] = {m.eligible(label)[3]}
            self.memo['v', label] = dict(out)
        return self.memo['v', label]

    def lgr(self):
        return S.build(self.sp, unidb=S.icu_db())


_W = {}


def world(i):
    if i not in _W:
        _W[i] = World(i)
    return _W[i]


def split(w, lines):
    labels = list(dict.fromkeys(cps(l) for l in lines if cps(l)))
    return labels, [l for l in lines if not cps(l)], [l for l in labels if w.index(l) is None]


def pairs_of(w, labels, tlds):
    inside = [l for l in labels if w.index(l) is not None]
    own = {frozenset(p) for p in itertools.combinations(inside, 2) if w.index(p[0]) == w.index(p[1])}
    with_tld = {(l, t) for l in inside for t in tlds if l != t and w.index(t) == w.index(l)}
    return own, with_tld


def run_reports(wi, lines, tlds, st):
    from lgr.tools.annotate import annotate
    from lgr.tools.diff_collisions import basic_collision, collision, get_collisions
    w = world(wi)
    case = {'kind': 'reports', 'world': wi, 'lines': lines, 'tlds': tlds}
    labels, bad, out_of = split(w, lines)
    tld = [cps(t) for t in tlds if cps(t)]
    own, with_tld = pairs_of(w, labels, tld)
    st.evaluations += 1
    st.trace()
    inp = lambda: iter([l + '\n' for l in lines])
    tin = lambda: iter([l + '\n' for l in tlds]) if tlds else None
    show = lambda s: sorted(sorted(map(text, p)) for p in s)

    def fail(key, what):
        st.violation(key, 'labels %r, TLDs %r, LGR %d: %s' % (lines, tlds, wi, what), case)

    # complete report, without and with the dump of everything
    for dump, quiet in ((False, True), (True, False), (False, False)) if len(lines) < 3 else ((False, len(lines) % 2 == 0), (True, True)):
        out = ''.join(collision(w.lgr(), inp(), tin(), show_dump=dump, quiet=quiet))
        head, _, rest = out.partition('\n# Collisions #\n\n')
        body, _, summary = rest.partition('\n# Summary #\n\n')
        st.outcome(out)
        blocks = body.split('### Collision within the ')[1:]
        got = [(b.startswith('existing TLDs'), PAIR.search(b).groups(), CATS.search(b).groups()) for b in blocks]
        inner = [frozenset(tuple(map(ord, x)) for x in p) for t, p, c in got if c == ('Primary', 'Primary')]
        mixed = {tuple(tuple(map(ord, x)) for x in p) for t, p, c in got}
        if set(inner) != own or (not set(tld) & set(labels) and len(inner) != len(own)):
            fail('pairs', 'collisions %r are reported instead of %r' % (sorted(map(show, [[p] for p in inner])), show(own)))
        missing = {p for p in with_tld if p not in mixed and frozenset(p) not in own}
        extra = {p for p in mixed if frozenset(p) not in own and p not in with_tld}
        if missing or extra:
            fail('tld-pairs', 'collisions with TLDs missing: %r, wrong: %r' % (sorted(missing), sorted(extra)))
        if ('No collision in the list of labels' in body) != (not own):
            fail('none', 'collisions are %r but the report is %r' % (show(own), body))
        for t, p, c in got:
            if t != ('TLD' in c):
                fail('category', 'block of %r says %r' % (p, (t, c)))
        errors = [l for l in head.split('\n') if l.startswith('Label ') and ': ' in l]
        if [l.split(': ')[0] for l in errors] != ['Label ' + l for l in bad]:
            fail('errors', 'malformed labels are reported as %r' % errors)
        def section(title):
            m = re.search('\n# %s #\n\n((?:Label .*\n)*)' % title, head)
            return [l[len('Label '):] for l in m.group(1).splitlines()] if m else []
        if section('Labels not in LGR') != sorted(map(text, out_of)):
            fail('not-in-lgr', 'labels not in the LGR: %r instead of %r' % (section('Labels not in LGR'), sorted(map(text, out_of))))
        if section('Labels that are TLDs') != sorted(text(l) for l in labels if l in tld):
            fail('are-tlds', 'labels which are TLDs: %r' % section('Labels that are TLDs'))
        if dump:
            check_dump(w, labels, tld, summary, fail)

    # programmatic report
    full = get_collisions(w.lgr(), inp(), quiet=len(lines) % 2 == 0)
    groups = {tuple(k): sorted(l['label'] for l in v if l['cat'] == 'Primary') for k, v in full.items()}
    if len(lines) % 2:
        # how each of the labels of a group disposes of the others
        for v in full.values():
            for one, other in itertools.product(v, repeat=2):
                can = w.variants(tuple(one['cp'])).get(tuple(other['cp']), set())
                d = other['disp'].get(one['label'])
                if d not in can if can else d is not None:
                    fail('group-dispositions', '%r is %r as a variant of %r instead of one of %r' % (other['label'], d, one['label'], can))
    want = {}
    for l in labels:
        if w.index(l) is not None:
            want.setdefault(w.index(l), []).append(text(l))
    want = {k: sorted(v) for k, v in want.items() if len(v) > 1}
    if groups != want:
        fail('groups', 'groups are %r instead of %r' % (groups, want))

    # the same, with some or all of the indexes at hand
    if len(lines) < 4:
        some = len(lines) % 2
        known = {text(l): w.index(l) for l in labels[some:] if w.index(l) is not None}
        given = iter([l + '\n' for l in lines if some == 0 or cps(l) in labels[:1]])
        groups = {tuple(k): sorted(l['label'] for l in v if l['cat'] == 'Primary') for k, v in get_collisions(w.lgr(), given, cached_indexes=known).items()}
        if groups != want:
            fail('cached-groups', 'with the indexes of %r, groups are %r instead of %r' % (sorted(known), groups, want))

    # short report
    annotated = len(lines) % 2 == 0
    if annotated:
        out = ''.join(basic_collision(w.lgr(), inp(), list(tlds) if tlds else None, with_annotations=True))
        notes = '# Validity #\n\n' + ''.join(annotate(w.lgr(), inp())) + '\n'
        if not out.startswith(notes):
            fail('annotations', 'the short report with annotations begins with %r instead of %r' % (out[:len(notes)], notes))
        out = out[len(notes):]
    else:
        out = ''.join(basic_collision(w.lgr(), list(lines), list(tlds) if tlds else None))
    head, _, errors = out.partition('\n# Errors #\n\n')
    got = [l for l in head.split('# Collisions #\n\n')[1].splitlines() if l]
    m = [re.match('(.*): collides with (label|TLD) (.*)$', l) for l in got]
    inner = [frozenset(tuple(map(ord, x.group(i))) for i in (1, 3)) for x in m if x and x.group(2) == 'label']
    mixed = [tuple(tuple(map(ord, x.group(i))) for i in (1, 3)) for x in m if x and x.group(2) == 'TLD']
    if sorted(map(sorted, inner)) != sorted(map(sorted, own)):
        fail('short-pairs', 'the short report says %r instead of %r' % (got, show(own)))
    if set(mixed) != with_tld:
        fail('short-tld-pairs', 'the short report says %r instead of %r for TLDs' % (sorted(mixed), sorted(with_tld)))
    isa = [l for l, x in zip(got, m) if not x and l != 'No collision']
    if isa != ['%s: is a TLD' % text(l) for l in sorted(labels) if l in tld]:
        fail('short-are-tlds', 'the short report says %r' % isa)
    if ('No collision' in got) != (not own and not with_tld and not set(labels) & set(tld)):
        fail('short-none', 'the short report says %r' % got)
    lines_err = errors.splitlines()
    if [l.split(': ')[0] for l in lines_err[:len(bad)]] != bad or lines_err[len(bad):] != ['%s: not in LGR' % text(l) for l in sorted(out_of)]:
        fail('short-errors', 'the short report says %r' % lines_err)


def check_dump(w, labels, tld, summary, fail):
    got = {}
    for sec in summary.split('\n## Dump for label ')[1:]:
        name = re.match("\u2066'(.*?)'\u2069 \\[(.*?)\\]", sec)
        items = re.findall("(\\w+) Label: \u2066'(.*?)'\u2069 \\[(.*?)\\]\n\tDisposition (.*)\n", sec)
        counts = dict(re.findall('\n - (.*): (\\d+)', sec))
        if name.group(1) in got:
            fail('dump', 'label %r is dumped twice' % name.group(1))
        got[name.group(1)] = (items, counts)
    inside = [l for l in labels if w.index(l) is not None]
    if set(got) != set(map(text, inside)):
        return fail('dump', 'dump of %r instead of %r' % (sorted(got), sorted(map(text, inside))))
    for l in inside:
        items, counts = got[text(l)]
        want = w.variants(l)
        if sorted(i[1] for i in items) != sorted(text(v) for v in want if v != l):
            fail('dump', 'the dump of %r lists %r instead of %r' % (text(l), sorted(i[1] for i in items), sorted(text(v) for v in want if v != l)))
            continue
        for cat, v, cp, disp in items:
            v = tuple(map(ord, v))
            c = 'Variant' if w.index(v) is None else 'Primary' if v in labels else 'TLD' if v in tld else 'Variant'
            if disp not in want[v] or cat != c or cp != ' '.join('U+%04X' % x for x in v):
                fail('dump', 'the dump of %r says %r, disposition %r of %r instead of %s, %r' % (text(l), cat, disp, v, c, sorted(want[v])))
        n = collections.Counter(i[3].lower() for i in items)
        n.update([next(iter(want[l])).lower()])
        if {k: str(v) for k, v in n.items()} != counts:
            fail('dump', 'the dump of %r counts %r instead of %r' % (text(l), counts, dict(n)))


def run_diff(wi, wj, lines, quiet, st):
    from lgr.tools.diff_collisions import diff
    case = {'kind': 'diff', 'worlds': [wi, wj], 'lines': lines, 'quiet': quiet}
    w1, w2 = world(wi), world(wj)
    l1, l2 = w1.lgr(), w2.lgr()
    l1.name, l2.name = 'one', 'two'
    labels = split(w1, lines)[0]
    st.evaluations += 1
    st.trace()
    out = ''.join(diff(l1, l2, iter([l + '\n' for l in lines]), show_collision=quiet, show_dump=False, quiet=quiet))
    st.outcome(out)

    def fail(key, what):
        st.violation(key, 'labels %r, LGRs %d and %d: %s' % (lines, wi, wj, what), case)
    head, _, rest = out.partition('\n# LGR comparison #\n')
    comp, _, coll = rest.partition('\n\n# Collisions for LGR1 #\n')
    for n, w in ((1, w1), (2, w2)):
        m = re.search('# Labels not in LGR %d #\n\n((?:Label .*\n)*)' % n, head)
        got = sorted(l[len('Label '):] for l in m.group(1).splitlines()) if m else []
        if got != sorted(text(l) for l in labels if w.index(l) is None):
            fail('diff-not-in-lgr', 'not in LGR %d: %r' % (n, got))
    secs = {}
    parts = comp.split('\n## Comparison on label ')
    absent = re.findall('Label (.*) not in LGR (.*)\n', parts[0])
    if sorted(absent) != sorted((text(l), 'one' if w1.index(l) is None else 'two') for l in labels if w1.index(l) is None or w2.index(l) is None):
        fail('diff-not-in-lgr', 'the comparison says %r' % absent)
    for sec in parts[1:]:
        name = re.match("\u2066'(.*?)'\u2069", sec).group(1)
        secs[name] = sec
    both = [l for l in labels if w1.index(l) is not None and w2.index(l) is not None]
    if set(secs) != set(map(text, both)) or len(parts) - 1 != len(both):
        return fail('diff-labels', 'compared labels are %r instead of %r' % (sorted(secs), sorted(map(text, both))))
    for l in both:
        sec = secs[text(l)]
        v1, v2 = w1.variants(l), w2.variants(l)
        got = {v: (a, b) for v, b, a in re.findall("Change in disposition for \\w+ \u2066'(.*?)'\u2069 \\[.*?\\] \\(2->1\\): (.*?) => (.*)\n", sec)}
        must = {text(v) for v in set(v1) & set(v2) if not v1[v] & v2[v]}
        may = {text(v): (v1[v], v2[v]) for v in set(v1) & set(v2) if v1[v] != v2[v] or len(v1[v]) > 1}
        if not must <= set(got) or not set(got) <= set(may) or any(a not in may[v][0] or b not in may[v][1] for v, (a, b) in got.items() if v in may):
            fail('diff-dispositions', 'label %r: changes %r instead of %r' % (text(l), got, may))
        if ('No changes in disposition.' in sec) != (not got):
            fail('diff-dispositions', 'label %r: %r' % (text(l), sec))
        new = sorted(re.findall("New \\w+ in LGR2:\n\u2066'(.*?)'\u2069", sec))
        gone = sorted(re.findall("Removed \\w+ in LGR2:\n\u2066'(.*?)'\u2069", sec))
        wn, wg = sorted(text(v) for v in set(v2) - set(v1)), sorted(text(v) for v in set(v1) - set(v2))
        if (new, gone) != (wn, wg):
            fail('diff-variants', 'label %r: new %r, removed %r instead of %r, %r' % (text(l), new, gone, wn, wg))
        if ('No changes in number of variants.' in sec) != (not wn and not wg):
            fail('diff-variants', 'label %r: %r' % (text(l), sec))
    if quiet:
        c1, _, c2 = coll.partition('\n\n# Collisions for LGR2 #\n')
        for w, c in ((w1, c1), (w2, c2)):
            own, _ = pairs_of(w, labels, [])
            inner = [frozenset(tuple(map(ord, x)) for x in p) for p in PAIR.findall(c)]
            if sorted(map(sorted, inner)) != sorted(map(sorted, own)):
                fail('diff-collisions', 'collisions %r instead of %r' % (inner, own))


def shards(tier):
    return [['reports', w, k, 6] for w in range(len(SPECS)) for k in range(6)] + [['diff', i, 0, 0] for i in range(len(SPECS))]


def run_shard(shard, st):
    kind, w, k, mod = shard
    q = st.tier == 'quick'
    if kind == 'reports':
        n = 0
        for ln in range(0, 5):
            for lines in itertools.combinations(POOL, ln):
                n += 1
                if n % mod != k or q and ln == 4 and n % 5:
                    continue
                if q and ln > 1 and w > 2 and n % 3:
                    continue
                lines = lines if n % 2 else lines[::-1]
                for ti, t in enumerate(TLDS):
                    if q and ln > 1 and (n // mod + ti) % len(TLDS) > 1:
                        continue
                    st.state((w, lines, t))
                    st.step()
                    run_reports(w, list(lines), list(t), st)
    else:
        for j in range(len(SPECS)):
            for ln in (1, 2) if q else (1, 2, 3):
                for n, lines in enumerate(itertools.combinations(POOL, ln)):
                    if q and ln == 2 and n % 3 != (w + j) % 3:
                        continue
                    st.state((w, j, lines))
                    st.step()
                    run_diff(w, j, list(lines), (n + j) % 2 == 0, st)
            run_diff(w, j, list(POOL), True, st)
            run_diff(w, j, list(POOL), False, st)
    st.sample({'shard': shard})


def replay(case, st):
    case = S.from_json(case)
    if case['kind'] == 'reports':
        run_reports(case['world'], list(case['lines']), list(case['tlds']), st)
    else:
        run_diff(case['worlds'][0], case['worlds'][1], list(case['lines']), case['quiet'], st)
