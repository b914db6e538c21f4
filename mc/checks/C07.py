# -*- coding: utf-8 -*-
"""
C07 - mixed-script filtering and the estimated number of variants.

Every menu of variants (in several scripts) for the characters of a repertoire x every label of the bound: the variants returned
with mixed scripts hidden are compared with those of the reference model filtered on scripts; estimates with the products they
stand for. The full list (not hidden) is compared as well, so that the filter is seen to be off by default. Then the same for repertoires with sequences, whose parts may be listed or not.
"""
import itertools

from mc import lgrspec as S
from mc.model import Model

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = 'a case is one (menu of variants, label) pair; non trivial = distinct filtered variant sets other than the full one'
BOUNDS = {'quick': '64 x 22 variant menus for two Latin letters, in 8 scripts, x labels of length 1-3 over them, common, inherited, Han, Katakana, Hangul, Greek; '
          '37 x 6 variant menus for a sequence ab and a letter c x 10 listings of their parts and of other sequences x every readable label over abc up to length 4',
          'thorough': '128 x 64 variant menus; 93 x 16 menus for the sequence, labels up to length 5 when it and c have at most three variants'}
ASSUMPTIONS = ['conditions are set on variants, not on entries (which of the entries of a label stay usable once its beginning is replaced is ambiguous, see C01)']

a, b, one_, prol, acute = ord('a'), ord('b'), 0x30, 0x30FC, 0x301
MA = [ord(c) for c in 'áαа赤テ보ー']
MB = [ord(c) for c in 'ƀβб丙トか']
LAB = [tuple(map(ord, s)) for s in ('a', 'ab', 'ba', 'aab', 'αβ', 'αb', '赤a', 'aテ', 'テa', '보a', 'a보', 'a-', '-a', 'a-b', 'aー', 'á\u0301b', 'αа',
                                    '赤', 'か丙')]
IGNORED = {'Common', 'Inherited'}


def subsets(menu, k):
    for n in range(k + 1):
        for c in itertools.combinations(menu, n):
            yield c


def menus(tier):
    ka, kb = (3, 2) if tier == 'quick' else (7, 6)
    return list(itertools.product(list(subsets(MA, ka)),
                                  subsets(MB, kb)))


def make(ma, mb, n):
    t = ('blocked', 'allocatable', None)
    # conditions on the variants: a script is one in which the label can be written whether they hold or not
    k = n % 7 if n % 3 == 0 else 0
    cond = [{}, {}] + [dict(when='afterB'), dict(not_when='beforeB'), {}, dict(when='afterB'), dict(when='beforeB')]
    va = [S.var((c,), t[i % 3], **(cond[(i + k) % 7] if k else {})) for i, c in enumerate(ma)]
    vb = [S.var((c,), t[i % 2], **(cond[(i * 2 + k) % 7] if k else {})) for i, c in enumerate(mb)]
    if n % 4 == 1:
        va.append(S.var((a, ord('e')), 'blocked'))
    if n % 4 == 2:
        va.insert(0, S.var((a,), 'r'))
        vb.insert(0, S.var((b,), 'r'))
    if n % 4 == 3:
        vb.append(S.var((ord('β'), ord('ε')), 'blocked'))
    items = {a: va, b: vb, ord('α'): [S.var((a,), 'blocked'), S.var((ord('ά'),), 'blocked')], ord('β'): [S.var((b,), 'blocked')],
             ord('赤'): [S.var((ord('丙'),), 'blocked'), S.var((ord('テ'),), 'blocked')], ord('テ'): [S.var((a,), 'x'), S.var((ord('か'),), 'x'), S.var((ord('보'),), 'x')],
             ord('보'): [S.var((a,), 'x'), S.var((ord('α'),), 'x'), S.var((ord('赤'),), 'x')], ord('か'): [S.var((ord('赤'),), 'y')], ord('丙'): [S.var((a,), 'y')],
             0x2D: [], prol: [S.var((0x30A2,), 'z')], acute: [], ord('á'): [S.var((a,), 'blocked')], ord('а'): [S.var((a,), 'blocked')]}
    return S.spec([S.char((c,), v) for c, v in items.items()], actions=[S.action('d', any=('x',))],
                  rules=[('afterB', [('behind', [('char', (b,), None)]), ('anchor',)]), ('beforeB', [('anchor',), ('ahead', [('char', (b,), None)])])])


# sequences: variants of the sequence ab, of c, and what else of the label is listed
QA = [(ord('я'),), (ord('α'),), (ord('é'),), (ord('и'), 0x306), (ord('я'), ord('α')), (ord('赤'),), (ord('я'), ord('-')), (a, b)]
QC = [(ord('с'),), (ord('β'),), (ord('ƈ'),), (ord('с'), acute), (ord('テ'),)]
c_ = ord('c')
EXTRA = [[], [S.char((a,))], [S.char((b,))], [S.char((a,)), S.char((b,))], [S.char((a,), [S.var((ord('а'),), 'blocked')]), S.char((b,))],
         [S.char((a,), [S.var((ord('ά'),), 'blocked')]), S.char((b,), [S.var((ord('ы'),), 'blocked'), S.var((ord('ε'),), 'blocked')])],
         [S.char((b, c_), [S.var((ord('ы'),), 'x'), S.var((ord('ω'),), 'x')]), S.char((a,), [S.var((ord('а'),), 'x')])],
         [S.char((b,), [S.var((ord('ь'),), 'blocked', when='afterB')]), S.char((a,), [S.var((ord('а'),), 'blocked', not_when='beforeB')])],
         [S.char((a, b, c_), [S.var((ord('ю'),), 'blocked')])], [S.char((a, b, c_), []), S.char((c_, a), [S.var((ord('ц'),), 'blocked')]), S.char((b,))]]


def seq_menus(tier):
    ka, kc = (2, 1) if tier == 'quick' else (3, 2)
    return list(itertools.product(list(subsets(QA, ka)), list(subsets(QC, kc)), range(len(EXTRA))))


def seq_make(qa, qc, x):
    t = ('blocked', 'allocatable', None)
    items = [S.char((a, b), [S.var(v, t[i % 3], **({'when': 'afterC'} if i == 1 and x % 3 == 1 else {})) for i, v in enumerate(qa)]),
             S.char((c_,), [S.var(v, t[i % 2]) for i, v in enumerate(qc)])] + EXTRA[x]
    rule = lambda n, c: [('behind', [('char', (c,), None)]), ('anchor',)]
    return S.spec(items, actions=[S.action('d', any=('x',))],
                  rules=[('afterB', rule('b', b)), ('afterC', rule('c', c_)), ('beforeB', [('anchor',), ('ahead', [('char', (b,), None)])])])


def sequences(qa, qc, x, st, sc, only=None):
    sp = seq_make(qa, qc, x)
    lgr, model = S.build(sp, unidb=sc.db), Model(sp)
    for n in range(1, 5 if st.tier == 'quick' or len(qa) + len(qc) > 3 else 6):
        for label in itertools.product((a, b, c_), repeat=n):
            if model.read(label)[0] and only in (None, label):
                one(lgr, sp, model, label, sc, st, {'qa': qa, 'qc': qc, 'x': x, 'n': n + x, 'label': label})


def permitted(scripts):
    """Scripts which may be used together with the given ones (the Japanese, Korean and Chinese mixes)."""
    out = set(scripts)
    if scripts & {'Katakana', 'Hiragana'}:
        out |= {'Han', 'Latin', 'Katakana', 'Hiragana'}
    elif 'Hangul' in scripts:
        out |= {'Latin'}
    if 'Han' in scripts:
        out |= {'Latin'}
    return out


class Scripts(object):
    def __init__(self):
        self.db = S.icu_db()
        self.memo = {}

    def of(self, cps):
        out = set()
        for c in cps:
            if c not in self.memo:
                self.memo[c] = self.db.get_script(c)
            out.add(self.memo[c])
        return out


def script(cps, sc):
    """The script a variant is written in, if it is exactly one (common and inherited code points aside)."""
    found = sc.of(cps) - IGNORED
    return min(found) if len(found) == 1 else None


def splits(sp, label):
    """All splits of a label into entries of the repertoire (whatever the conditions)."""
    if not label:
        yield ()
    for item in sp['items']:
        n = len(item['cp'])
        if label[:n] == item['cp']:
            for tail in splits(sp, label[n:]):
                yield (item,) + tail


def analyse(sp, label, sc):
    """
    :return: (base scripts, other scripts): those permitted with the label's, those in which every part of it has a variant.
    """
    base = permitted(sc.of(label) - IGNORED)
    if len(label) > 8:      # repetitions: same parts
        label = tuple(sorted(set(label)))
    other = set()
    for parts in splits(sp, label):
        common = None
        for item in parts:
            s = {script(v['cp'], sc) for v in item['vars']} - {None}
            common = s if common is None else common & s
        other |= common or set()
    return base, other - base


def filtered(sp, model, label, sc):
    base, other = analyse(sp, label, sc)
    out = {}
    for d in model.derivations(label, True):
        word, types, parts = d[0], d[1], d[4]
        if not d[3]:
            continue
        # the first part decides in which scripts the label is written
        s1 = script(tuple(parts[0]), sc)
        if s1 in other:
            allowed = permitted({s1})
            rest_ok = all(sc.of(p) <= allowed | IGNORED for p in parts[1:])
        else:
            rest_ok = all(sc.of(p) <= base | IGNORED for p in parts)
        if rest_ok:
            out.setdefault(word, set()).add(frozenset(types))
    return out


def number(sp, model, label, sc, hide):
    by = {i['cp']: i for i in sp['items']}
    real = [[v for v in by[c]['vars'] if v['cp'] != c] for c in model.read(label)[3]]
    if not hide:
        n = 1
        for r in real:
            n *= len(r) + 1
        return n
    base, other = analyse(sp, label, sc)
    n = 1
    for r in real:
        n *= 1 + len([v for v in r if sc.of(v['cp']) <= base | IGNORED])
    for s in other:
        m = 1
        for r in real:
            m *= len([v for v in r if script(v['cp'], sc) == s])
        n += m
    return n


def one(lgr, sp, model, label, sc, st, case):
    def ask(**kw):
        return {tuple(r[0]): (r[1], r[3]) for r in lgr.compute_label_disposition(label, include_invalid=True, collect_log=False, **kw)}
    full = ask()
    hidden = ask(hide_mixed_script_variants=True)
    want = filtered(sp, model, label, sc)
    ws = set(want) | {label}
    fs = {d[0] for d in model.derivations(label, True) if d[3]} | {label}
    st.evaluations += 4
    st.trace()
    st.step(len(full))
    h = lambda s: sorted(S.hexs(x) for x in s)
    name = ''.join(map(chr, label))
    if set(full) != fs:
        st.violation('not-hidden', 'label %s, nothing hidden: missing %r, extra %r' % (name, h(fs - set(full)), h(set(full) - fs)), case)
    if set(hidden) != ws:
        st.violation('hidden', 'label %s, mixed scripts hidden: missing %r, extra %r' % (name, h(ws - set(hidden)), h(set(hidden) - ws)), case)
    if any(full[w] != d for w, d in hidden.items() if w in full and len(want.get(w, ())) < 2):
        st.violation('disposition', 'label %s: hiding mixed scripts changes a disposition' % name, case)
    for hide in (False, True):
        got, exp = lgr.estimate_variant_number(label, hide_mixed_script_variants=hide), number(sp, model, label, sc, hide)
        if got != exp:
            st.violation('estimate', 'label %s: estimated number (hidden=%s) %d instead of %d' % (name, hide, got, exp), case)
    summ, res = lgr.compute_label_disposition_summary(label, include_invalid=True, hide_mixed_script_variants=True) if case['n'] % 8 == 0 else (None, None)
    if res is not None and {tuple(r[0]) for r in res} != set(hidden):
        st.violation('summary', 'label %s: summary with mixed scripts hidden lists %r' % (name, h({tuple(r[0]) for r in res})), case)
    st.state((case['n'], case.get('qa'), case.get('qc'), label))
    if ws != fs:
        st.outcome((case['n'], label, sorted(ws)))


def long_labels(lgr, sp, model, n, sc, st):
    """The numbers of long labels."""
    for k in (4, 5, 6, 7, 8, 10, 16, 31, 32, 62, 63):
        for label in ((a,) * k, ((a, b) * 32)[:k], (b,) * k):
            st.evaluations += 2
            for hide in (False, True):
                got, exp = lgr.estimate_variant_number(label, hide_mixed_script_variants=hide), number(sp, model, label, sc, hide)
                if got != exp:
                    st.violation('estimate', 'label %s: estimated number (hidden=%s) %d instead of %d' % (''.join(map(chr, label)), hide, got, exp),
                                 {'n': n, 'label': label, 'long': True})


def shards(tier):
    return [[i, 48] for i in range(48)]


def run_shard(shard, st):
    k, mod = shard
    sc = Scripts()
    ms = menus(st.tier)
    for n in range(k, len(ms), mod):
        ma, mb = ms[n]
        sp = make(ma, mb, n)
        lgr, model = S.build(sp, unidb=sc.db), Model(sp)
        for i, label in enumerate(LAB):
            if not ({a, b} & set(label)) and n >= mod:
                continue        # labels which do not use the menus: once is enough
            if set(label) & {a, b} == {a} and n % 22 and st.tier == 'quick' and mb:
                continue        # the menu of b does not matter
            one(lgr, sp, model, label, sc, st, {'ma': ma, 'mb': mb, 'n': n, 'label': label})
        if n % 7 == 0 or st.tier != 'quick':
            long_labels(lgr, sp, model, n, sc, st)
    for i, (qa, qc, x) in enumerate(seq_menus(st.tier)):
        if i % mod == k:
            sequences(qa, qc, x, st, sc)
    st.sample({'a': [chr(c) for c in ma], 'b': [chr(c) for c in mb]})


def replay(case, st):
    case = S.from_json(case)
    sc = Scripts()
    if case.get('long'):
        ms = menus(st.tier) if case['n'] < len(menus(st.tier)) else menus('thorough')
        sp = make(*ms[case['n']], case['n'])
        return long_labels(S.build(sp, unidb=sc.db), sp, Model(sp), case['n'], sc, st)
    if 'qa' in case:
        return sequences(case['qa'], case['qc'], case['x'], st, sc, case['label'])
    sp = make(case['ma'], case['mb'], case['n'])
    one(S.build(sp, unidb=sc.db), sp, Model(sp), case['label'], sc, st, case)
