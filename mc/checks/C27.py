# -*- coding: utf-8 -*-
"""
C27 - annotated label lists say what the LGR says of each label.

Space: LGRs covering conditions, variants, rules and lists of actions; for each, the file of every label up to a length (with
comments, blanks, malformed lines and repetitions) in several orders, and every file of up to 3 lines. For sets: every set of
delegated labels up to 3 and every label. Oracle: the reference model, label by label; collisions by its index labels.
"""
import itertools

from mc import families as F
from mc import lgrspec as S
from mc.model import Model

PROPERTY = 'C27'
LEVEL = 'model_checking'
RULE = 'a case is one file of labels annotated with one LGR; non trivial = distinct outputs'
A, B, C, X, Y, Z = [ord(c) for c in 'abcxyz']
ACTIONS = [(), (S.action('invalid', match='xx'),), (S.action('invalid', match='endsB'), S.action('d1', match='hasC')),
           (S.action('d1', not_match='hasC'), S.action('invalid', match='endsB'), S.action('d2')),
           (S.action('blocked', any=('r',)), S.action('invalid', only=('r3', 'r')), S.action('invalid', all=('t1',))),
           (S.action('invalid', match='hasC', comment='no c'), S.action('invalid', not_match='endsB')),
           (S.action('valid', match='hasC'), S.action('invalid', any=('r', 'r3')), S.action('d3', not_match='xx'), S.action('invalid'))]
RULES = dict(F.RULES)
LINES = ['', '   ', '# only a comment', 'xn--99999999', 'a b c d?', 'U+0061 U+0062', '0061 0063  # hex # more', 'xn--4ca', 'U+110000']
NOLABEL, BAD = (0, 1, 2), (3, 4, 8)
# lines of short files
SHORT = ['a', 'b', 'ab', 'c', 'z', 'xn--99999999', '# a', 'ba # note', 'a']
BOUNDS = {'quick': '24 repertoires x 7 lists of actions: the file of all labels of length <= 2 over {a,b,c,z} (<= 3 for a third of them), in 3 orders, every file of up to 2 lines '
                   'from %d; sets: every set of at most 3 of 8 delegated labels, every label' % len(SHORT),
          'thorough': 'every repertoire of the family, length <= 3, files of up to 3 lines'}
ASSUMPTIONS = ['the rules named for a code point which does not comply are compared as a set']


def rep_specs(tier):
    menus, ts = F.variant_specs('quick')
    step = max(1, len(ts) // 24) if tier == 'quick' else 5
    return [F.variant_spec(menus, t, n=i) for i, t in enumerate(ts[::step])]


def labels(n):
    return [l for k in range(1, n + 1) for l in itertools.product((A, B, C, Z), repeat=k)]


def text(l):
    return ''.join(map(chr, l))


def expected(model, name, label, actions, suffix=None):
    ok, _, invalid, disp, idx, _ = model.eligible(label)
    out = ['%s: %s%s\n' % (name, disp, ' - ' + suffix(ok) if suffix and suffix(ok) else '')]
    if not ok and idx >= 0:
        out.append(' Rule %s: %s\n' % (idx, actions[idx]))
    for cp, rules in invalid:
        out.append((' Code point U+%04X' % cp, None if rules is None else frozenset(rules)))
    return out


def canon(lines):
    out = []
    for l in lines:
        head, sep, rules = l.partition(" does not comply with rules '")
        if sep:
            out.append((head, frozenset(rules.rstrip("'\n").split(','))))
        elif l.startswith(' Code point') and l.endswith(' not in repertoire\n'):
            out.append((l[:-len(' not in repertoire\n')], None))
        else:
            out.append(l)
    return out


def parse_line(line):
    """(shown label, code points or None) or None when there is no label."""
    l = line.split('#')[0].strip()
    if not l:
        return None
    if l == 'xn--99999999' or l == 'a b c d?' or l == 'U+110000':
        return l, None
    if l == 'xn--4ca':
        return '\u00e4', (0xe4,)
    if ' ' in l or 'U+' in l:
        cps = tuple(int(t.replace('U+', ''), 16) for t in l.split())
        return text(cps), cps
    return l, tuple(map(ord, l))


def compare(got, lines, model, actions, st, case, suffix=None):
    got = canon(got)
    i = 0
    for line in lines:
        p = parse_line(line)
        if p is None:
            continue
        if p[1] is None:
            if i >= len(got) or not isinstance(got[i], str) or not got[i].startswith(p[0] + ': ') or len(got[i]) < len(p[0]) + 4:
                return st.violation('malformed', 'malformed line %r is annotated %r' % (line, got[i:i + 1]), case)
            i += 1
            continue
        want = expected(model, p[0], p[1], actions, suffix and (lambda ok: suffix(p[1], ok)))
        if got[i:i + len(want)] != want:
            return st.violation('label', 'label %r of %r is annotated %r instead of %r' % (line, lines[:8], got[i:i + len(want) + 1], want), case)
        i += len(want)
    if i != len(got):
        st.violation('extra', 'annotations of nothing: %r' % got[i:i + 3], case)


def get(sp):
    lgr = S.build(sp, unidb=S.icu_db())
    return lgr, Model(sp)


def annotate_file(sp, lines, st, case, shared=None):
    from lgr.tools.annotate import annotate
    st.evaluations += 1
    st.trace()
    lgr, model = shared or get(sp)
    got = list(annotate(lgr, iter([l + '\n' for l in lines])))
    st.outcome(got)
    compare(got, lines, model, [str(a) for a in lgr.effective_actions], st, case)


def with_actions(sp, ai):
    return dict(sp, actions=list(ACTIONS[ai]))


def files(n):
    ls = [text(l) for l in labels(n)]
    for order in range(3):
        f = list(ls) if order == 0 else ls[::-1] if order == 1 else ls[1::2] + ls[::2]
        for i, x in enumerate(LINES):
            f.insert(3 * i + order, x)
        f.append(f[5])
        yield f


# -- sets ---------------------------------------------------------------------------------------------------------------------------

COMMON = S.spec([S.char((A,), [S.var((X,), 't1')]), S.char((X,), [S.var((A,), 't1')]), S.char((B,), [S.var((Y,), 'blocked')]), S.char((Y,), [S.var((B,), 'blocked')]),
                 S.char((C,), when='beforeB'), S.char((A, B), [S.var((C, C), 't2')]), S.char((C, C), [S.var((A, B), 't2')])], rules=F.RULES,
                # a set label which an action makes invalid is still in the repertoire: it stays in the set
                actions=[S.action('invalid', match='xx'), S.action('blocked', any=('t2',))])
SCRIPTS = [S.spec([S.char((A,)), S.char((B,)), S.char((C,)), S.char((X,)), S.char((0x64,))], rules=F.RULES, actions=[S.action('invalid', match='xx'), S.action('d1', match='hasC')]),
           S.spec([S.char((A,), [S.var((A,), 'r')]), S.char((X,)), S.char((B,), when='afterA'), S.char((Y,))], rules=F.RULES, actions=[S.action('d4', any=('r',))])]
DELEGATED = ['a', 'x', 'ab', 'xy', 'cb', 'xn--99999999', 'c', 'xx']


def annotate_set(si, dele, lines, st):
    from lgr.tools.annotate import lgr_set_annotate
    case = {'kind': 'set', 'script': si, 'set': dele, 'lines': lines}
    st.evaluations += 1
    st.trace()
    lgr, model = get(COMMON)
    script, smodel = get(SCRIPTS[si])
    got = list(lgr_set_annotate(lgr, script, iter([d + '\n' for d in dele]), iter([l + '\n' for l in lines])))
    st.outcome(got)
    head = ['# The following labels from the set labels are invalid\n']
    inside = []
    for d in dele:
        p = parse_line(d)
        if p[1] is None:
            head.append(d)
        elif not model.read(p[1])[0]:
            head.append('%s: invalid\n' % d)
        else:
            inside.append(p[1])
    head.append('# End of filtered set labels\n\n')
    if len(got) < len(head) or any(not (g == h or h[0] == 'x' and h[-1] != '\n' and g.startswith(h + ': ')) for g, h in zip(got, head)):
        return st.violation('set-head', 'set labels %r: %r instead of %r' % (dele, got[:len(head)], head), case)

    def suffix(label, ok):
        if not ok:
            return ''
        idx = model.index_label(label) if model.read(label)[0] else None
        if idx is not None and any(model.index_label(o) == idx for o in inside if o != label):
            return 'Label collides with the LGR set labels'
        return 'Label is in the LGR set labels' if label in inside else ''
    compare(got[len(head):], lines, smodel, [str(a) for a in script.effective_actions], st, case, suffix)


# -- exploration ----------------------------------------------------------------------------------------------------------------------

def shards(tier):
    n = 24 if tier == 'quick' else 64
    return [['rep', k, n] for k in range(n)] + [['set', k, 8] for k in range(8)]


def run_shard(shard, st):
    kind, k, mod = shard
    q = st.tier == 'quick'
    if kind == 'rep':
        for i, sp in enumerate(rep_specs(st.tier)):
            if i % mod != k:
                continue
            for ai in range(len(ACTIONS)):
                sp2 = with_actions(sp, ai)
                st.state((i, ai))
                for fi, f in enumerate(files(2 if q and (i + ai) % 3 else 3)):
                    st.step(len(f))
                    annotate_file(sp2, f, st, {'kind': 'file', 'spec': sp2, 'lines': f})
                for ln in (1, 2) if q else (1, 2, 3):
                    for p in itertools.product(SHORT, repeat=ln):
                        st.step()
                        annotate_file(sp2, p, st, {'kind': 'file', 'spec': sp2, 'lines': list(p)}) if not q or (i + ai) % 4 == 0 or ln == 1 else None
    else:
        lines = [text(l) for l in itertools.chain(labels(1), labels(2), [(X,), (Y,), (X, Y), (A, Y), (X, B), (A, A, B), (0x64,), (X, X)])]
        n = 0
        for ln in range(0, 4):
            for dele in itertools.permutations(DELEGATED, ln):
                if ln == 3 and list(dele) != sorted(dele, key=DELEGATED.index) and q:
                    continue
                for si in range(len(SCRIPTS)):
                    n += 1
                    if n % mod == k:
                        st.state((dele, si))
                        st.step(len(lines))
                        annotate_set(si, list(dele), lines, st)
    if k == 0:
        st.sample({'shard': shard})


def replay(case, st):
    case = S.from_json(case)
    if case['kind'] == 'set':
        annotate_set(case['script'], list(case['set']), list(case['lines']), st)
    else:
        annotate_file(S.unjson_spec(case['spec']), list(case['lines']), st, case)
