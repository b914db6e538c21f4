# -*- coding: utf-8 -*-
"""
C30 - labels and code points are read and written faithfully.

Space: every Unicode code point in every notation; every label up to a length over an alphabet of scripts, in every notation
(U-label, A-label, hexadecimal forms), in files with comments, blanks and byte order marks; every string up to a length over an
alphabet of hexadecimal syntax, for what must be refused; every set of code points over a window, for lists of ranges.
"""
import itertools
import re

from mc import lgrspec as S

PROPERTY = 'C30'
LEVEL = 'model_checking'
RULE = 'a case is one input text (or code point, or list of code points); non trivial = distinct results'
ALPHA = [0x61, 0x62, 0x30, 0x2d, 0xe9, 0xdf, 0x3c3, 0x436, 0x4e00, 0x5d0, 0x10400 + 0x28, 0x200d]
SYNTAX = 'Uu+06fg _x'
SYNTAX2 = SYNTAX + '-\uff11#\t'
BOUNDS = {'quick': 'all 0x110000 code points; labels of length <= 3 over %d code points; all strings of length <= 5 over %d characters; all sets within 12 '
                   'consecutive code points; runs of up to 4097' % (len(ALPHA), len(SYNTAX)),
          'thorough': 'labels of length <= 4; strings of length <= 6, and <= 5 over %d characters; all sets within 16 consecutive code points' % len(SYNTAX2)}
ASSUMPTIONS = ['the A-label of a label is the one the Unicode database (ICU) computes; labels ICU refuses have none',
               'a text of hexadecimal digits without U+ nor space is a U-label, as documented']
HEX = re.compile('^[0-9A-Fa-f]+$')


# -- oracle -----------------------------------------------------------------------------------------------------------------------

def want_cp(t):
    """Code point a token stands for, None when it is malformed."""
    if len(t) == 1:
        return ord(t)
    h = t[2:] if t[:2] in ('U+', 'u+') else t
    if not HEX.match(h) or int(h, 16) > 0x10FFFF:
        return None
    return int(h, 16)


def want_label(s):
    """Code points a (stripped, non empty) text stands for, None when it is malformed. Not for A-labels."""
    if ' ' in s or 'U+' in s or 'u+' in s:
        out = [want_cp(t) for t in s.split()]
        return None if None in out else out
    return [ord(c) for c in s]


def want_lines(lines):
    """(label, code points or None) for each line which holds a label."""
    for l in lines:
        l = l.lstrip('\ufeff').strip().split('#')[0].strip()
        if l:
            yield l, want_label(l)


# -- cases ------------------------------------------------------------------------------------------------------------------------

def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except ValueError:
        return None


def run_cp(cp, st):
    from lgr.tools.utils import parse_codepoint_input, parse_single_cp_input
    from lgr.utils import cp_to_str, cp_to_ulabel, format_cp
    h = '%04X' % cp
    st.evaluations += 1
    got = (cp_to_str(cp), format_cp(cp), format_cp([cp]), cp_to_ulabel(cp), cp_to_ulabel((cp,)))
    if got != (h, 'U+' + h, 'U+' + h, chr(cp), chr(cp)):
        st.violation('write', 'code point %s is written %r' % (h, got), {'kind': 'cp', 'cp': cp})
    texts = ['U+' + h, 'u+' + h.lower(), h, ' U+%06x ' % cp] + ([chr(cp)] if not chr(cp).isspace() else [])
    for t in texts:
        g, g2 = attempt(parse_single_cp_input, t), attempt(parse_codepoint_input, t)
        if g != cp or g2 != [cp]:
            st.violation('read', 'code point %r is read as %r, %r' % (t, g, g2), {'kind': 'cp', 'cp': cp})


def run_text(s, st):
    """A text of any kind (not an A-label): single code point, list of code points, label."""
    from lgr.tools.utils import parse_codepoint_input, parse_label_input, parse_single_cp_input, read_labels
    case = {'kind': 'text', 'text': s}
    st.evaluations += 1
    toks = s.split()
    if len(toks) == 1:
        w, g = want_cp(toks[0]), attempt(parse_single_cp_input, s)
        if w != g:
            st.violation('single', 'code point %r is read as %r instead of %r' % (s, g, w), case)
    if toks:
        w = [want_cp(t) for t in toks]
        w, g = None if None in w else w, attempt(parse_codepoint_input, s)
        if w != g:
            st.violation('list', 'code points %r are read as %r instead of %r' % (s, g, w), case)
    if s != s.strip() or not s:
        return
    w = want_label(s)
    st.outcome(w)
    for as_cp in (True, False):
        got, valid, ex = parse_label_input(s, as_cp=as_cp)
        x = w if as_cp or w is None else ''.join(map(chr, w))
        if valid != (w is not None) or valid and (got != x or ex is not None) or not valid and ex is None:
            st.violation('label', 'label %r is read as %r' % (s, (got, valid, ex)), case)
        r = attempt(parse_label_input, s, as_cp=as_cp, do_raise=True)
        if (r is None) != (w is None) or r and r[0] != x:
            st.violation('label', 'label %r is read as %r when errors are raised' % (s, r), case)
    if ' ' in s:
        got, valid, ex = parse_label_input(s, keep_spaces=True)
        x = w if w is not None else [ord(c) for c in s]
        if not valid or got != x:
            st.violation('label', 'label %r with spaces kept is read as %r' % (s, (got, valid, ex)), case)
    if '#' not in s:
        run_lines([s], st, case)


def run_lines(lines, st, case, db=True):
    from lgr.tools.utils import read_labels
    got = list(read_labels(iter(lines), S.icu_db() if db else None, as_cp=True))
    want = list(want_lines(lines))
    if len(got) != len(want) or any(g[0] != w[0] or g[2] != (w[1] is not None) or w[1] is not None and g[1] != w[1] for g, w in zip(got, want)):
        st.violation('lines', 'lines %r are read as %r' % (lines, got), case)


def notations(label):
    h = ['%04X' % c for c in label]
    yield 'U', ''.join(map(chr, label))
    yield 'U+', ' '.join('U+' + x for x in h)
    yield 'u+', '  '.join('u+' + x.lower() for x in h)
    yield 'mixed', ' '.join(x if i % 2 else 'U+' + x for i, x in enumerate(h))
    if len(h) > 1:
        yield 'hex', ' '.join(h)
        yield 'chars', ' '.join(map(chr, label))
        yield 'first', ' '.join([chr(label[0])] + h[1:])


def run_label(label, st):
    from lgr.tools.utils import parse_label_input, read_labels
    from lgr.utils import cp_to_ulabel, format_cp
    db = S.icu_db()
    case = {'kind': 'label', 'label': label}
    text = ''.join(map(chr, label))
    st.evaluations += 1
    st.trace()
    if cp_to_ulabel(label) != text or cp_to_ulabel(list(label)) != text or format_cp(label) != ' '.join('U+%04X' % c for c in label):
        st.violation('write', 'label %r is written %r, %r' % (label, cp_to_ulabel(label), format_cp(label)), case)
    forms = dict(notations(label))
    try:
        a = db.idna_encode_label(text)
        a = a.decode('ascii') if isinstance(a, bytes) else a
        # a text which is not the canonical form of the label it encodes comes back as that form
        if a != text and db.idna_decode_label(a) == text:
            forms['A'], forms['A upper'] = a, a.upper()
            if a.startswith('xn--'):
                forms['A mixed'], forms['A first'], forms['A second'] = 'xN--' + a[4:].upper(), 'Xn--' + a[4:], 'XN--' + a[4:]
    except Exception:
        st.count('no A-label')
    st.outcome(sorted(forms.items()))
    for name, t in forms.items():
        st.step()
        if t != t.strip():
            continue
        for as_cp in (True, False):
            got, valid, ex = parse_label_input(t, idna_decoder=db.idna_decode_label, as_cp=as_cp)
            if not valid or got != (list(label) if as_cp else text):
                st.violation('label', 'label %r, written %r (%s), is read as %r' % (label, t, name, (got, valid, ex)), case)
            got = list(read_labels(iter(['\ufeff# head\n', '\n', '\ufeff%s # note # more\n' % t, ' \t \n', '%s\r\n' % t, '#%s' % t]), db, as_cp=as_cp))
            if [(g[0], g[1], g[2]) for g in got] != [(t, list(label) if as_cp else text, True)] * 2:
                st.violation('lines', 'label %r, written %r (%s), is read as %r from a file' % (label, t, name, got), case)
        got = list(read_labels(iter(['#%s' % t, t]), db, keep_commented=True))
        if [g[1] for g in got] != ['#' + t, text]:
            st.violation('lines', 'label %r, written %r (%s), is read as %r with the commented ones' % (label, t, name, got), case)


BAD_A = ['xn--', 'xn--a-', 'XN--\u00e9', 'xn--99999999', 'xn--a b', 'xn--\U0001F600', 'xn--0']


def run_bad_a(t, st):
    """A malformed A-label is refused and does not hinder the next labels."""
    from lgr.tools.utils import read_labels
    db = S.icu_db()
    st.evaluations += 1
    try:
        db.idna_decode_label(t.lower())
        return
    except Exception:
        pass
    got = list(read_labels(iter(['ab', t, 'cd']), db))
    st.outcome(('bad', [g[:3] for g in got]))
    if [(g[0], g[2]) for g in got] != [('ab', True), (t, False), ('cd', True)] or not got[1][3] or got[0][1] != 'ab' or got[2][1] != 'cd':
        st.violation('a-label', 'malformed A-label %r: %r' % (t, got), {'kind': 'bad', 'text': t})


def run_set(cps, st):
    from lgr.utils import collapse_codepoints, format_cp_collapsed
    case = {'kind': 'set', 'cps': cps}
    want, cur = [], None
    for c in sorted(set(cps)):
        if cur and cur[1] == c - 1:
            cur[1] = c
        else:
            cur = [c, c]
            want.append(cur)
    want = [tuple(x) for x in want]
    text = ' '.join('U+%04X' % a if a == b else ('U+%04X U+%04X' if b == a + 1 else 'U+%04X-U+%04X') % (a, b) for a, b in want)
    st.outcome(text)
    for order in (cps, cps[::-1], cps[1::2] + cps[0::2], set(cps), tuple(cps)):
        st.evaluations += 1
        got = collapse_codepoints(order)
        if got != want:
            st.violation('ranges', 'ranges of %.300r are %.300r instead of %.300r' % (order, got, want), case)
        if format_cp_collapsed(order) != text:
            st.violation('ranges', '%.300r is written %.300r instead of %.300r' % (order, format_cp_collapsed(order), text), case)


def long_runs():
    """Lists of long runs of code points: every length at borders of planes and blocks."""
    for start in (0, 0x41, 0x3400, 0xFF00, 0x10000 - 3, 0x20000):
        for n in list(range(1, 40)) + [64, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4097]:
            yield list(range(start, start + n))
            yield list(range(start, start + n)) + list(range(start + n + 1, start + n + 1 + n // 2))
    yield [c for i in range(200) for c in (3 * i, 3 * i + 1)]
    yield [2 * i for i in range(400)]


def shards(tier):
    q = tier == 'quick'
    out = [['cp', k, 16] for k in range(16)]
    out += [['label', k, 16] for k in range(16)]
    out += [['text', k, 0] for k in range(len(SYNTAX))] + ([] if q else [['text2', k, 0] for k in range(len(SYNTAX2))])
    out += [['set', k, 8] for k in range(8)] + [['runs', 0, 0]] + [['misc', 0, 0]]
    return out


def run_shard(shard, st):
    kind, k, mod = shard
    q = st.tier == 'quick'
    if kind == 'cp':
        for cp in range(k, 0x110000, mod):
            run_cp(cp, st)
        st.count('code points', len(range(k, 0x110000, mod)))
    elif kind == 'label':
        n = 0
        for ln in range(1, 4 if q else 5):
            for label in itertools.product(ALPHA, repeat=ln):
                if n % mod == k:
                    st.state(label)
                    run_label(label, st)
                n += 1
    elif kind in ('text', 'text2'):
        al = SYNTAX if kind == 'text' else SYNTAX2
        for ln in range(0, 5 if q or kind == 'text2' else 6):
            for rest in itertools.product(al, repeat=ln):
                st.state((kind, k, rest))
                st.step()
                run_text(al[k] + ''.join(rest), st)
    elif kind == 'set':
        width = 12 if q else 16
        for mask in range(k, 2 ** width, mod):
            st.state(('set', mask))
            base = (0x1FE, 0xFFFA)[mask % 2]
            run_set([base + i for i in range(width) if mask >> i & 1], st)
    elif kind == 'runs':
        for cps in long_runs():
            st.state(('runs', cps[0], len(cps), cps[-1]))
            run_set(cps, st)
    else:
        for t in BAD_A:
            run_bad_a(t, st)
        lines = ['ab', '', '# c', 'U+0061 U+0062 # x', ' 0061 zz', 'b#c # d', '  ', 'U+110000', 'U+61', '\ufeffcd']
        for ln in range(0, 4):
            for p in itertools.product(lines, repeat=ln):
                st.state(('lines', p))
                st.evaluations += 1
                run_lines(list(p), st, {'kind': 'lines', 'lines': p}, db=False)
    st.sample({'shard': shard})


def replay(case, st):
    case = S.from_json(case)
    k = case['kind']
    if k == 'cp':
        run_cp(case['cp'], st)
    elif k == 'text':
        run_text(case['text'], st)
    elif k == 'label':
        run_label(tuple(case['label']), st)
    elif k == 'bad':
        run_bad_a(case['text'], st)
    elif k == 'set':
        run_set(list(case['cps']), st)
    else:
        run_lines(list(case['lines']), st, case, db=False)
