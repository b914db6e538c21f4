# -*- coding: utf-8 -*-
"""
C16 - text tables (RFC 3743, RFC 4290, one entry per line) are read as their format says, and their format is recognised.

Space: every table of up to 3 lines out of a menu of lines per format (entries with references, preferred and other variants,
sequences, references, versions, duplicates, comments, blank, foreign and malformed lines), written in layouts (prefix, case and
width of code points, spaces around every separator, number of fields, comments, line ends), read from text, bytes or a file,
with and without force, by the parser of the format and by the one which guesses. Oracle: an interpretation of the menu.
"""
import io
import itertools
import os
import shutil
import tempfile

from mc import lgrspec as S

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = 'a case is one table in one layout read in one way; non trivial = distinct contents of tables'
A, B, C, X, E = 0x61, 0x62, 0x63, 0x78, 0xE9


def cp(seq, refs=(), pref=(), var=(), fields=0):
    return ('cp', tuple(seq), tuple(refs), tuple(pref), tuple(var), fields)


MENU3 = [
    ('ref', '0', 'Unicode 3.2', None), ('ref', '1', 'one; two (3)', 'note'), ('ref', '12', 'twelve', 'U+0061 ; x'), ('ref', '1', 'again', None),
    ('ver', '1', '20020701', 'July'), ('ver', '10', '20121231', None),
    cp([A]), cp([B], pref=[((A,), ())]), cp([A], var=[((B,), ()), ((A, B), ())]), cp([A, B], ('1',), [((A,), ('0',))], [((B,), ('12', '1')), ((X,), ())]),
    cp([X], ('1', '12'), [((X,), ()), ((E,), ('1',))], [((X,), ())]), cp([A], ('0',), [], [((X,), ('0',))], 1), cp([0x20BB7, E], pref=[((0x3447, 0x3473, X), ()), ((B,), ('1',))], var=[((c,), ()) for c in (0x3447, A, B, C, X, 0x20BB8)], fields=2),
    ('bad', 'Version 7 20021345'), ('bad', 'U+110000;U+0061;U+0062'), ('bad', 'zzz;0061;0062'), ('bad', '0061,0062;0078;0078'),
    ('skip', ''), ('skip', '# U+0062;U+0061'), ('skip', 'hello'),
]
MENU4 = [
    cp([A]), cp([B], var=[((A,), ())]), cp([A], var=[((B,), ()), ((A, B), ()), ((X,), ())]), cp([A, B], var=[((A,), ())]), cp([X], var=[((X,), ()), ((X,), ())]), cp([E, A], var=[((0x20BB7, X), ())] + [((c,), ()) for c in (A, B, C, X, 0x20BB8)], fields=1),
    cp([0x20BB7]), ('bad', 'U+0061-zz|U+0078'), ('bad', 'U+0062-U+110000|U+0078'), ('bad', 'zz|U+0061'), ('badvar', cp([A], var=[((B,), ())]), 'zz'), ('badvar', cp([B], var=[((X,), ())]), 'U+0061-U+110000'),
    ('skip', ''), ('skip', '# U+0062|U+0061'), ('skip', 'hello'),
]
MENUL = [cp([A]), cp([B]), cp([A, B]), cp([0x20BB7, E, X]), cp([E]), ('bad', 'zz'), ('bad', 'U+110000'), ('bad', 'U+0062 U+110000'), ('bad', 'U+12'), ('skip', ''), ('skip', '# U+0062')]
MENUS = {'3743': MENU3, '4290': MENU4, 'line': MENUL}
# (prefix, digits, spaces before and after separators, between variants, comment at the end, indentation, end of line)
LAYOUTS = [('U+', '%04X', '', '', '', '', '\n'), ('', '%04X', '', '', '', '', '\n'), ('U+', '%04x', ' ', ' ', ' # U+0063 ; | x', '', '\n'), ('', '%06X', ' ', '  ', '#c', ' ', '\r\n'),
           ('U+', '%06x', '', ' ', '  # c', '\t', '\r\n'), ('', '%04x', '\t', '\t', '', '', '\n'), ('U+', '%05X', '', '', ' #U+0063 # |U+0079 # :U+007A', '', '\r'), ('', '%04X', ' ', '', '\t', '', '\r')]
SOURCES = ['text', 'bytes', 'path']
BOUNDS = {'quick': 'tables of at most 2 of %d, %d and %d lines in %d layouts x 3 sources x force or not; every table of 3 lines in one of these; tables with up to 15 references or code points in a sequence, 30 variants, 150 lines; 40 XML documents' % (
              len(MENU3), len(MENU4), len(MENUL), len(LAYOUTS)),
          'thorough': 'tables of at most 3 lines in 3 layouts each, tables of 4 lines in one each'}
ASSUMPTIONS = ['a line of a code point already given only adds its variants', 'a line of any format is separated by a line end only; references are declared before they are used (undefined ones are dropped in forced mode, and the entry refused otherwise)',
               'a table whose lines are the same in two formats may be taken for either']


# -- writing ----------------------------------------------------------------------------------------------------------------------

def write(fmt, lines, lay):
    pre, digits, before, after, comment, indent, end = lay
    out = []
    for l in lines:
        if l[0] == 'cp' or l[0] == 'badvar':
            t = indent + write_cp(fmt, l, lay) + comment
        elif l[0] == 'ref':
            t = 'Reference %s %s%s' % (l[1], l[2], ' # ' + l[3] if l[3] else '')
        elif l[0] == 'ver':
            t = 'Version %s%s%s%s' % (l[1], after or ' ', l[2], ' # ' + l[3] if l[3] else '')
        else:
            t = l[1]
        out.append(t + end)
    return ''.join(out)


def write_cp(fmt, l, lay):
    pre, digits, before, after, comment, indent, end = lay
    if l[0] == 'badvar':
        return write_cp(fmt, l[1], lay) + ':' + l[2]
    _, seq, refs, pref, var, fields = l
    if fmt == 'line':
        return ' '.join('U+' + digits % c for c in seq)
    if fmt == '4290':
        one = lambda s: (before + '-' + after).join('U+' + digits % c for c in s)
        t = one(seq)
        if var or fields:
            t += before + '|' + after + (before + ':' + after).join(one(v) for v, _ in var)
        return t + '|x' * fields
    one = lambda s, r: ' '.join(pre + digits % c for c in s) + ('(%s)' % ','.join(r) if r else '')
    t = [one(seq, refs), ','.join(one(*v) for v in pref), (',' + after).join(one(*v) for v in var)]
    while len(t) > 1 and not t[-1] and not fields:
        t.pop()
    return (before + ';' + after).join(t + ['x'] * (fields - 1))


# -- meaning ----------------------------------------------------------------------------------------------------------------------

def meaning(fmt, lines, force):
    refs, entries, version, date = {}, {}, None, None
    for l in lines:
        bad = None
        if l[0] == 'ref':
            refs.setdefault(l[1], (l[2], l[3]))
            continue
        if l[0] == 'ver':
            version, date = (l[1], l[3]), '%s-%s-%s' % (l[2][:4], l[2][4:6], l[2][6:])
            continue
        if l[0] == 'badvar':
            l = l[1]
        if l[0] != 'cp':
            continue
        _, seq, rs, pref, var, _ = l
        if seq not in entries:
            if any(r not in refs for r in rs) and not force:
                continue
            entries[seq] = (tuple(r for r in rs if r in refs), {})
        if fmt == 'line':
            continue
        for t, vs in (('activated', pref), (None, var)):
            for v, vr in vs:
                if v in entries[seq][1] or (any(r not in refs for r in vr) and not force):
                    continue
                entries[seq][1][v] = (t, tuple(r for r in vr if r in refs))
    return refs, entries, version, date


def content(l):
    entries = {}
    for c in l.repertoire:
        vs = [(v.cp, (v.type, tuple(v.references))) for v in c.get_variants()]
        entries[c.cp] = (tuple(c.references), dict(vs))
        if len(dict(vs)) != len(vs) or c.when or c.not_when or c.tags or any(v.when or v.not_when for v in c.get_variants()):
            entries[c.cp] += ('!',)
    refs = {k: (r['value'], r.get('comment') or None) for k, r in l.reference_manager.items()}
    m = l.metadata
    return refs, entries, (m.version.value, m.version.comment) if m.version else None, m.date


def parser_class(fmt):
    from lgr.parser.line_parser import LineParser
    from lgr.parser.rfc3743_parser import RFC3743Parser
    from lgr.parser.rfc4290_parser import RFC4290Parser
    return {'3743': RFC3743Parser, '4290': RFC4290Parser, 'line': LineParser}[fmt]


def guessable(fmt, lines, lay):
    """Does something in the table tell its format?"""
    if fmt == 'line':
        return False
    own = [l for l in lines if l[0] in ('cp', 'badvar') or l[0] == 'bad' and l[1][:1] in 'U0']
    if fmt == '4290':
        return any('|' in (write_cp(fmt, l, lay) if l[0] != 'bad' else l[1]) for l in own)
    return any(not lay[0] or ';' in write_cp(fmt, l, lay) if l[0] != 'bad' else True for l in own)


def run_table(fmt, lines, layi, source, force, guess, st, tmp):
    lay = LAYOUTS[layi]
    case = {'kind': 'table', 'format': fmt, 'lines': lines, 'layout': layi, 'source': source, 'force': force, 'guess': guess}
    if source == 'text' and lay[-1] == '\r':
        lay = lay[:-1] + ('\n',)
    text = write(fmt, lines, lay)
    st.evaluations += 1
    st.trace()
    name = 'table.txt'
    if source == 'path':
        src = os.path.join(tmp, name)
        with open(src, 'wb') as f:
            f.write(text.encode('utf-8'))
    else:
        src = io.StringIO(text) if source == 'text' else io.BytesIO(text.encode('utf-8'))
    if guess:
        if not guessable(fmt, lines, lay):
            return
        from lgr.parser.heuristic_parser import HeuristicParser as cls
    else:
        if source == 'bytes':
            return
        cls = parser_class(fmt)
    p = cls(src, force=force) if source == 'path' else cls(src, filename=name, force=force)
    if guess and len(lines) % 2:
        p.validate_document()
    l = p.parse_document()
    want = meaning(fmt, lines, force if fmt != 'line' else False)
    st.outcome(repr(want))
    got = content(l)
    if guess and type(p.lgr_parser) is not parser_class(fmt):
        st.violation('guess', 'the table %r (%s) is taken for one of %s' % (text, fmt, type(p.lgr_parser).__name__), case)
    elif got != want:
        what = [n for n, a, b in zip(('references', 'entries', 'version', 'date'), got, want) if a != b]
        st.violation('content', 'the %s table %r read from %s (force %s, guessing %s) gives %s %r instead of %r' % (
            fmt, text, source, force, guess, what, [g for g, w in zip(got, want) if g != w], [w for g, w in zip(got, want) if g != w]), case)
    elif l.name != name or list(got[0]) != list(want[0]) and fmt == '3743':
        st.violation('content', 'the table %r gives name %r, references %r' % (text, l.name, list(got[0])), case)


HEADS = ['<?xml version="1.0" encoding="utf-8"?>\n', '', '<?xml version="1.0"?>', '<!-- a comment -->\n', '\n\n', '<!-- U+0061;U+0062\nU+0061|U+0062 -->\n']


def run_xml(head, name, source, validate, st, tmp):
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.xml_parser import XMLParser
    case = {'kind': 'xml', 'head': head, 'name': name, 'source': source, 'validate': validate}
    sp = S.spec([S.char((A,), [S.var((B,), 'blocked')]), S.char((B,)), S.rng(0x430, 0x440)])
    body = S.to_xml(sp)
    body = body[body.index('<lgr'):]
    st.evaluations += 1
    st.step()
    text = HEADS[head] + body
    if head == 5 and not name.endswith('.xml'):
        return
    data = text.encode('utf-8')
    if source == 'path':
        src = os.path.join(tmp, name)
        with open(src, 'wb') as f:
            f.write(data)
        p = HeuristicParser(src)
    else:
        p = HeuristicParser(io.BytesIO(data), filename=name)
    if validate:
        p.validate_document(os.path.join(os.environ.get('LGR_REPO', '/repo'), 'resources', 'lgr.rng'))
    l = p.parse_document()
    st.outcome(repr(sorted(c.cp for c in l.repertoire)))
    l.expand_ranges()
    if type(p.lgr_parser) is not XMLParser or sorted(c.cp for c in l.repertoire) != [(A,), (B,)] + [(c,) for c in range(0x430, 0x441)]:
        st.violation('xml', 'an XML document starting with %r, name %r, is read by %s' % (text[:40], name, type(p.lgr_parser).__name__), case)


def long_tables(fmt):
    """Tables with many references, variants, code points in a sequence, or lines."""
    ids = [str(i) for i in list(range(12)) + [99, 100, 123]]
    decl = [('ref', i, 'reference %s' % i, None) for i in ids]
    cps = list(range(0x4E00, 0x4E00 + 40))
    skips = {'3743': [('skip', ''), ('skip', '# U+0062;U+0061')], '4290': [('skip', ''), ('skip', '# U+0062|U+0061')], 'line': [('skip', ''), ('skip', '# U+0062')]}[fmt]
    for n in range(1, 16):
        some = tuple(ids[:n])
        seq = tuple(cps[:n])
        if fmt == '3743':
            yield decl + [cp([A], some, [((A,), some[::-1])], [((B,), some), ((X,), ())])]
            yield decl + [cp([A], (), [((c,), ()) for c in cps[:n]], [((c,), ()) for c in cps[n:3 * n]])]
            yield decl + [cp(seq, some, [(seq, ())], [(seq[::-1] + (A,), some[-1:])])]
        elif fmt == '4290':
            yield [cp([A], var=[((c,), ()) for c in cps[:2 * n]])]
            yield [cp(seq, var=[(seq[::-1] + (A,), ()), (seq[:1] + (B,), ())])]
        else:
            yield [cp(seq), cp(seq + (A,))]
    for n in (1, 2, 3, 5, 8, 16, 31, 64, 100, 150):
        yield (skips * n)[:n] + [cp([B], var=[] if fmt == 'line' else [((A,), ())])]
        yield [cp([0x4E00 + i], var=[] if fmt == 'line' else [((0x5E00 + i % 7,), ())]) for i in range(n)]
        yield [x for i in range(n) for x in (cp([0x4E00 + i // 2] + [A] * (i % 2), var=[] if fmt == 'line' else [((0x5E00 + i,), ())]), skips[i % 2])]


def shards(tier):
    return [[f, k, 8] for f in MENUS for k in range(8)] + [['xml', 0, 0]] + [['long', f, 0] for f in MENUS]


def run_shard(shard, st):
    kind, k, mod = shard
    q = st.tier == 'quick'
    tmp = tempfile.mkdtemp(prefix='c16-')
    try:
        if kind == 'xml':
            for head, name, source, v in itertools.product(range(len(HEADS)), ('a.xml', 'a.txt', 'lgr'), ('path', 'bytes'), (False, True)):
                run_xml(head, name, source, v, st, tmp)
            return
        if kind == 'long':
            for n, lines in enumerate(long_tables(k)):
                st.state((k, lines))
                st.step()
                for lay, source, force, guess in itertools.product(range(n % 2, len(LAYOUTS), 2), SOURCES, (True, False), (False, True)):
                    run_table(k, lines, lay, source, force, guess, st, tmp)
            return
        menu = MENUS[kind]
        every = list(itertools.product(range(len(LAYOUTS)), SOURCES, (True, False), (False, True)))
        n = 0
        for ln in range(0, 4 if q else 5):
            for lines in itertools.product(menu, repeat=ln):
                n += 1
                if n % mod != k:
                    continue
                st.state((kind, lines))
                st.step()
                ways = every if ln <= 1 else every[n % 5::5] if ln == 2 else every[n // mod % len(every)::len(every) if q or ln == 4 else 40]
                for lay, source, force, guess in ways:
                    run_table(kind, list(lines), lay, source, force, guess, st, tmp)
        st.sample({'shard': shard})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(case, st):
    case = S.from_json(case)
    tmp = tempfile.mkdtemp(prefix='c16-')
    try:
        if case['kind'] == 'xml':
            run_xml(case['head'], case['name'], case['source'], case['validate'], st, tmp)
        else:
            run_table(case['format'], [tup(l) for l in case['lines']], case['layout'], case['source'], case['force'], case['guess'], st, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
