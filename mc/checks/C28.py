# -*- coding: utf-8 -*-
"""
C28 - code points which IDNA 2008 does not allow are refused at every entry point, and reported exactly; so are scripts.

Spaces: every code point of Unicode with the tables of several versions, through every entry point (code point, sequence, variant,
list, range, check, document); every window of a range crossing a change of property; every sequence up to a length over code
points of every kind, with every list of languages; every LGR of one entry (and of all of them) rebuilt with every target; every
LGR of up to 3 entries for the compliance report. Oracle: the IANA tables read directly, and the scripts written in this file.
"""
import itertools

from mc import lgrspec as S

PROPERTY = 'C28'
LEVEL = 'model_checking'
RULE = 'a case is one code point, range, sequence or LGR with one database; non trivial = distinct results'
ALLOWED = ('PVALID', 'CONTEXTJ', 'CONTEXTO')
VERSIONS = ['6.3.0', '10.0.0', '15.1.0', '5.2.0']
NAMES = ['add_cp', 'tail', 'head', 'variant', 'variant_of', 'has', 'lists']
# code point: (script, IDNA 2008, IDNA 2003)
POINTS = {0x61: ('Latn', 1, 1), 0x62: ('Latn', 1, 1), 0x44F: ('Cyrl', 1, 1), 0x436: ('Cyrl', 1, 1), 0x41: ('Latn', 0, 1), 0x2D: ('Zyyy', 1, 1), 0x301: ('Zinh', 1, 1), 0xB7: ('Zyyy', 1, 1),
          0x3042: ('Hira', 1, 1), 0x30A2: ('Kana', 1, 1), 0x4E00: ('Hani', 1, 1), 0x2665: ('Zyyy', 0, 1), 0x2028: ('Zyyy', 0, 0), 0x3A9: ('Grek', 0, 1)}
LANGS = [((), ()), (('und-Latn',), ('Latn',)), (('ru',), ('Cyrl',)), (('und-Cyrl', 'und-Latn'), ('Cyrl', 'Latn')), (('und-Jpan',), ('Hani', 'Hira', 'Kana')), (('und-Hrkt', 'en'), ('Hira', 'Kana', 'Latn')),
         (('und-Zyyy',), ('Zyyy',)), (('sr',), ())]
REP = (0x61, 0x44F, 0x41, 0x301, 0x2665, (0x61, 0x44F), (0x61, 0x62))
BOUNDS = {'quick': 'every code point with one version each (4 versions in turn) and every boundary of a block of the same property with all; ranges of every width up to 6 around each tenth boundary; sequences of at most 2 of '
                   '%d code points with %d lists of languages; LGRs of one entry with every variant, and of all, 3 targets, 3 repertoires; compliance of every LGR of 2 entries' % (len(POINTS), len(LANGS)),
          'thorough': 'every code point with the 4 versions; every boundary; sequences of at most 3; compliance of every LGR of 3 entries'}
ASSUMPTIONS = ['the tables of munidata are those of IANA', 'a variant outside of the validating repertoire is not reported (the code allows it)']

_T = {}


def tables(v):
    if v not in _T:
        from munidata.database import IDNADatabase
        from munidata.idna.idnatables import IDNA_UNICODE_MAPPING as m
        ok = set()
        for p in ALLOWED:
            ok |= m[v][p]
        _T[v] = (ok, IDNADatabase(v))
    return _T[v]


def new(db, strict=True):
    from lgr.core import LGR
    l = LGR('x', unicode_database=db)
    l.raise_on_invalid_property = strict
    return l


def outcome(f, *a, **k):
    from lgr.exceptions import LGRException
    try:
        return f(*a, **k)
    except LGRException as e:
        return (type(e).__name__, getattr(e, 'cp', None))


def run_window(v, first, last, st, full):
    """Every code point of first..last: one LGR per window and entry point."""
    ok, db = tables(v)
    case = {'kind': 'window', 'version': v, 'first': first, 'last': last, 'full': full}
    cps = list(range(first, last + 1))
    good = [c for c in cps if c in ok]
    wanted = {c: None if c in ok else ('CharInvalidIdnaProperty', c) for c in cps}

    def fail(key, what):
        st.violation(key, 'IDNA tables %s, U+%04X-U+%04X: %s' % (v, first, last, what), case)

    def content(l):
        return sorted(c.cp for c in l.repertoire)
    l = new(db)
    got = {c: outcome(l.add_cp, c) for c in cps}
    st.evaluations += len(cps)
    if got != wanted or content(l) != [(c,) for c in good]:
        fail('add_cp', 'add_cp: %r' % [(hex(c), got[c]) for c in cps if got[c] != wanted[c]][:3])
    got = {c: outcome(l.check_cp, [c]) for c in cps}
    if got != {c: wanted[c] or True for c in cps}:
        fail('check_cp', 'check_cp: %r' % [(hex(c), got[c]) for c in cps if got[c] != (wanted[c] or True)][:3])
    l = new(db, strict=False)
    got = [outcome(l.add_cp, c) for c in cps]
    if any(got) or content(l) != [(c,) for c in cps]:
        fail('lenient', 'code points are refused although the LGR does not check them')
    l = new(db)
    got = [(c, e if e is None else (type(e).__name__, getattr(e, 'cp', None))) for c, e in l.check_range(first, last)]
    if got != sorted(wanted.items()) or len(l.repertoire) or not l.raise_on_invalid_property:
        fail('check_range', 'check_range: %r' % [g for g in got if wanted[g[0]] != g[1]][:3])
    st.outcome(''.join('.x'[c in ok] for c in cps))
    if not full:
        return
    l = new(db)
    l.add_cp(0x31)
    got = {}
    for c in cps:
        if c == 0x31:
            continue
        got[c] = [outcome(l.add_cp, [0x31, c]), outcome(l.add_cp, [c, 0x31]), outcome(l.add_cp, (c, 0x32, c)), outcome(l.add_variant, 0x31, [0x33, c]), outcome(l.add_variant, [c, 0x31], [0x33])]
        if got[c] != [wanted[c]] * 5:
            fail('sequence', 'sequences and variants with U+%04X: %r' % (c, got[c]))
            break
    want = sorted([(0x31,)] + [s for c in good if c != 0x31 for s in ((0x31, c), (c, 0x31), (c, 0x32, c))])
    if sorted({c.cp for c in l.repertoire}) != sorted(set(want)):
        fail('sequence', 'sequences in the LGR are %r' % content(l)[:6])
    one = new(None)
    for c in good[::2]:
        one.add_cp(c)
    rep = set(good[::2])
    l = new(db)
    status = {c: wanted[c] or (None if c in rep else ('NotInRepertoire', c)) for c in cps}
    got = [(c, e if e is None else (type(e).__name__, getattr(e, 'cp', None))) for c, e in l.check_range(first, last, one)]
    if got != sorted(status.items()):
        fail('check_range', 'check_range with a repertoire: %r' % [g for g in got if status[g[0]] != g[1]][:3])
    for strict, force, over in itertools.product((True, False), repeat=3):
        l = new(db, strict)
        r = outcome(l.add_range, first, last, force=force, override_repertoire=over, validating_repertoire=one)
        refusal, kept = None, []
        for c in cps:
            if strict and c not in ok:
                if not force:
                    refusal = wanted[c]
                    break
            elif c in rep or force or over:
                kept.append(c)
            else:
                refusal = ('NotInRepertoire', c)
                break
        kept = [] if refusal else kept
        if l.raise_on_invalid_property != strict or r != refusal or [c.cp[0] for c in expanded(l)] != kept:
            fail('add_range-repertoire', 'add_range (strict %s, forced %s, overriding %s) with a repertoire answers %r and leaves %d code points '
                 'instead of %r, %d; checking: %s' % (strict, force, over, r, len(expanded(l)), refusal, len(kept), l.raise_on_invalid_property))
    for strict, force in itertools.product((True, False), (True, False)):
        l = new(db, strict)
        bad = [c for c in cps if c not in ok]
        r = outcome(l.add_range, first, last, force=force)
        want = ([], ('CharInvalidIdnaProperty', bad[0])) if bad and strict and not force else (good if strict else cps, None)
        if ([c.cp[0] for c in expanded(l)], r) != want:
            fail('add_range', 'add_range (strict %s, forced %s) answers %r and leaves %d code points instead of %r, %d' % (strict, force, r, len(expanded(l)), want[1], len(want[0])))
        if force:
            continue
        l = new(db, strict)
        listed = cps[::2] + cps[1::4]
        bad = [c for c in sorted(listed) if c not in ok]
        r = outcome(l.add_codepoints, listed)
        if strict and bad:
            if not isinstance(r, tuple) or r[0] != 'CharInvalidIdnaProperty' or r[1] not in bad:
                fail('add_codepoints', 'a list with %d code points not allowed gives %r' % (len(bad), r))
        elif r is not None or [c.cp[0] for c in expanded(l)] != sorted(listed):
            fail('add_codepoints', 'a list of allowed code points gives %r' % (r,))
    xml = S.to_xml(S.spec([S.rng(first, last)])) if last > first else S.to_xml(S.spec([S.char((first,))]))
    l, err = parsed(xml, db, False)
    if (err is None) != (len(good) == len(cps)) or (err is None and len(expanded(l)) != len(cps)):
        fail('document', 'a document with the range is %s' % (err or 'accepted'))
    l, err = parsed(xml, db, True)
    if err is not None or [c.cp[0] for c in expanded(l)] != good:
        fail('document', 'forced, a document with the range is %s' % (err or 'read as another one'))


def parsed(xml, db, force):
    from lgr.exceptions import LGRException
    try:
        return S.parse_xml(xml, unidb=db, force=force), None
    except LGRException as e:
        return None, '%s' % type(e).__name__


def expanded(l):
    l.expand_ranges()
    return sorted(l.repertoire, key=lambda c: c.cp)


def boundaries(v):
    ok, _ = tables(v)
    return [c for c in range(1, 0x110000) if (c in ok) != (c - 1 in ok)]


# -- scripts ---------------------------------------------------------------------------------------------------------------------

def run_scripts(li, seq, st):
    langs, scripts = LANGS[li]
    case = {'kind': 'scripts', 'langs': li, 'seq': seq}
    st.evaluations += 1
    l = new(S.icu_db())
    if langs:
        l.metadata.set_languages(list(langs))
    got = l.cp_in_script(list(seq))
    want = (not scripts or all(POINTS[c][0] in scripts + ('Zyyy', 'Zinh') for c in seq), {POINTS[c][0] for c in seq})
    st.outcome((li, repr(got)))
    if got != want:
        st.violation('scripts', 'languages %r, code points %r: %r instead of %r' % (langs, seq, got, want), case)
    bad = [c for c in seq if not POINTS[c][1]]
    r = outcome(l.add_cp, list(seq))
    if r != (('CharInvalidIdnaProperty', bad[0]) if bad else None) or len(l.repertoire) != (not bad):
        st.violation('scripts', 'languages %r: adding %r gives %r' % (langs, seq, r), case)


# -- rebuilding ------------------------------------------------------------------------------------------------------------------

RANGES = [(0x61, 0x62), (0x40, 0x42), (0x436, 0x437), (0x44E, 0x450)]
ENTRIES = [(c,) for c in POINTS if c not in (0x30A2, 0x3042, 0x4E00, 0x2028)] + [(0x61, 0x44F), (0x61, 0x41), (0x62, 0x61), (0x2D, 0x301), (0x61, 0x62), (0x44F, 0x62)]
TARGETS = ['none', 'idna', 'icu']
REPS = [None, 'plain', 'all']


def prop(c):
    """(script, allowed) of any code point of the ranges."""
    if c in POINTS:
        return POINTS[c][:2]
    return ('Latn', 0) if c == 0x42 else ('Zyyy', 0) if c == 0x40 else ('Cyrl', 1)


def run_rebuild(entries, li, target, rep, st):
    """entries: list of (cp or ('range', a, b), variants)."""
    from lgr.validate.rebuild_lgr import rebuild_lgr
    from lgr.char import RangeChar
    langs, scripts = LANGS[li]
    case = {'kind': 'rebuild', 'entries': entries, 'langs': li, 'target': target, 'rep': rep}
    st.evaluations += 1
    st.trace()
    l = new(None)
    if langs:
        l.metadata.set_languages(list(langs))
    for e, vs in entries:
        if e[0] == 'range':
            l.add_range(e[1], e[2])
            continue
        l.add_cp(list(e))
        for v in vs:
            l.add_variant(list(e), list(v))
    l.unicode_database = S.icu_db()
    repertoire = None
    allowed = None
    if rep:
        repertoire = new(None)
        allowed = set(REP)
        for c in REP:
            repertoire.add_cp(c if isinstance(c, int) else list(c))
        if rep == 'all':
            for c in list(POINTS) + [0x42, 0x40, 0x437, 0x44E, 0x450]:
                if c not in allowed:
                    repertoire.add_cp(c)
                    allowed.add(c)
    options = {}
    if repertoire is not None:
        options['validating_repertoire'] = repertoire
    if target != 'none':
        options['unidb'] = S.icu_db() if target == 'icu' else tables('6.3.0')[1]
    if len(entries) % 2:
        options['unicode_version'] = '5.2.0'
    elif len(entries) % 4 == 2:
        options['unicode_version'] = None       # the one of the LGR
    before = S.snapshot(l), S.snapshot(repertoire) if repertoire else None
    ok, res = rebuild_lgr(l, options)
    if before != (S.snapshot(l), S.snapshot(repertoire) if repertoire else None):
        st.violation('rebuild-inputs', 'entries %r: rebuilding changes the LGR or the repertoire' % (entries,), case)
    got = {}
    for char, d in res['repertoire'].items():
        key = ('range', char.first_cp, char.last_cp) if isinstance(char, RangeChar) else char.cp
        got[key] = ([(type(x).__name__, plain(x.cp)) for x in d.get('errors', [])], [(type(x).__name__, plain(x.cp)) for x in d.get('warnings', [])],
                    {v.cp: [type(x).__name__ for x in xs] for v, xs in d.get('variants', {}).items()})

    def foreign(c):
        return bool(scripts) and prop(c)[0] not in scripts + ('Zyyy', 'Zinh')

    def invalid(c):
        return target != 'none' and not prop(c)[1]
    want = {}
    for e, vs in entries:
        errors, warnings, variants = [], [], {}
        if e[0] == 'range':
            for c in range(e[1], e[2] + 1):
                if invalid(c):
                    errors.append(('CharInvalidIdnaProperty', (c,)))
                elif allowed is not None and c not in allowed:
                    errors.append(('NotInRepertoire', (c,)))
                if foreign(c):
                    warnings.append(('CharNotInScript', (c,)))
        else:
            bad = [c for c in e if invalid(c)]
            if bad:
                errors.append(('CharInvalidIdnaProperty', (bad[0],)))
            elif allowed is not None and any(c not in allowed for c in e):
                errors.append(('NotInRepertoire', e))
            if any(map(foreign, e)):
                warnings.append(('CharNotInScript', e))
            for v in vs:
                if bad or any(map(invalid, v)):
                    variants[v] = ['CharInvalidIdnaProperty']
        if errors or warnings or variants:
            want[e] = (errors, warnings, variants)
    st.outcome(repr(want))
    if not ok or got != want:
        st.violation('rebuild', 'entries %r, languages %r, target %s, repertoire %s: reported %r instead of %r' % (entries, langs, target, rep, got, want), case)
    want_version = None if target == 'none' else '6.3.0' if target == 'idna' else S.icu_db().get_unicode_version()
    if res['unidb_version'] != want_version or res['unicode_version'] != (options.get('unicode_version') or l.metadata.unicode_version):
        st.violation('rebuild', 'the report names versions %r, %r' % (res['unidb_version'], res['unicode_version']), case)


def plain(cp):
    return (cp,) if isinstance(cp, int) else tuple(cp)


# -- compliance ------------------------------------------------------------------------------------------------------------------

OUT = [None, 'out-of-repertoire-var', 'Out-Of-Repertoire', 'blocked', 'x-out-of-repertoire']
CENTRIES = [(0x61,), (0x41,), (0x2665,), (0x2028,), (0x61, 0x41), (0x41, 0x2028), (0x44F, 0x62), ('range', 0x61, 0x63), ('range', 0x40, 0x42), (0x3A9,)]
CENTRIES_OOR = [(0x61,), (0x41,), (0x61, 0x2028)]


def run_compliance(entries, strict, st):
    """entries: list of (entry, type of the reflexive variant or None)."""
    from lgr.tools.idna2008_compliance import check_idna2008_compliance
    case = {'kind': 'compliance', 'entries': entries, 'strict': strict}
    st.evaluations += 1
    l = new(None)
    n, want = 0, {}
    for e, t in entries:
        cps = [(c,) for c in range(e[1], e[2] + 1)] if e[0] == 'range' else [e]
        n += len(cps)
        if e[0] == 'range':
            l.add_range(e[1], e[2])
        else:
            l.add_cp(list(e))
            l.add_variant(list(e), [0x39], variant_type='out-of-repertoire')
            if t is not None:
                l.add_variant(list(e), list(e), variant_type=t)
        for c in cps:
            if all(prop(x)[1] for x in c) or (t or '').lower().startswith('out-of-repertoire'):
                continue
            want[c] = all(POINTS[x][2] if x in POINTS else x != 0x40 for x in c)
    l.unicode_database = S.icu_db()
    l.raise_on_invalid_property = strict
    res = check_idna2008_compliance(l)
    got = {d['cp']: d['idna2003_compliant'] for d in res['non_compliant']}
    st.outcome(repr(sorted(want)))
    if got != want or len(res['non_compliant']) != len(want):
        st.violation('compliance', 'entries %r: not compliant are %r instead of %r' % (entries, got, want), case)
    if res['contains_non_compliant'] != bool(want) or res['compliant_nbr'] != n - len(want):
        st.violation('compliance', 'entries %r: %r, %r compliant' % (entries, res['contains_non_compliant'], res['compliant_nbr']), case)
    db = S.icu_db()
    for d in res['non_compliant']:
        t = ''.join(map(chr, d['cp']))
        names = ' '.join(db.get_char_name(c) for c in d['cp'])
        props = ' '.join('PVALID' if prop(c)[1] else 'DISALLOWED' for c in d['cp'])
        if (d['glyph'], d['name'], d['idna_property']) != (t, names, props):
            st.violation('compliance', 'entries %r: %r is described as %r' % (entries, d['cp'], d), case)


# -- driver ----------------------------------------------------------------------------------------------------------------------

W = 64


def shards(tier):
    return [['points', k, 24] for k in range(24)] + [['edges', v, k] for v in range(len(VERSIONS)) for k in range(2)] + [['scripts', k, 0] for k in range(len(LANGS))] + \
        [['rebuild', k, 0] for k in range(len(LANGS))] + [['compliance', k, 0] for k in range(4)]


def run_shard(shard, st):
    kind, k, mod = shard
    q = st.tier == 'quick'
    if kind == 'points':
        for w in range(k, 0x110000 // W, mod):
            for i, v in enumerate(VERSIONS):
                # beyond the third plane everything is unassigned, private or special: one window in eight
                if q and (w % len(VERSIONS) != i or w * W >= 0x32000 and w * W < 0xE0000 and w % 8 or w * W >= 0xE1000 and w % 8):
                    continue
                st.state((v, w))
                st.step(W)
                run_window(v, w * W, w * W + W - 1, st, full=w * W < 0x32000 and (not q or w % 12 == 0))
    elif kind == 'edges':
        v = VERSIONS[k]
        bs = boundaries(v)
        st.count('boundaries', len(bs))
        for n, b in enumerate(bs):
            if n % 2 != mod:
                continue
            st.step()
            st.state((v, 'edge', b))
            run_window(v, b - 1, b, st, full=not q or n % 5 == 0)
            if q and n % 40 > 1:
                continue
            for width in range(1, 7):
                for off in range(0, width):
                    run_window(v, max(0, b - off), max(0, b - off) + width - 1, st, full=True)
    elif kind == 'scripts':
        for ln in (1, 2) if q else (1, 2, 3):
            for seq in itertools.product(sorted(POINTS), repeat=ln):
                st.state((k, seq))
                run_scripts(k, seq, st)
    elif kind == 'rebuild':
        ents = [(e, ()) for e in ENTRIES] + [(('range', a, b), ()) for a, b in RANGES]
        singles = [[e] for e in ents] + [[(e, (v,))] for e in ENTRIES for v in ENTRIES if v != e]
        alls = [[(e, tuple(v for v in ENTRIES if v != e)) for e in ENTRIES], [(e, ()) for e in ENTRIES if len(e) > 1] + ents[-4:]]
        for target in TARGETS:
            for rep in REPS:
                for n, entries in enumerate(singles + alls):
                    if q and len(entries) == 1 and entries[0][1] and (n + k) % 4:
                        continue
                    st.state((k, target, rep, n))
                    st.step()
                    run_rebuild(entries, k, target, rep, st)
    else:
        pool = [(e, None) for e in CENTRIES] + [(e, t) for e in CENTRIES_OOR for t in OUT[1:]]
        n = 0
        for ln in (0, 1, 2) if q else (0, 1, 2, 3):
            for entries in itertools.combinations(pool, ln):
                n += 1
                if n % 4 != k or clash([e for e, _ in entries]):
                    continue
                st.state(('compliance', entries))
                st.step()
                run_compliance(list(entries), n % 3 == 0, st)
    st.sample({'shard': shard})


def clash(es):
    pts = []
    for e in es:
        pts += [(c,) for c in range(e[1], e[2] + 1)] if e[0] == 'range' else [e]
    return len(set(pts)) < len(pts)


def replay(case, st):
    case = S.from_json(case)
    k = case['kind']
    tup = lambda e: tuple(e)
    if k == 'window':
        run_window(case['version'], case['first'], case['last'], st, case['full'])
    elif k == 'scripts':
        run_scripts(case['langs'], tuple(case['seq']), st)
    elif k == 'rebuild':
        run_rebuild([(tuple(e), tuple(tuple(v) for v in vs)) for e, vs in case['entries']], case['langs'], case['target'], case['rep'], st)
    else:
        run_compliance([(tuple(e), t) for e, t in case['entries']], case['strict'], st)
