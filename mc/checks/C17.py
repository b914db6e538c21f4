# -*- coding: utf-8 -*-
"""
C17 - compliance verdicts follow from the recorded results and the policy.

Spaces: every history of recorded results up to a length x every policy (verdict recomputed from the definition of the policy);
every combination of values of the metadata which have a stated requirement; every combination of variant types, references, dispositions and
code points of the data; every order of the entries of a document. Each check of the list must be recorded with its own verdict.
"""
import datetime
import itertools

from mc import lgrspec as S

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = 'a case is one history of results with all policies, or one LGR or document whose compliance is checked; non trivial = distinct verdicts'
LABELS = ['a', 'b', 'c']
EVENTS = [(k, l) for l in LABELS for k in ('error', 'tested')] + [('add', 'a', True), ('add', 'a', False)]
POLICIES = [dict((l, p) for l, p in zip(LABELS, t) if p) for t in itertools.product((None, 'IGNORE', 'WARNING', 'ERROR'), repeat=3)]
PAST, FUTURE = '2001-01-01', '9000-01-01'
DATES = [None, PAST, '2001-01-02', 'today', FUTURE]
TYPES = [(None, True), ('text/plain', True), ('text/html', True), ('text', False), ('foo/bar', False), ('', False)]
SCOPES = [((), True), ((None,), True), (('domain',), True), (('other',), False), (('domain', 'Domain'), False), (('x', None), False)]
VERSIONS = [(None, True), ('1', True), ('10', True), ('0', False), ('01', False), ('1.0', False), ('', False), (None, False), ('-1', False), ('1a', False), ('1\n', False),
            ('1٢', False)]
VTYPES = [(None, True), ('blocked', True), ('a-b', True), ('', False), ('a b', False), ('_x', False), ('x_', True)]
REFS = [((), True), (('0', '1'), True), (('1', '0'), False), (('2', '10'), True), (('10', '2'), False), (('A', '1', '0'), True), (('3', 'A', '1'), True), ((0, 2), True),
        ((2, 1), False), (('1', '1'), False)]
DISPS = [((), True), (('valid',), True), (('invalid', 'blocked', 'allocatable', 'activated', 'valid'), True), (('Valid',), False), (('valid', 'x'), False), (('x', 'valid'), False)]
POINTS = [('none', True), ('char', False), ('range', False), ('variant', False), ('sequence', False), ('onlyrange', True)]
ENTRIES = [(0x61,), (0x61, 0x62), (0x61, 0x62, 0x63), (0x62,), (0x62, 0x61), (0x1F600,), (0xE9,), 'range']
BOUNDS = {'quick': 'histories of <= 4 results with 64 policies; the product of %d start and end dates, %d description types, %d scopes and %d versions; the product of %d variant types, '
                   '%d reference lists at 3 places, %d dispositions, %d kinds of invalid code points; every value of the option with 18 LGRs and 3 earlier results; every sequence of <= 4 of %d entries' % (
                       len(DATES), len(TYPES), len(SCOPES), len(VERSIONS), len(VTYPES), len(REFS), len(DISPS), len(POINTS), len(ENTRIES)),
          'thorough': 'histories of 5 results; sequences of 5 entries'}
ASSUMPTIONS = ['the date does not change during one case', 'the media types known to the standard library']


# -- verdicts -------------------------------------------------------------------------------------------------------------------

def verdict(results, policy):
    if policy is None:
        return 'FAIL' if False in results.values() else 'PASS'
    if any(t not in results for t in policy):
        return 'FAIL'
    failed = [p for t, p in policy.items() if not results[t]]
    return 'FAIL' if 'ERROR' in failed else 'WARN' if 'WARNING' in failed else 'PASS'


def run_results(events, st):
    from lgr.core import LGR
    from lgr.rfc7940 import LGRFormatTestResults
    r = LGRFormatTestResults()
    lgr = LGR('x')
    other = LGR('y')
    results = {}
    case = {'kind': 'results', 'events': events}
    for e in events:
        st.step()
        ok = e[0] == 'tested' or e[0] == 'add' and e[2]
        if e[0] == 'add':
            r.add_test_result(e[1], ok)
            lgr.metadata.rfc7940_checks.add_test_result(e[1], ok)
        else:
            getattr(r, e[0])(e[1])
            getattr(lgr, 'notify_' + e[0])(e[1])
        results[e[1]] = results.get(e[1], True) and ok
    st.trace()
    for p in [None] + POLICIES:
        st.evaluations += 1
        want = verdict(results, p)
        got = r.get_final_result(p)
        text = r.get_final_result(p, verbose=True)
        if got != want or lgr.get_rfc7940_validation(p) != want:
            return st.violation('verdict', 'after %r the policy %r gives %s instead of %s' % (events, p, got, want), case)
        if p is not None and (not text.endswith('Validation result: ' + want) or text.count('NOT EXECUTED') != len(set(p) - set(results)) or
                              text.count(' - NOK') != sum(1 for t in p if results.get(t) is False) or text.count(' - OK') != sum(1 for t in p if results.get(t))):
            return st.violation('report', 'after %r the report of the policy %r is %r' % (events, p, text), case)
    if other.metadata.rfc7940_checks.test_result:
        st.violation('shared', 'the results of an LGR are those of another one', case)
    st.outcome(repr(sorted(results.items())))


# -- metadata --------------------------------------------------------------------------------------------------------------------

def run_metadata(t, st):
    from lgr.core import LGR
    from lgr.metadata import Metadata, Scope, Description, Version
    from lgr.validate.metadata import check_metadata
    start, end, (dtype, dok), (scopes, sok), (version, vok) = t
    today = datetime.date.today().isoformat()
    start, end = [today if d == 'today' else d for d in (start, end)]
    case = {'kind': 'metadata', 'case': t}
    md = Metadata()
    if start:
        md.set_validity_start(start)
    if end:
        md.set_validity_end(end)
    if dtype is not None or vok:
        md.description = Description('text', dtype)
    for s in scopes:
        md.scopes.append(Scope('v', s))
    if version is not None or not vok:
        md.version = Version(version)
    lgr = LGR('x', metadata=md)
    st.step()
    st.evaluations += 1
    st.trace()
    try:
        ok, _ = check_metadata(lgr, {})
    except Exception as e:
        return st.violation('crash', 'checking the metadata %r raises %s: %s' % (t, type(e).__name__, e), case)
    want = {'validity_end_expiry': end is None or today <= end, 'validity_started': start is None or start <= today,
            'validity_start_end': start is None or end is None or start <= end, 'metadata_description_type': dok, 'metadata_scope_type': sok,
            'metadata_version_integer': vok}
    got = lgr.metadata.rfc7940_checks.test_result
    st.outcome(repr(sorted(want.items())))
    if datetime.date.today().isoformat() != today:
        return
    if got != want or ok is not all(want.values()):
        st.violation('metadata', 'metadata %r: %r and %r instead of %r' % (t, ok, {k: v for k, v in got.items() if want.get(k) is not v}, {
            k: v for k, v in want.items() if got.get(k) is not v}), case)


# -- data -------------------------------------------------------------------------------------------------------------------------

def run_data(t, st):
    from lgr.core import LGR
    from lgr.action import Action
    from lgr.metadata import Metadata
    from lgr.validate.miscellaneous import check_miscellaneous
    (vtype, tok), (refs, rok), place, (disps, dok), (point, pok), version = t
    case = {'kind': 'data', 'case': t}
    db = S.icu_db()
    md = Metadata()
    md.unicode_version = db.get_unicode_version() if version else '1.2.3'
    lgr = LGR('x', metadata=md, unicode_database=db, allow_invalid_property=True)
    for i in ('0', '1', '2', '3', '10', 'A'):
        lgr.add_reference('r', ref_id=i)
    lgr.add_range(0x70, 0x72, ref=list(refs) if place == 'range' else [], force=True)
    if point != 'onlyrange':
        lgr.add_cp([0x61], ref=list(refs) if place == 'char' else [], force=True)
        lgr.add_cp([0x62])
        lgr.add_variant([0x61], [0x62], variant_type=vtype, ref=list(refs) if place == 'variant' else [], force=True)
    else:
        tok = True
        rok = rok or place != 'range'
    if point == 'char':
        lgr.add_cp([0x41])
    elif point == 'range':
        lgr.add_range(0x39, 0x3B, force=True)
    elif point == 'variant':
        lgr.add_variant([0x62], [0x42])
    elif point == 'sequence':
        lgr.add_cp([0x62, 0x43])
    for d in disps:
        lgr.add_action(Action(d))
    st.step()
    st.evaluations += 1
    st.trace()
    try:
        ok, _ = check_miscellaneous(lgr, {})
    except Exception as e:
        return st.violation('crash', 'checking the data %r raises %s: %s' % (t, type(e).__name__, e), case)
    want = {'data_variant_type': tok, 'ref_attribute_ascending': rok, 'standard_dispositions': dok}
    if version:
        want.update(valid_unicode_version=True, codepoint_valid=pok)
    got = lgr.metadata.rfc7940_checks.test_result
    st.outcome(repr(sorted(want.items())))
    if got != want or ok is not all(want.values()):
        st.violation('data', 'data %r: %r and %r instead of %r' % (t, ok, got, want), case)


# -- which checks are run ---------------------------------------------------------------------------------------------------------------

def run_options(t, st):
    """The compliance checks are run on request only, and then add their results to those of the others."""
    from lgr.core import LGR
    from lgr.metadata import Metadata
    from lgr.validate import validate_lgr
    from lgr.validate.metadata import check_metadata
    from lgr.validate.miscellaneous import check_miscellaneous
    wanted, before, items, end, disp = t
    case = {'kind': 'options', 'case': t}
    made = []
    for asked in (wanted, None):
        md = Metadata()
        md.set_validity_end(end)
        lgr = LGR('x', metadata=md, unicode_database=S.icu_db())
        for c in items:
            lgr.add_cp([c])
        if disp:
            from lgr.action import Action
            lgr.add_action(Action(disp))
        if before:
            lgr.notify_error(before)
        st.step()
        st.evaluations += 1
        made.append((validate_lgr(lgr, {} if asked is None else {'rfc7940': asked}), dict(lgr.metadata.rfc7940_checks.test_result), lgr))
    st.trace()
    (got, results, lgr), (plain, plain_results, _) = made
    names, plain_names = [n for n, _ in got], [n for n, _ in plain]
    st.outcome(repr((names, sorted(results.items()))))
    if len(set(names)) != len(names) or (set(names) - set(plain_names) if wanted else set(names) ^ set(plain_names)) != ({'check_metadata', 'check_miscellaneous'} if wanted else set()):
        return st.violation('options', 'with option rfc7940=%r the checks are %r, without it %r' % (wanted, names, plain_names), case)
    more = {k for k in results if k not in plain_results}
    if bool(more) != bool(wanted) or any(results[k] != v for k, v in plain_results.items()):
        return st.violation('options-results', 'with option rfc7940=%r the results are %r, without it %r' % (wanted, results, plain_results), case)
    lgr.metadata.rfc7940_checks.test_result.clear()
    check_metadata(lgr, {})
    check_miscellaneous(lgr, {})
    own = dict(lgr.metadata.rfc7940_checks.test_result)
    if wanted and any(results.get(k) != v for k, v in own.items()):
        st.violation('options-own', 'the results %r differ from those of the checks alone, %r' % (results, own), case)


# -- order of a document -------------------------------------------------------------------------------------------------------------

def run_order(seq, st):
    import io
    from lgr.parser.xml_parser import XMLParser
    case = {'kind': 'order', 'seq': seq}
    # an entry given again is refused, and skipped when forcing
    again = len(set(seq)) < len(seq)
    refused = any(e in seq[:i] for i, e in enumerate(seq) if e != 'range')
    data = ''.join('<range first-cp="0070" last-cp="0072"/>' if e == 'range' else '<char cp="%s"/>' % ' '.join('%04X' % c for c in e) for e in seq)
    p = XMLParser(io.BytesIO(('<lgr xmlns="%s"><meta/><data>%s</data></lgr>' % (S.LGR_NS, data)).encode()), 'x', force=again)
    st.step()
    st.evaluations += 1
    st.trace()
    p.parse_document()
    chars = [e for e in seq if e != 'range']
    prefix = other = False
    for a, b in zip(chars, chars[1:]):
        if b <= a:
            if a[:len(b)] == b:
                prefix = True
            else:
                other = True
    got = p.rfc7940_checks.test_result
    want = {'char_ascending_order': not other, 'char_strict_ascending_order': not prefix}
    st.outcome(repr((len(seq), sorted(want.items()))))
    if any(got.get(k) is not v for k, v in want.items()):
        st.violation('order', 'entries %r: %r instead of %r' % (seq, got, want), case)
    if got.get('parse_xml') is refused or got.get('explicit_unicode_version') is not False:
        st.violation('order-other', 'entries %r: %r' % (seq, got), case)


# -- exploration -----------------------------------------------------------------------------------------------------------------------

def space(kind, tier):
    more = tier != 'quick'
    if kind == 'results':
        return (e for k in range(0, 6 if more else 5) for e in itertools.product(EVENTS, repeat=k))
    if kind == 'metadata':
        return itertools.product(DATES, DATES, TYPES, SCOPES, VERSIONS)
    if kind == 'options':
        return itertools.product((None, False, True, 1, 0), (None, 'codepoint_valid', 'a'), ((), (0x61,), (0x61, 0x62)), (PAST, FUTURE), (None, 'valid', 'x'))
    if kind == 'data':
        return itertools.product(VTYPES, REFS, ('char', 'variant', 'range'), DISPS, POINTS, (True, False))
    n = 6 if more else 5
    return itertools.chain((p for k in range(0, n - 1) for p in itertools.product(ENTRIES, repeat=k)),
                           (p for p in itertools.permutations(ENTRIES, n - 1)))


RUN = {'results': run_results, 'metadata': run_metadata, 'data': run_data, 'options': run_options, 'order': run_order}


def shards(tier):
    n = 8 if tier == 'quick' else 32
    return [[kind, k, n] for kind in RUN for k in range(n)]


def run_shard(shard, st):
    kind, k, mod = shard
    for n, c in enumerate(space(kind, st.tier)):
        if n % mod == k:
            st.state((kind, n))
            RUN[kind](c, st)
    if k == 0:
        st.sample({'kind': kind, 'cases': n + 1, 'last': repr(c)})


def replay(case, st):
    case = S.from_json(case)
    RUN[case['kind']](case.get('events', case.get('case', case.get('seq'))), st)
