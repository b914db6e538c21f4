# -*- coding: utf-8 -*-
"""
C13 - metadata and references accept exactly valid values and keep them.

Space: every history of settings (each value of a menu, forced or not) of one Metadata object, and every history of additions
(with or without id), deletions and updates of one ReferenceManager, up to a length, with all observations after each call.
Oracle: a record of the fields; a list of (id, value, comment).
"""
import itertools

from mc import lgrspec as S

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = 'a case is one history of calls on one object; non trivial = distinct final states and refusals'

DATES = [('2020-02-29', True), ('2021-02-29', False), ('2020-1-01', False), ('1999-12-31', True), ('', False), ('20200101', False), ('x', False),
         ('2020-01-01 ', False), ('2020-01-01T00:00:00', False), ('9999-12-31', True), ('2020-13-01', False), ('2020-04-31', False), ('2020-W01-1', False)]
VERSIONS = [('6.3.0', True), ('10.0.0', True), ('6.3', False), ('6.3.0.1', False), ('6.3.0a', False), ('a.b.c', False), ('', False), (' 6.3.0', False), ('6.3.0\n', False)]
# language, validity, scripts
LANGS = [('en', True, ['Latn']), ('und-Arab', True, ['Arab']), ('zh-Hant', True, ['Hani']), ('ja', True, ['Hani', 'Hira', 'Kana']), ('und', True, []), ('ko', True, ['Hani', 'Hang']),
         ('en-Arab', True, ['Arab']), ('xx-bad-tag', False, None), ('', False, None), ('und-Cyrl', True, ['Cyrl']), ('ur-Aran', True, ['Arab']), ('sr', True, []), ('EN', True, ['Latn']), ('ar', True, ['Arab'])]


def meta_ops():
    out = []
    for v, ok in DATES:
        for f in ('date', 'validity_start', 'validity_end'):
            if f == 'date' or v in ('2020-02-29', '2021-02-29', 'x'):
                for force in (False, True):
                    out.append(('set', f, v, ok, force))
    for v, ok in VERSIONS:
        for force in (False, True):
            out.append(('set', 'unicode_version', v, ok, force))
    for l, ok, _ in LANGS:
        for force in ((False, True) if not ok else (False,)):
            out.append(('lang', l, ok, force))
    for ls in ((), ('en',), ('und-Arab', 'en'), ('en', 'xx-bad-tag'), ('zh-Hant', 'ja', 'en'), ('en', 'EN'), ('xx-bad-tag', 'en', 'ar', 'und'), ('en', 'und', 'en', 'xx-bad-tag')):
        for force in (False, True):
            out.append(('langs', ls, all(dict((l, k) for l, k, _ in LANGS).get(l, True) for l in ls), force))
    return out


META = meta_ops()
CORE = [o for o in META if o[0] != 'set' or o[2] in ('2020-02-29', '2021-02-29', '10.0.0', '6.3')]
REFOPS = [('add', v, c, i) for v, c in (('v1', None), ('v2', 'c')) for i in (None, '0', 1, '1', '2', 'A', '-1')][:11] + \
         [('add', 'bad', None, i) for i in ('a', 'A B', '', 'A\n', 'é')] + [('del', i) for i in ('0', 1, '2', 'A', '-1')] + \
         [('update', '0', 'new', None), ('update', 'A', None, 'newc'), ('update', 1, 'n', 'm'), ('update', '9', 'n', None), ('update', 'A', None, '')]
BOUNDS = {'quick': 'metadata: every history of length <= 2 of %d settings and of length 3 of %d; references: every history of length <= 4 of %d calls' % (
              len(META), len(CORE), len(REFOPS)),
          'thorough': 'metadata: length 3 of all the settings; references: length 5'}
ASSUMPTIONS = ['validity of language tags is known for the menu (RFC 5646)']
SCRIPTS = {l: s for l, ok, s in LANGS if ok}


def run_meta(ops, st):
    from lgr.metadata import Metadata
    from lgr.exceptions import LGRFormatException
    md = Metadata()
    model = {'date': None, 'validity_start': None, 'validity_end': None, 'unicode_version': '6.3.0', 'languages': []}
    errors = set()
    case = {'kind': 'meta', 'ops': ops}
    for k, o in enumerate(ops):
        st.step()
        st.evaluations += 1
        ok, force = o[-2:]
        raised = None
        try:
            if o[0] == 'set':
                getattr(md, 'set_' + o[1])(o[2], force=force)
            elif o[0] == 'lang':
                md.add_language(o[1], force=force)
            else:
                # any iterable does
                md.set_languages(iter(o[1]), force=force)
        except LGRFormatException:
            raised = True
        except Exception as e:
            return st.violation('crash', '%r raises %s: %s' % (o, type(e).__name__, e), case)
        if bool(raised) != (not ok and not force):
            return st.violation('accepted' if not raised else 'refused', '%r is %s' % (o, 'refused' if raised else 'accepted'), case)
        if not ok and (o[0] != 'set' or o[1] == 'unicode_version'):
            errors.add('metadata_language' if o[0] != 'set' else 'valid_unicode_version')
        if ok or force:
            if o[0] == 'set':
                model[o[1]] = o[2]
            elif o[0] == 'lang':
                if o[1] not in model['languages']:
                    model['languages'] = model['languages'] + [o[1]]
            else:
                model['languages'] = list(o[1])
        got = {f: getattr(md, f) for f in model}
        got['languages'] = list(got['languages'])
        if got != model:
            return st.violation('state', 'after %r: %r instead of %r' % (ops[:k + 1], got, model), case)
        scripts = [s for l in model['languages'] for s in SCRIPTS.get(l, [])]
        for _ in range(2):
            if list(md.get_scripts()) != scripts:
                return st.violation('scripts', 'after %r the scripts are %r instead of %r' % (ops[:k + 1], md.get_scripts(), scripts), case)
        res = {n for n, v in md.rfc7940_checks.test_result.items() if not v}
        if res != errors:
            return st.violation('recorded', 'after %r the recorded errors are %r instead of %r' % (ops[:k + 1], res, errors), case)
    st.trace()
    st.outcome(repr((sorted(model.items()), sorted(errors))))


def valid_id(i):
    i = str(i)
    return i != '' and all(c in '-_.:0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ' for c in i)


def run_refs(ops, st):
    from lgr.metadata import ReferenceManager
    from lgr.exceptions import LGRException
    mgr = ReferenceManager()
    model = []
    case = {'kind': 'refs', 'ops': ops}
    for k, o in enumerate(ops):
        st.step()
        st.evaluations += 1
        ids = [m[0] for m in model]
        raised = res = None
        try:
            if o[0] == 'add':
                res = mgr.add_reference(o[1], comment=o[2], ref_id=o[3])
            elif o[0] == 'del':
                mgr.del_reference(o[1])
            else:
                mgr.update_reference(o[1], value=o[2], comment=o[3])
        except LGRException as e:
            raised = type(e).__name__
        except Exception as e:
            return st.violation('crash', '%r raises %s: %s' % (o, type(e).__name__, e), case)
        want = None
        if o[0] == 'add':
            if o[3] is None:
                i = 0
                while str(i) in ids:
                    i += 1
                model = model + [(str(i), o[1], o[2])]
            elif str(o[3]) in ids:
                want = 'ReferenceAlreadyExists'
            elif not valid_id(o[3]):
                want = 'ReferenceInvalidId'
            else:
                model = model + [(str(o[3]), o[1], o[2])]
            if want is None and not raised and res != model[-1][0]:
                return st.violation('id', 'after %r the id is %r instead of %r' % (ops[:k + 1], res, model[-1][0]), case)
        elif str(o[1]) not in ids:
            want = 'ReferenceNotDefined'
        elif o[0] == 'del':
            model = [m for m in model if m[0] != str(o[1])]
        else:
            model = [(i, o[2] if i == str(o[1]) and o[2] is not None else v, o[3] if i == str(o[1]) and o[3] is not None else c) for i, v, c in model]
        if raised != want:
            return st.violation('outcome', '%r: %r instead of %r' % (ops[:k + 1], raised, want), case)
        got = [(i, mgr[i].get('value'), mgr[i].get('comment')) for i in mgr]
        if got != model or len(mgr) != len(model):
            return st.violation('refs', 'after %r: %r instead of %r' % (ops[:k + 1], got, model), case)
        for i in ('0', 0, 1, '2', 'A', 9):
            if (i in mgr) != (str(i) in [m[0] for m in model]):
                return st.violation('contains', 'after %r: %r' % (ops[:k + 1], i), case)
    st.trace()
    st.outcome(repr(model))


def shards(tier):
    out = [['meta', 2, k, 8] for k in range(8)] + [['core', 3, k, 24] for k in range(24)] + [['refs', 4, k, 24] for k in range(24)]
    if tier != 'quick':
        out += [['meta', 3, k, 128] for k in range(128)] + [['refs', 5, k, 256] for k in range(256)]
    return out


def run_shard(shard, st):
    kind, ln, k, mod = shard
    ops = {'meta': META, 'core': CORE, 'refs': REFOPS}[kind]
    n = 0
    # a violation in a prefix would be reported by all its extensions: lengths in order, whole prefixes only once
    for h in itertools.product(range(len(ops)), repeat=ln):
        n += 1
        if n % mod != k:
            continue
        st.state((kind, h))
        (run_refs if kind == 'refs' else run_meta)([ops[i] for i in h], st)
        if st.n_violations > 50:
            return
    if k == 0:
        st.sample({'kind': kind, 'length': ln, 'ops': [repr(o) for o in ops[:5]]})


def replay(case, st):
    case = S.from_json(case)
    (run_refs if case['kind'] == 'refs' else run_meta)(case['ops'], st)
