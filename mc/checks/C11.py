# -*- coding: utf-8 -*-
"""
C11 - a refused edit leaves no trace.

From every state reached by <= depth accepted edits (states deduplicated), every call of a menu which makes each check of
each edit fail - alone and together with others, for the first, a middle or the last code point of what is added - is run
on a fresh copy of the history. The model says whether and why it is refused; a refused call must leave the whole LGR as
it was, an accepted one must have exactly the effect of the model. Three configurations: no Unicode database, IDNA
database, IDNA database with invalid code points allowed.
"""
import itertools

from mc.editmodel import EditModel, op, step, run_real, new_real
from mc import lgrspec as S

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = 'a case is one (configuration, state, call); non trivial = distinct (state, call) refused'

A, B, C, D, Z, BRACE, UP = 0x61, 0x62, 0x63, 0x64, 0x7A, 0x7B, 0x60
SETUP = [op('add_cp', A, tag=('t',), ref=('0',)), op('add_cp', (A, B)), op('add_cp', C), op('add_range', A, C, tag=('u',)),
         op('add_range', B, C, ref=('0',), when='w'), op('add_range', Z - 1, Z), op('add_range', UP, B), op('add_range', Z, BRACE),
         op('add_variant', A, C, variant_type='x', ref=('1',)), op('add_variant', (A, B), (C,), when='w'),
         op('add_rule', 'r1'), op('add_class', 'k1'), op('add_reference', 'n'), op('add_cp', BRACE), op('expand_ranges'), op('del_cp', B)]

VR = [None, 'ab', 'all']


def menu():
    out = []
    targets = [A, (A,), (A, B), (B, C), (), 3.5, None, BRACE, (A, BRACE), (BRACE, A)]
    for t in targets:
        for kw in ({}, {'force': True}, {'when': 'w', 'not_when': 'x'}, {'when': 'w', 'not_when': 'x', 'force': True},
                   {'ref': ('0', '9')}, {'ref': ('9',), 'force': True}, {'ref': ('0', '0')}, {'ref': ('1', '1'), 'force': True},
                   {'tag': ('t', 'v')}, {'tag': ('v', 'v')}, {'tag': ('v', 'v'), 'force': True},
                   {'validating_repertoire': 'ab'}, {'validating_repertoire': 'ab', 'override_repertoire': True},
                   {'validating_repertoire': 'none', 'force': True}, {'validating_repertoire': 'c'},
                   {'tag': ('v',), 'ref': ('0',), 'validating_repertoire': 'c'}):
            out.append(op('add_cp', t, **kw))
    for r in ((A, C), (B, D), (C, Z), (C, A), (B, B), (UP, B), (Z, BRACE), (A, BRACE), (Z - 1, BRACE)):
        for kw in ({}, {'force': True}, {'when': 'w', 'not_when': 'x'}, {'ref': ('0', '9')}, {'ref': ('1', '1')},
                   {'ref': ('1', '9'), 'force': True}, {'tag': ('v', 'v')}, {'tag': ('v',), 'force': True},
                   {'validating_repertoire': 'ab'}, {'validating_repertoire': 'ab', 'override_repertoire': True},
                   {'validating_repertoire': 'none', 'force': True, 'tag': ('v',)},
                   {'validating_repertoire': 'c', 'override_repertoire': True, 'tag': ('v',)}):
            out.append(op('add_range', *r, **kw))
        out += [op('del_range', *r), op('expand_range', *r)]
    for t, v in itertools.product((A, (A, B), C, (C, A), (), None), (C, (A,), (A, C), (), (BRACE,), 2.5)):
        for kw in ({}, {'when': 'w'}, {'when': 'w', 'not_when': 'x'}, {'ref': ('0', '9')}, {'ref': ('0', '0')}):
            out.append(op('add_variant', t, v, **kw))
        out += [op('del_variant', t, v), op('del_variant', t, v, when='w')]
    for kw in ({'when': 'w', 'not_when': 'x', 'force': True}, {'ref': ('0', '9'), 'force': True}, {'validating_repertoire': 'ab'},
               {'validating_repertoire': 'ab', 'override_repertoire': True}, {'validating_repertoire': 'none', 'force': True},
               {'variant_type': 'zz', 'validating_repertoire': 'ab'}):
        out += [op('add_variant', A, (B, C), **kw), op('add_variant', C, (C,), **kw)]
    for t in targets:
        out.append(op('del_cp', t))
    out += [op('add_reference', 'x', ref_id='0'), op('add_reference', 'x', ref_id=0), op('add_reference', 'x', ref_id='abc'),
            op('add_reference', 'x', ref_id='1', comment='q'), op('add_reference', 'x', ref_id='é'), op('add_reference', 'x', ref_id='A-1_.:'),
            op('del_reference', '9'), op('del_reference', 9), op('del_reference', 'abc'), op('del_reference', 0),
            op('update_reference', '9', value='x'), op('update_reference', 0, comment='x'),
            op('add_rule', 'r2', ref='r1'), op('add_rule', 'r2', refclass='k1'), op('add_rule', 'r3', ref='nosuch'),
            op('add_rule', 'r3', refclass='nosuch'), op('add_rule', 'r3', ref='nosuch', force=True),
            op('add_class', 'k2', ref='k1'), op('add_class', 'k3', ref='nosuch'), op('add_class', 'k3', ref='nosuch', force=True)]
    return out


# attributes, by pairs: what is wrong in one must be seen (and only that refused) whatever the others are
DIMS = [('cond', [{}, {'when': 'w'}, {'not_when': 'x'}, {'when': 'w', 'not_when': 'x'}]),
        ('ref', [{}, {'ref': ('0',)}, {'ref': ('1', '0')}, {'ref': ('0', '9')}, {'ref': ('0', '0')}, {'ref': ('0', '1', '0')}]),
        ('tag', [{}, {'tag': ('t',)}, {'tag': ('t', 'v', 'z')}, {'tag': ('v', 'v')}, {'tag': ('v', 't', 'v')}]),
        ('rep', [{}, {'validating_repertoire': 'ab'}, {'validating_repertoire': 'c'}, {'validating_repertoire': 'all'},
                 {'validating_repertoire': 'none', 'override_repertoire': True}]),
        ('comment', [{}, {'comment': 'q'}]), ('type', [{}, {'variant_type': 'zz'}])]


def attributes(names, size):
    dims = [v[1:] for k, v in DIMS if k in names]
    for k in range(size + 1):
        for c in itertools.combinations(dims, k):
            for t in itertools.product(*c):
                kw = {}
                for x in t:
                    kw.update(x)
                for force in ({}, {'force': True}):
                    yield dict(kw, **force)


def menu2(size):
    out = []
    for kw in attributes(('cond', 'ref', 'tag', 'rep', 'comment'), size):
        out += [op('add_cp', t, **kw) for t in (A, (A, B), (BRACE,))]
        out += [op('add_range', *t, **kw) for t in ((A, C), (Z - 1, BRACE), (UP, C), (0x70, 0x71))]
    for kw in attributes(('cond', 'ref', 'rep', 'comment', 'type'), size):
        out += [op('add_variant', a, v, **kw) for a, v in ((A, (B, C)), (A, C), ((A, B), (C,)), (C, BRACE))]
    return out


MENU = menu()
CONFIGS = ['nodb', 'idna', 'allow']
BOUNDS = {'quick': 'states reached by <= 2 edits of %d; menu of %d calls; %d configurations; every pair of attribute values of each kind of addition '
                   '(after <= 1 edit)' % (len(SETUP), len(MENU), len(CONFIGS)),
          'thorough': 'states reached by <= 3 edits; triples of attribute values after <= 2 edits'}
ASSUMPTIONS = ['when several reasons to refuse hold together, any of them may be reported',
               'adding a list of code points is a succession of edits, not one']


def idna_valid(cp):
    return 0x61 <= cp <= 0x7A


def make(config):
    from lgr.core import LGR
    model = EditModel(idna_valid=None if config == 'nodb' else idna_valid, allow_invalid=config == 'allow',
                      repertoires={'ab': {A, B}, 'c': {C}, 'none': set(), 'all': set(range(0x40, 0x80))})
    lgr = new_real(model)
    if config != 'nodb':
        from munidata.database import IDNADatabase
        lgr.unicode_database = IDNADatabase('6.3.0')
    for r in ('r0', 'r1'):
        lgr.add_reference(r)
    model.refs.update({'0': ('r0', None), '1': ('r1', None)})
    return lgr, model


_REPS = {}


def repertoires():
    if not _REPS:
        from lgr.core import LGR
        for name, cps in (('ab', (A, B)), ('c', (C,)), ('none', ()), ('all', range(0x40, 0x80))):
            r = LGR(name)
            for cp in cps:
                r.add_cp(cp)
            _REPS[name] = r
    return _REPS


def states(config, depth):
    """Histories of accepted edits leading to distinct states (breadth first, model only)."""
    _, model = make(config)
    seen = {model.key()}
    level = [((), model)]
    out = [()]
    for _ in range(depth):
        nxt = []
        for h, m in level:
            for o in SETUP:
                m2 = m.clone()
                reasons, want = m2.apply(o)
                if reasons:
                    continue
                if isinstance(want, tuple) and want[0] == 'fresh':
                    n = 0
                    while str(n) in m2.refs:
                        n += 1
                    m2.refs[str(n)] = want[1:]
                if m2.key() in seen:
                    continue
                seen.add(m2.key())
                nxt.append((h + (o,), m2))
                out.append(h + (o,))
        level = nxt
    return out


CHUNK = 8


def shards(tier):
    depth = 2 if tier == 'quick' else 3
    out = []
    for c in CONFIGS:
        n = len(states(c, depth))
        out += [[c, depth, i, i + CHUNK] for i in range(0, n, CHUNK)]
        n = len(states(c, depth - 1))
        out += [[c, 1 - depth, i, i + 1] for i in range(n)]
    return out


def prepare(config, hist, st):
    lgr, model = make(config)
    for o in hist:
        st.step()
        bad = step(lgr, model, o, repertoires())
        if bad:
            st.violation('edit:%s' % bad[0], '%s after %r (%s)' % (bad[1], hist, config), {'config': config, 'history': hist, 'call': None})
            return None, None
    return lgr, model


def full(lgr):
    s = S.snapshot(lgr)
    s['tags'] = tuple(sorted((t, tuple(sorted(map(repr, c.codepoints)))) for t, c in lgr.get_tag_classes().items()))
    s['flag'] = lgr.raise_on_invalid_property
    return s


def effect(lgr, model):
    """What the edits made, in the form of the model."""
    return (S.snapshot_chars(lgr), tuple(sorted(lgr.repertoire.ranges)),
            tuple((k, (v.get('value'), v.get('comment'))) for k, v in lgr.reference_manager.items()),
            tuple(lgr.rules), tuple(lgr.classes), lgr.raise_on_invalid_property)


def effect_model(model, lgr):
    return (model.chars(), model.ranges(), tuple(model.refs.items()), tuple(model.rules), tuple(model.classes),
            not model.allow_invalid)


def run_shard(shard, st):
    config, depth, lo, hi = shard
    for hist in states(config, abs(depth))[lo:hi]:
        one(config, hist, MENU if depth > 0 else menu2(2 if st.tier == 'quick' else 3), st)
    if lo == 0:
        st.sample({'config': config, 'call': MENU[4]})


def one(config, hist, calls, st):
    lgr, model = prepare(config, hist, st)
    if lgr is None:
        return
    st.state((config, model.key()))
    before, key = full(lgr), model.key()
    for call in calls:
        case = {'config': config, 'history': hist, 'call': call}
        trial = model.clone()
        st.evaluations += 1
        st.step()
        refused = bool(trial.clone().apply(call)[0])
        bad = step(lgr, trial, call, repertoires())
        st.trace()
        if bad:
            st.violation('edit:%s:%s' % (call[0], bad[0]), '%s, after %r (%s)' % (bad[1], hist, config), case)
        elif refused:
            st.outcome((config, key, call))
            after = full(lgr)
            if after != before:
                st.violation('trace:%s' % call[0], '%r was refused but changed %r, after %r (%s)' % (
                    call, S.diff_snap(before, after), hist, config), case)
            else:
                continue
        elif effect(lgr, trial) != effect_model(trial, lgr):
            st.violation('effect:%s' % call[0], '%r made %r instead of %r, after %r (%s)' % (
                call, effect(lgr, trial), effect_model(trial, lgr), hist, config), case)
        # the LGR was changed (or may have been): start again from the same history
        lgr, model = prepare(config, hist, st)
        if lgr is None:
            return


def replay(case, st):
    case = S.from_json(case)
    one(case['config'], case['history'], [case['call']] if case['call'] else [], st)
