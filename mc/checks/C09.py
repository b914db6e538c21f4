# -*- coding: utf-8 -*-
"""
C09 - evaluation always reflects the LGR as it is now.

Every history of length <= depth over edits of everything evaluation depends on (code points, tags, classes, nested
classes, rules, rule contents, variants, actions, languages), deep copies, pickling round trips and switches between the
original and the copy. After every step the current LGR is evaluated on some labels (so every cache is warm); at the end the current
LGR and every other living copy are compared with LGRs freshly built from the model's content.
"""
import copy
import itertools
import pickle

from lgr.classes import Class
from mc import lgrspec as S

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = 'a case is one history of edits, evaluations and copies; non trivial = distinct evaluation tables'

A, B, C, D = 0x61, 0x62, 0x63, 0x64
SPEC = S.spec(
    [S.char((A,), [S.var((B,), 't1'), S.var((C,), 't2', when='rtag')]), S.char((B,), tags=('t',)), S.char((C,), when='rnest'),
     S.char((A, B), [S.var((C,), 'blocked', not_when='rk')])],
    classes=[('k', ('set', (A,))), ('u', ('union', (('ref', 'k'), ('tag', 't'))))],
    rules=[('rtag', [('class', ('tag', 't'), None)]), ('rk', [('class', ('ref', 'u'), '2')]),
           ('r1', [('start',), ('char', (A,), None)]), ('rnest', [('rule', (('ruleref', 'r1', None), ('any', '0+')), None)]),
           ('ruse', [('ruleref', 'rnest', None)]),
           ('rin', [('choice', (('class', ('set', (A, D)), None), ('char', (C, B), None)), None), ('end',)])],
    actions=[S.action('d1', match='rk'), S.action('d2', not_match='rnest', any=('t1',)), S.action('d3', any=('t2',)), S.action('d5', match='rin')],
    meta={'languages': ('en',)})
LABELS = [(A, B), (D,), (A,), (D, B), (B, A), (A, C)]
WARM = LABELS[:2]

EDITS = ['add_cp', 'del_cp', 'add_range', 'del_range', 'del_tag', 'class', 'class+', 'class-', 'union+', 'rule', 'rule+', 'newrule',
         'inner+', 'choice+', 'variant', 'delvariant', 'action', 'delaction', 'languages', 'newtag']
COPIES = ['deepcopy', 'pickle', 'switch']
OPS = EDITS + COPIES

BOUNDS = {'quick': 'alphabet of %d edits and %d copy steps, all histories of length <= 3, an evaluation after each step' % (len(EDITS), len(COPIES)),
          'thorough': 'length <= 4'}
ASSUMPTIONS = ['a definition given again under the same name replaces the former']


def item(sp, cp):
    return next((i for i in sp['items'] if i.get('cp') == cp), None)


def edit_model(sp, o):
    """:return: False when the edit does not apply to this state."""
    if o == 'add_cp':
        if item(sp, (D,)) or rng(sp):
            return False
        sp['items'].append(S.char((D,), [S.var((B,), 't2')], tags=('t',)))
    elif o == 'newtag':
        if item(sp, (0x7A,)):
            return False
        sp['items'].append(S.char((0x7A,), tags=('fresh', 't')))
    elif o == 'del_cp':
        if not item(sp, (B,)):
            return False
        sp['items'] = [i for i in sp['items'] if i.get('cp') != (B,)]
    elif o == 'add_range':
        if item(sp, (D,)) or rng(sp):
            return False
        sp['items'].append(S.rng(D, D + 3, tags=('t',), when='rtag'))
    elif o == 'del_range':
        if not rng(sp):
            return False
        sp['items'] = [i for i in sp['items'] if 'first' not in i]
    elif o == 'del_tag':
        for n, i in enumerate(sp['items']):
            sp['items'][n] = dict(i, tags=tuple(t for t in i['tags'] if t != 't'))
    elif o in ('class', 'class+', 'class-'):
        cps = dict(sp['classes'])['k'][1]
        new = {'class': (B, C), 'class+': tuple(sorted(set(cps) | {B, D})), 'class-': tuple(c for c in cps if c != A)}[o]
        sp['classes'] = [(n, ('set', new) if n == 'k' else c) for n, c in sp['classes']]
    elif o == 'union+':
        sp['classes'] = [(n, ('union', c[1] + (('set', (C,)),)) if n == 'u' else c) for n, c in sp['classes']]
    elif o == 'rule':
        sp['rules'] = [(n, [('char', (B,), None), ('end',)] if n == 'r1' else r) for n, r in sp['rules']]
    elif o == 'rule+':
        sp['rules'] = [(n, list(r) + [('any', None)] if n == 'r1' else r) for n, r in sp['rules']]
    elif o == 'newrule':
        sp['rules'] = [(n, [('class', ('compl', ('ref', 'k')), None)] if n == 'rtag' else r) for n, r in sp['rules']]
    elif o in ('inner+', 'choice+'):
        ((_, alts, count), end) = dict(sp['rules'])['rin']
        if o == 'inner+':
            (_, (_, cps), n) = alts[0]
            alts = (('class', ('set', tuple(sorted(set(cps) ^ {C}))), n),) + tuple(alts[1:])
        else:
            alts = tuple(alts) + (('char', (B,), None),)
        sp['rules'] = [(n, [('choice', alts, count), end] if n == 'rin' else r) for n, r in sp['rules']]
    elif o == 'variant':
        if not item(sp, (B,)) or item(sp, (B,))['vars']:
            return False
        replace(sp, (B,), vars=[S.var((A, C), 't2', when='rk')])
    elif o == 'delvariant':
        vs = item(sp, (A,))['vars']
        if vs[0]['cp'] != (B,):
            return False
        replace(sp, (A,), vars=vs[1:])
    elif o == 'action':
        sp['actions'] = sp['actions'] + [S.action('d4', match='rtag')]
    elif o == 'delaction':
        if not sp['actions']:
            return False
        sp['actions'] = sp['actions'][1:]
    elif o == 'languages':
        sp['meta'] = {'languages': ('ar',) if sp['meta']['languages'] == ('en',) else ('en',)}
    return True


def rng(sp):
    return next((i for i in sp['items'] if 'first' in i), None)


def replace(sp, cp, **kw):
    sp['items'] = [dict(i, **kw) if i.get('cp') == cp else i for i in sp['items']]


def prebuild():
    """Objects made before anything is evaluated: giving them to the LGR must be enough."""
    sp = {k: list(v) if isinstance(v, list) else v for k, v in SPEC.items()}
    out = {}
    for o, name, sect in (('rule', 'r1', 'rules'), ('newrule', 'rtag', 'rules'), ('class', 'k', 'classes')):
        t = dict(sp)
        edit_model(t, o)
        out[o] = (S.rule_obj if sect == 'rules' else lambda c, n: S.class_obj(n, c))(name, dict(t[sect])[name])
    out['union+'] = S.class_obj(('set', (C,)))
    out['rule+'] = S.node_obj(('any', None))
    out['choice+'] = S.node_obj(('char', (B,), None))
    out['action'] = S.action_obj(S.action('d4', match='rtag'))
    return out


def inner_class(rule):
    """The class which the first alternative of the rule holds."""
    first = next(iter(next(iter(rule.children)).iter_children()))
    return next(v for v in vars(first).values() if isinstance(v, Class))


def edit_real(lgr, o, before, after, ready=None):
    ready = ready if ready is not None else {}
    if o in ('add_cp', 'add_range', 'newtag'):
        S.add_item(lgr, after['items'][-1])
    elif o == 'del_cp':
        lgr.del_cp((B,))
    elif o == 'del_range':
        r = rng(before)
        lgr.del_range(r['first'], r['last'])
    elif o == 'del_tag':
        lgr.del_tag('t')
    elif o == 'class':
        lgr.add_class(ready.pop(o, None) or S.class_obj(dict(after['classes'])['k'], 'k'))
    elif o == 'class+':
        lgr.classes_lookup['k'].add_codepoint(B)
        lgr.classes_lookup['k'].add_codepoint([B, D])
    elif o == 'class-':
        lgr.classes_lookup['k'].del_codepoint(A)
    elif o == 'union+':
        lgr.classes_lookup['u'].add_child(ready.pop(o, None) or S.class_obj(('set', (C,))))
    elif o == 'rule':
        lgr.add_rule(ready.pop(o, None) or S.rule_obj('r1', dict(after['rules'])['r1']))
    elif o == 'newrule':
        lgr.add_rule(ready.pop(o, None) or S.rule_obj('rtag', dict(after['rules'])['rtag']))
    elif o == 'rule+':
        lgr.rules_lookup['r1'].add_child(ready.pop(o, None) or S.node_obj(('any', None)))
    elif o == 'inner+':
        cls = inner_class(lgr.rules_lookup['rin'])
        (cls.del_codepoint if C in cls.codepoints else cls.add_codepoint)(C)
    elif o == 'choice+':
        next(iter(lgr.rules_lookup['rin'].children)).add_child(ready.pop(o, None) or S.node_obj(('char', (B,), None)))
    elif o == 'variant':
        S.add_var(lgr, (B,), item(after, (B,))['vars'][0])
    elif o == 'delvariant':
        lgr.del_variant((A,), (B,))
    elif o == 'action':
        lgr.add_action(ready.pop(o, None) or S.action_obj(after['actions'][-1]))
    elif o == 'delaction':
        del lgr.actions[0]
    elif o == 'languages':
        lgr.metadata.set_languages(list(after['meta']['languages']))


def evaluate(lgr, labels=LABELS):
    """Everything evaluation tells of the labels."""
    out = []
    for label in labels:
        res = lgr.test_label_eligible(label, collect_log=False)
        row = [res[0], tuple(res[1]), tuple((c, None if r is None else tuple(r)) for c, r in res[2]), res[3], res[4]]
        if res[0]:
            row.append(sorted((tuple(v[0]), v[1], v[3], sorted(map(str, v[4])))
                              for v in lgr.compute_label_disposition(label, include_invalid=True, collect_log=False)))
            row.append(lgr.generate_index_label(label))
            row.append(lgr.estimate_variant_number(label))
        out.append(row)
        for name in sorted(lgr.rules_lookup):
            out.append(lgr.rules_lookup[name].matches(label, lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database))
    out.append([lgr.cp_in_script([cp])[0] for cp in (A, 0x5D0, 0x644)])
    return repr(out)


_FRESH = {}


def fresh(sp):
    key = repr(sp)
    if key not in _FRESH:
        if len(_FRESH) > 20000:
            _FRESH.clear()
        _FRESH[key] = evaluate(S.build(sp, unidb=S.icu_db()))
    return _FRESH[key]


def shards(tier):
    depth = 3 if tier == 'quick' else 4
    return [[depth, i, j] for i in range(len(OPS)) for j in range(len(OPS))]


def history(ops, st):
    db = S.icu_db()
    others = []
    sp = {k: (list(v) if isinstance(v, list) else v) for k, v in SPEC.items()}
    lgr = S.build(sp, unidb=db)
    ready = prebuild()
    evaluate(lgr, WARM)
    case = {'ops': ops}
    for n, o in enumerate(ops):
        st.step()
        if o in ('deepcopy', 'pickle'):
            if o == 'deepcopy':
                new = copy.deepcopy(lgr, {id(db): db})          # the database is shared, not part of the content
            else:
                new = pickle.loads(pickle.dumps(lgr))
            new.unicode_database = db
            others.append((lgr, sp))
            lgr, sp = new, dict(sp)
        elif o == 'switch':
            if not others:
                return False
            others.append((lgr, sp))
            lgr, sp = others.pop(0)
        else:
            before = sp
            sp = dict(sp, items=list(sp['items']))
            if not edit_model(sp, o):
                return False
            edit_real(lgr, o, before, sp, ready)
        evaluate(lgr, WARM)
        if n < len(ops) - 1:
            continue
        st.trace()
        st.state((repr(sp), [repr(s) for _, s in others]))
        for who, (l, s) in [('the LGR', (lgr, sp))] + [('the other copy', x) for x in others]:
            st.evaluations += 1
            got = evaluate(l)
            want = fresh(s)
            st.outcome(got)
            if got != want:
                st.violation('stale:%s' % ops[-1], 'after %r (evaluated after each step) %s answers %s; built afresh with the same '
                             'content: %s' % (ops, who, *difference(got, want)), case)
    return True


def difference(a, b):
    a, b = eval(a), eval(b)
    d = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y]
    return repr([x for x, _ in d])[:400], repr([y for _, y in d])[:400]


def run_shard(shard, st):
    depth, i, j = shard
    if j == 0:
        history((OPS[i],), st)
        st.sample({'history': [OPS[i]]})
    level = [(OPS[i], OPS[j])]
    for n in range(2, depth + 1):
        nxt = []
        for ops in level:
            if history(ops, st) and n < depth:
                nxt.extend(ops + (o,) for o in OPS)
        level = nxt


def replay(case, st):
    history(tuple(case['ops']), st)
