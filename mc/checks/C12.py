# -*- coding: utf-8 -*-
"""
C12 - tags and references stay consistent under every edit.

Every history of accepted edits of length <= depth over an alphabet of edits carrying tags and references (added, forced,
repeated, deleted through every path: code point, range, tag, reference), from several start states; after the last
edit the tag classes, what rules over tags match, the reference list and every entry are compared with the model.
"""
from mc.editmodel import EditModel, op, step, observe_tags_refs, new_real
from mc import lgrspec as S

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = 'a case is one history of edits from one start state; non trivial = distinct (tag members, references, entries)'

A, B, C, D = 0x61, 0x62, 0x63, 0x64
OPS = [
    op('add_cp', A, tag=('t',), ref=('0',)), op('add_cp', (A,), tag=('t', 'x', 'u')), op('add_cp', B, tag=('u',), ref=('0', '1')),
    op('add_cp', (A, B), ref=('1',)), op('add_cp', (A, B), tag=('t',), force=True), op('add_cp', C, ref=('0', '9'), force=True),
    op('add_cp', C, tag=('t', 't'), force=True), op('add_cp', C, ref=(0,), tag=('v',)),
    op('add_range', A, C, tag=('t',), ref=('1',)), op('add_range', A, D, tag=('u', 't'), ref=('0', '0'), force=True),
    op('add_range', C, D, tag=('v',), ref=('7', '1'), force=True),
    op('del_cp', A), op('del_cp', (B,)), op('del_cp', (A, B)), op('del_cp', C), op('del_range', A, C), op('del_range', A, D),
    op('del_range', C, D), op('expand_ranges'), op('expand_range', A, C),
    op('del_tag', 't'), op('del_tag', 'u'), op('del_tag', 'nosuch'),
    op('add_variant', A, B, ref=('1', '0')), op('add_variant', (A, B), (C,), ref=('9', '0'), force=True),
    op('add_variant', A, C, ref=('1', '1'), force=True), op('del_variant', A, B),
    op('add_reference', 'V'), op('add_reference', 'W', comment='c', ref_id='9'), op('add_reference', 'X', ref_id=2),
    op('add_reference', 'Y', ref_id='A-1'), op('del_reference', '0'), op('del_reference', 1), op('del_reference', '9'),
    op('update_reference', '1', value='Z', comment='z'), op('add_codepoints', (A, B, D), tag=('t',), ref=('1',)),
]
STARTS = {
    'refs': [op('add_reference', 'r0'), op('add_reference', 'r1')],
    'tagged': [op('add_reference', 'r0'), op('add_reference', 'r1'), op('add_range', A, C, tag=('t', 'u', 'x'), ref=('0', '1')),
               op('add_cp', (A, B), ref=('0', '1'))],
    'variants': [op('add_reference', 'r0', ref_id='0'), op('add_reference', 'r1', ref_id=1), op('add_cp', A, tag=('t',), ref=('1', '0')),
                 op('add_cp', B, tag=('t',)), op('add_variant', A, B, ref=('1', '0')), op('add_variant', B, A, ref=('1',), when='w')],
    'holes': [op('add_reference', 'r', ref_id='3'), op('add_reference', 'r', ref_id='0'), op('add_reference', 'r', ref_id='1'),
              op('add_reference', 'r', ref_id='9'), op('del_reference', '3'),
              op('add_cp', A, tag=('t',)), op('add_cp', C, tag=('t', 'u')), op('del_cp', A)],
}
BOUNDS = {'quick': 'alphabet of %d, all histories of length <= 3 from %d start states' % (len(OPS), len(STARTS)),
          'thorough': 'length <= 4'}
ASSUMPTIONS = ['generated reference identifiers are only required to be unused decimal numbers']
RULE_T = ('t', [('start',), ('class', ('tag', 't'), None), ('end',)])


class TagModel(EditModel):
    def _add_codepoints(self, cps, **kw):
        """Each maximal run is one range (or one code point)."""
        import itertools
        todo = []
        for _, run in itertools.groupby(enumerate(sorted(cps)), lambda t: t[1] - t[0]):
            run = [c for _, c in run]
            todo.append(('add_cp', ((run[0],),)) if len(run) == 1 else ('add_range', (run[0], run[-1])))
        for name, args in todo:       # a succession of additions, which stops at the first one refused
            reasons, _ = EditModel.apply(self, (name, args, tuple(sorted(kw.items()))))
            if reasons:
                return reasons, Ellipsis
        return set(), Ellipsis


def accepted(start, ops):
    model = TagModel()
    for o in STARTS[start]:
        adopt(model, o)
    return not any(adopt(model, o) for o in ops)


def adopt(model, o):
    """Model only: pick the smallest fresh identifier."""
    reasons, want = model.apply(o)
    if isinstance(want, tuple) and want and want[0] == 'fresh':
        n = 0
        while str(n) in model.refs:
            n += 1
        model.refs[str(n)] = want[1:]
    return reasons


def shards(tier):
    depth = 3 if tier == 'quick' else 4
    return [[s, i, depth] for s in STARTS for i in range(len(OPS))]


def history(start, ops, st):
    model = TagModel()
    lgr = new_real(model)
    case = {'start': start, 'ops': ops}
    for i, o in enumerate(list(STARTS[start]) + list(ops)):
        st.step()
        bad = step(lgr, model, o)
        if bad:
            if i >= len(STARTS[start]) + len(ops) - 1 or i < len(STARTS[start]):
                st.violation('edit:%s' % bad[0], '%s, history %r from %s' % (bad[1], ops, start), case)
            return
    st.trace()
    st.evaluations += 1
    st.state((start, model.key()))
    for kind, text in observe_tags_refs(lgr, model):
        st.violation('tags-refs:%s' % kind, '%s, after %r from %s' % (text, ops, start), case)
        return
    if 't' in model.tag_members():
        members = model.tag_members()['t']
        lgr.unicode_database = S.icu_db()
        rule = S.rule_obj(*RULE_T)
        for c in (A, B, C, D):
            st.evaluations += 1
            got = rule.matches((c,), lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database)
            if got != (c in members):
                st.violation('tags-refs:rule', 'rule over tag t matches %04X: %s, members %r, after %r from %s' % (
                    c, got, sorted(members), ops, start), case)
                return
    st.outcome((sorted((k, sorted(v)) for k, v in model.tag_members().items()), list(model.refs), model.chars()))


def run_shard(shard, st):
    start, i, depth = shard
    level = [(OPS[i],)]
    for n in range(depth):
        nxt = []
        for ops in level:
            history(start, ops, st)
            if n + 1 < depth and accepted(start, ops):
                nxt.extend(ops + (o,) for o in OPS)
        level = nxt
    if i == 0:
        st.sample({'start': start, 'history': [OPS[0], OPS[-1]]})


def replay(case, st):
    history(case['start'], S.from_json(case['ops']), st)
