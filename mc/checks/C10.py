# -*- coding: utf-8 -*-
"""
C10 - the repertoire is exactly what the edits made it.

Every history of edits of length <= depth in which at most the last edit is refused (no merging of equal model states: the
implementation may hide state), from several start states, over an alphabet of colliding single code points, nested sequences, ranges and variants; after its last edit everything the
repertoire shows is compared with the model (a list of entries). Every prefix is itself a history.
"""
from mc.editmodel import EditModel, op, step, observe_repertoire, new_real

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = 'a case is one history of edits from one start state; non trivial = distinct observed repertoires'

# consecutive, across the end of the first plane: their order is neither the one of their hexadecimal forms nor of UTF-16
A, B, C, D, E = range(0xFFFD, 0x10002)
OPS = [
    op('add_cp', A), op('add_cp', (A,), comment='k', when='w'), op('add_cp', B), op('add_cp', C), op('add_cp', (A, B)),
    op('add_cp', (A, C)), op('add_cp', (A, B, C), not_when='w'), op('add_cp', (B, C)),
    op('add_range', A, B, comment='r'), op('add_range', B, D, not_when='v'), op('add_range', A, D, force=True, tag=('t',), when='w'),
    op('add_range', C, C), op('add_range', D, E, not_when='v', tag=('u',)),
    op('del_cp', A), op('del_cp', B), op('del_cp', (C,)), op('del_cp', (A, B)), op('del_cp', (A, C)), op('del_cp', D),
    op('del_range', A, B), op('del_range', B, D), op('del_range', A, D), op('del_range', C, C), op('del_range', B, C),
    op('expand_ranges'), op('expand_range', B, D), op('expand_range', A, D), op('expand_range', B, C),
    op('add_variant', A, B, variant_type='x'), op('add_variant', (A,), (A,)), op('add_variant', (A,), (B,), when='w'),
    op('add_variant', B, (A, C), not_when='w', variant_type='y'), op('add_variant', (A, B), (C,)), op('add_variant', C, (B,)),
    op('del_variant', A, B), op('del_variant', (A,), (B,), when='w'), op('del_variant', (A, B), (C,)), op('del_variant', B, (A, C)),
]
STARTS = {
    'empty': [],
    'range': [op('add_range', A, E, comment='r', tag=('t',))],
    'ranges': [op('add_reference', 'x'), op('add_range', A, B), op('add_range', C, E, when='w', ref=('0',)), op('add_cp', (B, C))],
    'sequences': [op('add_cp', (A, B, C)), op('add_cp', (A, B)), op('add_cp', A), op('add_cp', C), op('add_variant', (A, B), (C,))],
    'variants': [op('add_cp', A), op('add_cp', B), op('add_cp', (A, B)), op('add_variant', A, B, variant_type='x'),
                 op('add_variant', A, A), op('add_variant', A, B, when='w'), op('add_variant', B, (A, C), not_when='w')],
    'mixed': [op('add_cp', C), op('add_range', A, E, force=True), op('add_cp', (D, E)), op('add_variant', C, (D, E))],
    'expanded': [op('add_range', A, D, comment='e', tag=('t',), not_when='v'), op('expand_range', A, D), op('add_variant', B, (A,))],
}
UNIVERSE = [(A,), (B,), (C,), (D,), (E,), (A, B), (A, C), (B, C), (A, B, C), (D, E), (E + 1,)]
LOW = [op('add_char', (A,)), op('add_char', (B,)), op('add_char', (A, B)), op('add_range', A, C), op('add_range', B, D), op('add_range', D, E),
       op('add_range', B, C), op('del_char', (A,)), op('del_char', (B,)), op('del_char', (A, B)), op('del_range', A, C),
       op('del_range', B, D), op('del_range', D, E)]

BOUNDS = {'quick': 'edits of the LGR: alphabet of %d, all histories of length <= 3 from %d start states; edits of the repertoire '
                   'itself: alphabet of %d, all of length <= 4' % (len(OPS), len(STARTS), len(LOW)),
          'thorough': 'length <= 4 from every start state; repertoire: length <= 5'}
ASSUMPTIONS = ['sequences of the same length and first code point may be listed in either order']


def shards(tier):
    depth = 3 if tier == 'quick' else 4
    out = [['lgr', s, i, depth] for s in STARTS for i in range(len(OPS))]
    return out + [['rep', '', i, depth + 1] for i in range(len(LOW))]


def check(lgr, model, st, case):
    st.evaluations += 1
    for kind, text in observe_repertoire(lgr, model, UNIVERSE):
        st.violation('repertoire:%s' % kind, '%s, after %r' % (text, case['ops']), case)
        return
    st.outcome(model.chars())


def history(start, ops, st, final_only=True):
    model = EditModel()
    lgr = new_real(model)
    for o in STARTS[start]:
        bad = step(lgr, model, o)
        if bad:
            st.violation('edit:%s' % bad[0], '%s (start state %s)' % (bad[1], start), {'start': start, 'ops': []})
            return
    case = {'start': start, 'ops': ops}
    last(lgr, model, st, case, ops)


def last(lgr, model, st, case, ops):
    for i, o in enumerate(ops):
        st.step()
        bad = step(lgr, model, o)
        if bad:
            if i == len(ops) - 1:
                st.violation('edit:%s' % bad[0], '%s after %r (start state %s)' % (bad[1], ops[:i], case['start']), case)
            return
    st.state((case['start'], model.key()))
    st.trace()
    check(lgr, model, st, case)


def accepted(start, ops):
    """Whether every edit of the history is accepted (model only)."""
    model = EditModel() if start is not None else LowModel()
    for o in STARTS[start] if start is not None else ():
        model.apply(o)
    return not any(model.apply(o)[0] for o in ops)


def histories(start, first, pool, depth):
    """Histories of length <= depth in which at most the last edit is refused (C11 shows that a refused one leaves no trace)."""
    level = [(first,)]
    for n in range(depth):
        nxt = []
        for ops in level:
            yield ops
            if n + 1 < depth and accepted(start, ops):
                nxt.extend(ops + (o,) for o in pool)
        level = nxt


class LowModel(EditModel):
    """The repertoire on its own."""
    def apply(self, o):
        name, args, kw = o
        if name == 'add_char':
            name = 'add_cp'
        elif name == 'del_char':
            name = 'del_cp'
        if name == 'add_range':
            first, last = args
            if any((c,) in self.entries for c in range(first, last + 1)):
                return {'RangeAlreadyExists', 'CharAlreadyExists'}, Ellipsis
        return EditModel.apply(self, (name, args, kw))


class Holder(object):
    """What run_real and the observation need of an LGR, over a bare repertoire."""
    def __init__(self):
        from lgr.core import LGR
        self.lgr = LGR('x')
        self.repertoire = self.lgr.repertoire

    def __getattr__(self, name):
        if name in ('add_char', 'del_char', 'add_range', 'del_range'):
            return getattr(self.repertoire, name)
        return getattr(self.lgr, name)


def low_history(ops, st):
    last(Holder(), LowModel(), st, {'start': None, 'ops': ops}, ops)


def run_shard(shard, st):
    kind, start, i, depth = shard
    pool = OPS if kind == 'lgr' else LOW
    for ops in histories(start if kind == 'lgr' else None, pool[i], pool, depth):
        if kind == 'lgr':
            history(start, ops, st)
        else:
            low_history(ops, st)
    if i == 0:
        st.sample({'start': start, 'history': [pool[0], pool[-1]]})


def replay(case, st):
    from mc.lgrspec import from_json
    ops = from_json(case['ops'])
    if case['start'] is None:
        low_history(ops, st)
    else:
        history(case['start'], ops, st)
