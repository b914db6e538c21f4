# -*- coding: utf-8 -*-
"""
Reference model of an LGR (RFC 7940 semantics as documented by the repository), written for clarity only.
Never imports the code under test.
"""
DEFAULT_ACTIONS = [
    {'disp': 'invalid', 'match': None, 'not_match': None, 'any': ('invalid',), 'all': (), 'only': ()},
    {'disp': 'blocked', 'match': None, 'not_match': None, 'any': ('blocked',), 'all': (), 'only': ()},
    {'disp': 'allocatable', 'match': None, 'not_match': None, 'any': ('allocatable',), 'all': (), 'only': ()},
    {'disp': 'activated', 'match': None, 'not_match': None, 'any': (), 'all': ('activated',), 'only': ()},
    {'disp': 'valid', 'match': None, 'not_match': None, 'any': (), 'all': (), 'only': ()},
]


def count_bounds(count):
    """-> (min, max) with max None for unbounded."""
    if count is None:
        return 1, 1
    if ':' in count:
        lo, hi = count.split(':')
        return int(lo), int(hi)
    if count.endswith('+'):
        return int(count[:-1]), None
    return int(count), int(count)


class Entry(object):
    __slots__ = ('cp', 'vars', 'when', 'not_when', 'tags', 'refs', 'comment', 'range')

    def __init__(self, cp, vars, when, not_when, tags, refs, comment, range_=None):
        self.cp, self.vars, self.when, self.not_when = cp, vars, when, not_when
        self.tags, self.refs, self.comment, self.range = tags, refs, comment, range_


class Model(object):
    def __init__(self, sp, prop=None):
        """:param prop: function (name, value, cp) -> bool for property based classes."""
        self.rules = dict(sp['rules'])
        self.classes = dict(sp['classes'])
        self.actions = list(sp['actions'])
        self.prop = prop
        self.entries = {}
        for it in sp['items']:
            if 'first' in it:
                for cp in range(it['first'], it['last'] + 1):
                    self._add(Entry((cp,), [], it['when'], it['not_when'], it['tags'], it['refs'], it['comment'],
                                    (it['first'], it['last'])))
            else:
                self._add(Entry(it['cp'], it['vars'], it['when'], it['not_when'], it['tags'], it['refs'],
                                it['comment']))
        self._mcache = {}

    def _add(self, e):
        assert e.cp not in self.entries, 'spec defines %r twice' % (e.cp,)
        self.entries[e.cp] = e

    # -- classes ---------------------------------------------------------------------------
    def in_class(self, c, cp):
        k = c[0]
        if k in ('set', 'raw'):
            return cp in c[1]
        if k == 'tag':
            return any(len(e.cp) == 1 and e.cp[0] == cp and c[1] in e.tags for e in self.entries.values())
        if k == 'ref':
            return self.in_class(self.classes[c[1]], cp)
        if k == 'prop':
            return self.prop(c[1], c[2], cp)
        if k == 'union':
            return any(self.in_class(x, cp) for x in c[1])
        if k == 'inter':
            return self.in_class(c[1], cp) and self.in_class(c[2], cp)
        if k == 'diff':
            return self.in_class(c[1], cp) and not self.in_class(c[2], cp)
        if k == 'symdiff':
            return self.in_class(c[1], cp) != self.in_class(c[2], cp)
        if k == 'compl':
            return not self.in_class(c[1], cp)
        raise AssertionError(k)

    # -- rules: set of end positions -------------------------------------------------------
    def ends(self, n, label, pos, anchor):
        """Set of positions where a match of node n that starts at pos can end."""
        k = n[0]
        if k == 'start':
            return {pos} if pos == 0 else set()
        if k == 'end':
            return {pos} if pos == len(label) else set()
        if k == 'anchor':
            a, idx = anchor
            return {pos + len(a)} if label[pos:pos + len(a)] == a else set()
        if k == 'ahead':
            return {pos} if self.seq_ends(n[1], label, pos, anchor) else set()
        if k == 'behind':
            return {pos} if any(pos in self.seq_ends(n[1], label, s, anchor) for s in range(pos + 1)) else set()
        if k == 'any':
            one = lambda p: {p + 1} if p < len(label) else set()
            return self.repeat(one, pos, n[1], len(label))
        if k == 'char':
            one = lambda p: {p + len(n[1])} if label[p:p + len(n[1])] == tuple(n[1]) else set()
            return self.repeat(one, pos, n[2], len(label))
        if k == 'class':
            one = lambda p: {p + 1} if p < len(label) and self.in_class(n[1], label[p]) else set()
            return self.repeat(one, pos, n[2], len(label))
        if k == 'choice':
            def one(p):
                out = set()
                for x in n[1]:
                    out |= self.ends(x, label, p, anchor)
                return out
            return self.repeat(one, pos, n[2], len(label))
        if k == 'rule':
            return self.repeat(lambda p: self.seq_ends(n[1], label, p, anchor), pos, n[2], len(label))
        if k == 'ruleref':
            return self.repeat(lambda p: self.seq_ends(self.rules[n[1]], label, p, anchor), pos, n[2], len(label))
        raise AssertionError(k)

    @staticmethod
    def repeat(one, pos, count, n):
        lo, hi = count_bounds(count)
        cur, out = {pos}, set()
        if lo == 0:
            out.add(pos)
        i = 0
        seen = set()
        while cur and (hi is None or i < hi):
            nxt = set()
            for p in cur:
                nxt |= one(p)
            i += 1
            cur = nxt
            if i >= lo:
                if hi is None:
                    key = frozenset(cur)
                    if key in seen:
                        break
                    seen.add(key)
                out |= cur
        return out

    def seq_ends(self, nodes, label, pos, anchor):
        cur = {pos}
        for n in nodes:
            nxt = set()
            for p in cur:
                nxt |= self.ends(n, label, p, anchor)
            cur = nxt
            if not cur:
                break
        return cur

    def has_anchor(self, nodes, seen=()):
        for n in nodes:
            if n[0] == 'anchor':
                return True
            if n[0] in ('ahead', 'behind', 'choice', 'rule') and self.has_anchor(n[1], seen):
                return True
            if n[0] == 'ruleref' and n[1] not in seen and self.has_anchor(self.rules[n[1]], seen + (n[1],)):
                return True
        return False

    def rule_matches(self, name, label, anchor=None, index=0):
        """
        A rule without anchor matches when some part of the label matches it; a rule with an anchor matches
        when it does so at the position of the anchored code point(s). A rule without content matches nothing.
        """
        key = (name, label, anchor, index)
        if key in self._mcache:
            return self._mcache[key]
        nodes = self.rules[name]
        if not nodes:
            res = False
        elif anchor is not None and self.has_anchor(nodes):
            res = bool(self.seq_ends(nodes, label, index, (anchor, index)))
        else:
            res = any(self.seq_ends(nodes, label, s, None) for s in range(len(label) + 1))
        self._mcache[key] = res
        return res

    def context_ok(self, when, not_when, label, cp, index):
        if when is not None:
            return self.rule_matches(when, label, cp, index)
        if not_when is not None:
            return not self.rule_matches(not_when, label, cp, index)
        return True

    # -- eligibility -----------------------------------------------------------------------
    def starting_with(self, label, i):
        """Entries which are a prefix of label[i:], longest first."""
        return sorted((e for e in self.entries.values() if label[i:i + len(e.cp)] == e.cp),
                      key=lambda e: -len(e.cp))

    def read(self, label):
        """-> (ok, parts, invalid_parts, entries, model steps)"""
        i, parts, invalid, used, steps = 0, [], [], [], 0
        while i < len(label):
            steps += 1
            failing = []
            for e in self.starting_with(label, i):
                if self.context_ok(e.when, e.not_when, label, e.cp, i):
                    parts.extend(e.cp)
                    used.append(e.cp)
                    i += len(e.cp)
                    break
                failing.append(e.when or e.not_when)
            else:
                invalid.append((label[i], failing or None))
                i += 1
        return not invalid, parts, invalid, used, steps

    def apply_actions(self, label, types, only):
        for i, a in enumerate(self.actions + DEFAULT_ACTIONS):
            if a['match'] is not None and not self.rule_matches(a['match'], label):
                continue
            if a['not_match'] is not None and self.rule_matches(a['not_match'], label):
                continue
            if a['any'] and not (set(a['any']) & types):
                continue
            if a['all'] and not (types and types <= set(a['all'])):
                continue
            if a['only'] and not (only and types and types <= set(a['only'])):
                continue
            return a['disp'], i
        raise AssertionError('the last default action is a catch-all')

    def own_types(self, label):
        """Types of the reflexive mappings valid somewhere in the label, and whether everything is mapped."""
        types, only = set(), True
        for i in range(len(label)):
            for e in self.starting_with(label, i):
                if not self.context_ok(e.when, e.not_when, label, e.cp, i):
                    continue
                mapped = False
                for v in e.vars:
                    if v['cp'] == e.cp and self.context_ok(v['when'], v['not_when'], label, v['cp'], i):
                        types.add(v['type'])
                        mapped = True
                only = only and mapped
        return types, (only if types else False)

    def eligible(self, label, is_variant=False):
        """-> (eligible, parts, invalid parts, disposition, action index, entries)"""
        ok, parts, invalid, used, _ = self.read(label)
        if not ok:
            return False, parts, invalid, 'invalid', -1, used
        types, only = (set(), False) if is_variant else self.own_types(label)
        disp, idx = self.apply_actions(label, types, only)
        if disp == 'invalid':
            return False, [], [], disp, idx, used
        return True, list(label), [], disp, idx, used

    # -- variants --------------------------------------------------------------------------
    def derivations(self, label, strict):
        """
        All ways of rewriting the label: split it into listed entries and replace each entry by itself or by one of
        its variants, left to right; the condition of a variant is evaluated in the label made of what was already
        produced on the left, the variant, and what is left of the original on the right. An entry with valid
        reflexive mappings is kept through them only.

        :param strict: if True, an entry is only used where its own condition holds in the label made of what was
                       already produced on the left and of what is left of the original (every condition of the
                       permutation is satisfied); if False, the conditions of the entries themselves are ignored
                       (they are those of the original label). What is not ambiguous lies between the two.
        -> set of (produced label, frozenset of types, only mapped?, has a mapping?, tuple of pieces)
        """
        out = set()
        n_steps = [0]

        def rec(i, prefix, types, only, mapped, pieces):
            n_steps[0] += 1
            if i == len(label):
                out.add((prefix, types, only, mapped, pieces))
                return
            for e in self.starting_with(label, i):
                rest = label[i + len(e.cp):]
                if strict and not self.context_ok(e.when, e.not_when, prefix + e.cp + rest, e.cp, len(prefix)):
                    continue
                reflexive = False
                for v in e.vars:
                    vl = prefix + v['cp'] + rest
                    if not self.context_ok(v['when'], v['not_when'], vl, v['cp'], len(prefix)):
                        continue
                    if v['cp'] == e.cp:
                        reflexive = True
                    t = types if v['type'] is None else types | {v['type']}
                    rec(i + len(e.cp), prefix + v['cp'], t, only, True, pieces + (v['cp'],))
                if not reflexive:
                    rec(i + len(e.cp), prefix + e.cp, types, False, mapped, pieces + (e.cp,))

        rec(0, (), frozenset(), True, False, ())
        self.last_steps = n_steps[0]
        return out

    # -- index labels ----------------------------------------------------------------------
    def partitions(self, label, i=0):
        """All splits of the label into listed entries whose own conditions hold in the label."""
        if i == len(label):
            return [()]
        out = []
        for e in self.starting_with(label, i):
            if self.context_ok(e.when, e.not_when, label, e.cp, i):
                out.extend([(e,) + p for p in self.partitions(label, i + len(e.cp))])
        return out

    def index_label(self, label):
        """Smallest, over the partitions, of the labels made of the smallest applicable variant of each part."""
        best = None
        for p in self.partitions(label):
            i, out = 0, ()
            for e in p:
                cands = [e.cp]
                for v in e.vars:
                    vl = label[:i] + v['cp'] + label[i + len(e.cp):]
                    if self.context_ok(v['when'], v['not_when'], vl, v['cp'], i):
                        cands.append(v['cp'])
                out += min(cands)
                i += len(e.cp)
            if best is None or out < best:
                best = out
        return best
