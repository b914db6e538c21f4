# -*- coding: utf-8 -*-
"""
Reference model of editing an LGR: a plain list of entries, references and named rules/classes, and for every edit call
the set of reasons for which it must be refused (empty: accepted) and its effect.

An op is a tuple (name, args tuple, kwargs as tuple of pairs) and is run as-is on the real LGR.
"""
import copy
import itertools

REF_RE_OK = set('-_.:0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ')


def op(name, *args, **kw):
    return (name, args, tuple(sorted(kw.items())))


class Entry(object):
    __slots__ = ('cp', 'range', 'tags', 'refs', 'when', 'not_when', 'comment', 'vars')

    def __init__(self, cp, range=None, tags=(), refs=(), when=None, not_when=None, comment=None, vars=()):
        self.cp, self.range, self.tags, self.refs = cp, range, list(tags), list(refs)
        self.when, self.not_when, self.comment, self.vars = when, not_when, comment, list(vars)

    def clone(self):
        return Entry(self.cp, self.range, self.tags, self.refs, self.when, self.not_when, self.comment,
                     [dict(v, refs=list(v['refs'])) for v in self.vars])


class EditModel(object):

    def __init__(self, idna_valid=None, allow_invalid=False, repertoires=None, undefined_ok=False):
        self.entries = {}
        self.refs = {}                      # id -> (value, comment), insertion order
        self.idna_valid = idna_valid        # None: no Unicode database
        self.allow_invalid = allow_invalid
        self.repertoires = repertoires or {}    # name -> set of code points
        self.rules = []
        self.classes = []

    def clone(self):
        m = EditModel(self.idna_valid, self.allow_invalid, self.repertoires)
        m.entries = {k: e.clone() for k, e in self.entries.items()}
        m.refs = dict(self.refs)
        m.rules, m.classes = list(self.rules), list(self.classes)
        return m

    # -- observation ----------------------------------------------------------------------
    def chars(self):
        out = []
        for e in self.entries.values():
            out.append((e.cp, e.range, e.when, e.not_when, tuple(e.tags), tuple(map(str, e.refs)), e.comment,
                        tuple(sorted((v['cp'], str(v['type']), str(v['when']), str(v['not_when']), str(v['comment']),
                                      tuple(map(str, v['refs']))) for v in e.vars))))
        return tuple(sorted(out, key=repr))

    def ranges(self):
        return tuple(sorted({e.range for e in self.entries.values() if e.range}))

    def tag_members(self):
        out = {}
        for e in self.entries.values():
            if len(e.cp) == 1:
                for t in e.tags:
                    out.setdefault(t, set()).add(e.cp[0])
        return out

    def key(self):
        return (self.chars(), tuple(self.refs.items()), tuple(self.rules), tuple(self.classes))

    # -- checks ---------------------------------------------------------------------------
    def _cps(self, x, reasons):
        if isinstance(x, int):
            x = (x,)
        elif not hasattr(x, '__len__') or len(x) == 0:
            reasons.add('LGRApiInvalidParameter')
            return ()
        elif isinstance(x, dict):
            reasons.add('LGRApiInvalidParameter')
            return ()
        x = tuple(x)
        if self.idna_valid is not None and not self.allow_invalid and not all(self.idna_valid(c) for c in x):
            reasons.add('CharInvalidIdnaProperty')
        return x

    def _refs(self, kw, reasons):
        out = []
        for r in kw.get('ref') or []:
            if str(r) in self.refs:
                out.append(r)
            elif not kw.get('force'):
                reasons.add('ReferenceNotDefined')
        if len(set(out)) != len(out) and not kw.get('force'):
            reasons.add('DuplicateReference')
        return out

    def _tags(self, kw, reasons):
        tags = list(kw.get('tag') or [])
        if len(set(tags)) != len(tags) and not kw.get('force'):
            reasons.add('LGRFormatException')
        return tags

    def _repertoire(self, cps, kw, reasons):
        vr = kw.get('validating_repertoire')
        if vr is not None and not kw.get('override_repertoire') and not kw.get('force'):
            if not all(c in self.repertoires[vr] for c in cps):
                reasons.add('NotInRepertoire')

    def apply(self, o):
        """
        :return: (reasons to refuse, result): state changed only if there is no reason. Result is a value to compare, or
                 Ellipsis when left open.
        """
        name, args, kw = o
        return getattr(self, '_' + name)(*args, **dict(kw))

    def _add_cp(self, cp, **kw):
        reasons = set()
        cps = self._cps(cp, reasons)
        if kw.get('when') is not None and kw.get('not_when') is not None and not kw.get('force'):
            reasons.add('CharInvalidContextRule')
        self._repertoire(cps, kw, reasons)
        refs = self._refs(kw, reasons)
        tags = self._tags(kw, reasons)
        if len(cps) > 1 and tags and not kw.get('force'):
            reasons.add('LGRFormatException')
        if cps in self.entries:
            reasons.add('CharAlreadyExists')
        if not reasons:
            self.entries[cps] = Entry(cps, None, tags, refs, kw.get('when'), kw.get('not_when'), kw.get('comment'))
        return reasons, Ellipsis

    def _add_range(self, first, last, **kw):
        reasons = set()
        force = kw.get('force')
        if first > last:
            return {'LGRApiInvalidParameter'}, Ellipsis
        if kw.get('when') is not None and kw.get('not_when') is not None and not force:
            reasons.add('RangeInvalidContextRule')
        keep = []
        for c in range(first, last + 1):
            bad = set()
            if self.idna_valid is not None and not self.idna_valid(c) and not self.allow_invalid:
                bad.add('CharInvalidIdnaProperty')
            if kw.get('validating_repertoire') is not None and not kw.get('override_repertoire') and not force \
                    and c not in self.repertoires[kw['validating_repertoire']]:
                bad.add('NotInRepertoire')
            if (c,) in self.entries:
                bad.add('CharAlreadyExists')
            if not bad:
                keep.append(c)
            if not force:
                reasons |= bad
        refs = self._refs(kw, reasons)
        tags = self._tags(kw, reasons)
        if not reasons:
            for _, run in itertools.groupby(enumerate(keep), lambda t: t[1] - t[0]):
                run = [c for _, c in run]
                for c in run:
                    self.entries[(c,)] = Entry((c,), (run[0], run[-1]) if len(run) > 1 else None, tags, refs,
                                               kw.get('when'), kw.get('not_when'), kw.get('comment'))
        return reasons, Ellipsis

    def _del_cp(self, cp):
        reasons = set()
        cps = self._cps(cp, reasons)
        if not reasons or reasons == {'CharInvalidIdnaProperty'}:
            if cps not in self.entries:
                reasons.add('NotInLGR')
        if not reasons:
            e = self.entries.pop(cps)
            if e.range:
                first, last = e.range
                for lo, hi in ((first, cps[0] - 1), (cps[0] + 1, last)):
                    for c in range(lo, hi + 1):
                        self.entries[(c,)].range = (lo, hi) if lo < hi else None
        return reasons, Ellipsis

    def _range_reasons(self, first, last):
        if first > last:
            return {'LGRApiInvalidParameter'}
        if (first, last) not in self.ranges():
            r = {'NotInLGR'}
            if self.idna_valid is not None and not self.idna_valid(first):
                r.add('CharInvalidIdnaProperty')
            return r
        return set()

    def _del_range(self, first, last):
        reasons = self._range_reasons(first, last)
        if not reasons:
            for c in range(first, last + 1):
                del self.entries[(c,)]
        return reasons, Ellipsis

    def _expand_range(self, first, last):
        reasons = self._range_reasons(first, last)
        if not reasons:
            for c in range(first, last + 1):
                self.entries[(c,)].range = None
        return reasons, Ellipsis

    def _expand_ranges(self):
        for e in self.entries.values():
            e.range = None
        return set(), Ellipsis

    def _add_variant(self, cp, vcp, **kw):
        reasons = set()
        cps, vcps = self._cps(cp, reasons), self._cps(vcp, reasons)
        if kw.get('when') is not None and kw.get('not_when') is not None and not kw.get('force'):
            reasons.add('VariantInvalidContextRule')
        self._repertoire(vcps, kw, reasons)
        refs = self._refs(kw, reasons)
        e = self.entries.get(cps)
        if e is None:
            if cps:
                reasons.add('NotInLGR')
        elif e.range:
            reasons.add('LGRFormatException')
        elif any((v['cp'], v['when'], v['not_when']) == (vcps, kw.get('when'), kw.get('not_when')) for v in e.vars):
            reasons.add('VariantAlreadyExists')
        if not reasons:
            e.vars.append({'cp': vcps, 'type': kw.get('variant_type'), 'when': kw.get('when'), 'not_when': kw.get('not_when'),
                           'comment': kw.get('comment'), 'refs': refs})
        return reasons, Ellipsis

    def _del_variant(self, cp, vcp, **kw):
        reasons = set()
        cps, vcps = self._cps(cp, reasons), self._cps(vcp, reasons)
        e = self.entries.get(cps)
        if e is None:
            if cps:
                reasons.add('NotInLGR')
        elif e.range:
            reasons.add('LGRFormatException')
        if reasons:
            return reasons, Ellipsis
        n = len(e.vars)
        e.vars = [v for v in e.vars if (v['cp'], v['when'], v['not_when']) != (vcps, kw.get('when'), kw.get('not_when'))]
        return reasons, len(e.vars) != n

    def _add_reference(self, value, **kw):
        rid = kw.get('ref_id')
        if rid is None:
            return set(), ('fresh', value, kw.get('comment'))
        reasons = set()
        if str(rid) in self.refs:
            reasons.add('ReferenceAlreadyExists')
        if not set(str(rid)) <= REF_RE_OK:
            reasons.add('ReferenceInvalidId')
        if not reasons:
            self.refs[str(rid)] = (value, kw.get('comment'))
        return reasons, str(rid)

    def _del_reference(self, rid):
        if str(rid) not in self.refs:
            return {'ReferenceNotDefined'}, Ellipsis
        del self.refs[str(rid)]
        for e in self.entries.values():
            e.refs = [r for r in e.refs if str(r) != str(rid)]
            for v in e.vars:
                v['refs'] = [r for r in v['refs'] if str(r) != str(rid)]
        return set(), Ellipsis

    def _update_reference(self, rid, **kw):
        if str(rid) not in self.refs:
            return {'ReferenceNotDefined'}, Ellipsis
        old = self.refs[str(rid)]
        self.refs[str(rid)] = (kw.get('value', old[0]), kw.get('comment', old[1]))
        return set(), Ellipsis

    def _del_tag(self, t):
        for e in self.entries.values():
            e.tags = [x for x in e.tags if x != t]
        return set(), Ellipsis

    def _add_rule(self, name, ref=None, refclass=None, force=False):
        reasons = set()
        if not force and ((ref is not None and ref not in self.rules) or (refclass is not None and refclass not in self.classes)):
            reasons.add('LGRFormatException')
        if not reasons:
            self.rules.append(name)
        return reasons, Ellipsis

    def _add_class(self, name, ref=None, force=False):
        reasons = set()
        if not force and ref is not None and ref not in self.classes:
            reasons.add('LGRFormatException')
        if not reasons:
            self.classes.append(name)
        return reasons, Ellipsis


def run_real(lgr, o, repertoires=None):
    """Run an op on the real LGR. Returns ('ok', result) or ('refused', exception class name) or ('crash', text)."""
    from lgr.exceptions import LGRException
    from mc import lgrspec as S
    name, args, kw = o
    kw = {k: (list(v) if isinstance(v, tuple) else v) for k, v in kw}
    if kw.get('validating_repertoire') is not None:
        kw['validating_repertoire'] = repertoires[kw['validating_repertoire']]
    args = [list(a) if isinstance(a, tuple) else a for a in args]
    try:
        if name == 'add_rule':
            nodes = [('any', None)]
            if kw.get('ref'):
                nodes = [('ruleref', kw['ref'], None)]
            if kw.get('refclass'):
                nodes = [('class', ('ref', kw['refclass']), None)]
            res = lgr.add_rule(S.rule_obj(args[0], nodes), force=kw.get('force', False))
        elif name == 'add_class':
            c = ('union', (('ref', kw['ref']), ('set', (0x61,)))) if kw.get('ref') else ('set', (0x61,))
            res = lgr.add_class(S.class_obj(c, args[0]), force=kw.get('force', False))
        elif name == 'update_reference':
            res = lgr.reference_manager.update_reference(*args, **kw)
        else:
            res = getattr(lgr, name)(*args, **kw)
    except LGRException as e:
        return 'refused', type(e).__name__
    except Exception as e:
        return 'crash', '%s: %s' % (type(e).__name__, e)
    return 'ok', res


def step(lgr, model, o, repertoires=None):
    """
    Take one step on both sides. Returns None or a text describing the disagreement.
    """
    reasons, want = model.apply(o)
    kind, got = run_real(lgr, o, repertoires)
    if kind == 'crash':
        return 'crash', '%r raised %s' % (o, got)
    if reasons:
        if kind == 'ok':
            return 'not-refused', '%r was accepted, must be refused (%s)' % (o, '/'.join(sorted(reasons)))
        if got not in reasons:
            return 'reason', '%r was refused with %s instead of %s' % (o, got, '/'.join(sorted(reasons)))
        return None
    if kind != 'ok':
        return 'refused', '%r was refused with %s, must be accepted' % (o, got)
    if isinstance(want, tuple) and want and want[0] == 'fresh':
        if not isinstance(got, str) or got in model.refs or not got.isdigit():
            return 'ref-id', '%r returned id %r, identifiers in use: %r' % (o, got, sorted(model.refs))
        model.refs[got] = want[1:]
    elif want is not Ellipsis and got != want:
        return 'result', '%r returned %r instead of %r' % (o, got, want)
    return None


def new_real(model):
    from lgr.core import LGR
    from lgr.metadata import Metadata
    md = Metadata()
    md.set_unicode_version('6.3.0')
    return LGR('x', metadata=md, allow_invalid_property=model.allow_invalid)


# ---------------------------------------------------------------------------------------------
# observation of the real LGR against the model
# ---------------------------------------------------------------------------------------------

def observe_repertoire(lgr, model, universe):
    """
    Compare everything the repertoire shows with the model. Yields texts.
    :param universe: code point tuples to look up.
    """
    from lgr.char import RangeChar, Char, CharSequence
    from lgr.exceptions import NotInLGR
    from mc import lgrspec as S
    rep = lgr.repertoire
    want = model.chars()
    got = S.snapshot_chars(lgr)
    if got != want:
        yield 'content', 'entries %r instead of %r' % (sorted(set(got) - set(want)), sorted(set(want) - set(got), key=repr))
        return
    if len(rep) != len(model.entries):
        yield 'len', 'size %d instead of %d' % (len(rep), len(model.entries))
    if tuple(sorted(rep.ranges)) != model.ranges():
        yield 'ranges', 'ranges %r instead of %r' % (rep.ranges, model.ranges())
    it = [c.cp for c in rep]
    lead = {e.cp for e in model.entries.values() if not e.range or e.range[0] == e.cp[0]}
    if sorted(it) != sorted(lead) or [(c[0], len(c)) for c in it] != sorted((c[0], len(c)) for c in lead):
        yield 'iteration', 'iteration gives %r instead of %r (ascending)' % (it, sorted(lead, key=lambda c: (c[0], len(c))))
    for cp in universe:
        e = model.entries.get(cp)
        forms = [list(cp), cp] + ([cp[0]] if len(cp) == 1 else [])
        for f in forms:
            if (f in rep) != (e is not None) or lgr.check_cp(f) != (e is not None):
                yield 'membership', '%r in repertoire: %s, check_cp: %s, model: %s' % (f, f in rep, lgr.check_cp(f), e is not None)
            for getter in (lgr.get_char, rep.__getitem__):
                try:
                    c = getter(f)
                except NotInLGR:
                    c = None
                if (c is None) != (e is None) or (c is not None and c.cp != cp):
                    yield 'lookup', 'looking %r up gives %r, model: %s' % (f, c, e is not None)
                elif c is not None:
                    kind = RangeChar if e.range else CharSequence if len(cp) > 1 else Char
                    if type(c) is not kind or c not in rep:
                        yield 'kind', '%r is a %s instead of a %s' % (f, type(c).__name__, kind.__name__)
        if e is not None:
            vs = [v.cp for v in lgr.get_variants(cp)]
            if vs != sorted(v['cp'] for v in e.vars):
                yield 'variants', 'variants of %r: %r, model: %r' % (cp, vs, sorted(v['cp'] for v in e.vars))
            char = lgr.get_char(cp)
            if char.has_variant() != bool(e.vars) or len(char.get_reflexive_variants()) != \
                    len([v for v in e.vars if v['cp'] == cp]):
                yield 'variants', 'has_variant/reflexive variants of %r: %r %r, model %r' % (
                    cp, char.has_variant(), char.get_reflexive_variants(), e.vars)
            for vcp in {v['cp'] for v in e.vars}:
                g = [(v.when, v.not_when, v.type) for v in lgr.get_variant(cp, vcp)]
                if g != [(v['when'], v['not_when'], v['type']) for v in e.vars if v['cp'] == vcp]:
                    yield 'variant', 'variant %r of %r: %r, model %r' % (vcp, cp, g, e.vars)
    for first in sorted({cp[0] for cp in universe}):
        for only in (False, True):
            w = sorted((-len(e.cp), e.cp) for e in model.entries.values() if e.cp[0] == first and (e.vars or not only))
            exists = any(e.cp[0] == first for e in model.entries.values())
            try:
                found = [c.cp for c in rep.get_chars_from_prefix(first, only_variants=only)]
            except NotInLGR:
                found = None
            if (found is None) == exists or (exists and (sorted((-len(c), c) for c in found) != w or
                                                         [-len(c) for c in found] != [n for n, _ in w])):
                yield 'prefix', 'entries starting with %04X (only variants: %s): %r, model %r' % (first, only, found, w)
    for seqs in (True, False):
        for rngs in (True, False):
            w = sorted(e.cp for e in model.entries.values()
                       if (seqs or len(e.cp) == 1) and (rngs or not e.range))
            g = sorted(c.cp for c in rep.all_repertoire(include_sequences=seqs, include_ranges=rngs))
            if g != w:
                yield 'all', 'all_repertoire(%s, %s) = %r, model %r' % (seqs, rngs, g, w)
    for force in (False, True):
        g = [tuple(s) for s in rep.get_variant_sets(force=force)]
        w = variant_sets(model, force)
        if sorted(g) != sorted(w):
            yield 'variant-sets', 'variant sets (force=%s) %r, model %r' % (force, g, w)


def variant_sets(model, force):
    """Everything reachable through variants (through unlisted code points nothing is reachable further)."""
    sets = set()
    for start in model.entries:
        seen, todo = {start}, [start]
        while todo:
            e = model.entries.get(todo.pop())
            for v in (e.vars if e else ()):
                if v['cp'] not in seen and (force or v['cp'] in model.entries):
                    seen.add(v['cp'])
                    todo.append(v['cp'])
        if len(seen) > 1:
            sets.add(tuple(sorted(seen)))
    return sets


def observe_tags_refs(lgr, model):
    want = model.tag_members()
    got = {t: set(c.codepoints) for t, c in lgr.get_tag_classes().items()}
    for t in set(want) | set(got):
        if want.get(t, set()) != got.get(t, set()):
            yield 'tag-members', 'members of tag %r: %r, entries carrying it: %r' % (
                t, sorted(got.get(t, ())), sorted(want.get(t, ())))
    if not set(want) <= set(lgr.all_tags()):
        yield 'all-tags', 'all_tags() = %r, tags carried: %r' % (lgr.all_tags(), sorted(want))
    g = [(k, v.get('value'), v.get('comment')) for k, v in lgr.reference_manager.items()]
    w = [(k,) + v for k, v in model.refs.items()]
    if g != w:
        yield 'references', 'references %r, model %r' % (g, w)
    for c in lgr.repertoire.all_repertoire():
        e = model.entries.get(c.cp)
        if e is None or list(c.tags) != e.tags or list(map(str, c.references)) != list(map(str, e.refs)):
            yield 'entry', '%r: tags %r references %r, model %r' % (c, c.tags, c.references, e and (e.tags, e.refs))
        for v in c.get_variants():
            for r in v.references:
                if r not in lgr.reference_manager:
                    yield 'dangling', 'variant %r of %r refers to %r which is not defined' % (v, c, r)
        for r in c.references:
            if r not in lgr.reference_manager:
                yield 'dangling', '%r refers to %r which is not defined' % (c, r)
