# -*- coding: utf-8 -*-
"""
A tiny, implementation independent description of an LGR ("spec", plain dicts/tuples), with
 - three ways of turning it into a real LGR object (API calls, XML document, XML document without unicode database),
 - the boring reference model that says what the LGR means.

Rule AST     ('start',) ('end',) ('anchor',) ('any',count) ('char',(cps),count) ('class',cls,count)
             ('choice',(node,..),count) ('rule',(node,..),count) ('ruleref',name,count)
             ('ahead',(node,..)) ('behind',(node,..))
Class AST    ('set',(cps)) ('tag',t) ('ref',name) ('prop',name,value) ('union',(cls,..)) ('inter',a,b) ('diff',a,b)
             ('symdiff',a,b) ('compl',a)
count        None | 'n' | 'n+' | 'n:m'
"""
import io
from xml.sax.saxutils import quoteattr, escape

LGR_NS = 'urn:ietf:params:xml:ns:lgr-1.0'

_DB = {}


def icu_db():
    """The production-grade database (ICU through munidata/picu)."""
    if 'db' not in _DB:
        import glob
        from munidata.database import PICUDatabase
        from munidata.manager import UnicodeDataVersionManager

        class FastSetDatabase(PICUDatabase):
            """
            picu copies sets one code point at a time (its own type test never succeeds), which takes a second for a
            complement: copy them with the native operation instead. Same results.
            """
            def get_set(self, iterable=None, pattern=None, freeze=False):
                cls = self._icu.set
                if '_verif_fast' not in cls.__dict__:
                    slow = cls.update

                    def update(this, other):
                        if isinstance(other, cls):
                            self._icu.uset_addAll(this._uset, other._uset)
                        else:
                            slow(this, other)
                    cls.update = update
                    cls._verif_fast = True
                if isinstance(iterable, cls) and not freeze and pattern is None:
                    return iterable | cls()
                return super(FastSetDatabase, self).get_set(iterable, pattern, freeze)

        lib = lambda n: sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libicu%s.so.[0-9]*' % n), key=len)[0]
        uc, i18n = lib('uc'), lib('i18n')
        _DB['db'] = UnicodeDataVersionManager(FastSetDatabase).register(None, uc, i18n, uc.rsplit('.', 1)[1])
    return _DB['db']


# ---------------------------------------------------------------------------------------------
# spec constructors
# ---------------------------------------------------------------------------------------------

def var(cp, type=None, when=None, not_when=None, comment=None, refs=()):
    return {'cp': tuple(cp), 'type': type, 'when': when, 'not_when': not_when, 'comment': comment,
            'refs': tuple(refs)}


def char(cp, vars=(), when=None, not_when=None, tags=(), refs=(), comment=None):
    return {'cp': tuple(cp), 'vars': list(vars), 'when': when, 'not_when': not_when, 'tags': tuple(tags),
            'refs': tuple(refs), 'comment': comment}


def rng(first, last, when=None, not_when=None, tags=(), refs=(), comment=None):
    return {'first': first, 'last': last, 'when': when, 'not_when': not_when, 'tags': tuple(tags),
            'refs': tuple(refs), 'comment': comment}


def action(disp, match=None, not_match=None, any=(), all=(), only=(), comment=None, refs=()):
    return {'disp': disp, 'match': match, 'not_match': not_match, 'any': tuple(any), 'all': tuple(all),
            'only': tuple(only), 'comment': comment, 'refs': tuple(refs)}


def spec(items, rules=(), classes=(), actions=(), refs=(), meta=None):
    """:param items: chars and ranges, in definition order."""
    return {'items': list(items), 'rules': list(rules), 'classes': list(classes), 'actions': list(actions),
            'refs': list(refs), 'meta': meta or {}}


def from_json(o):
    """JSON turns tuples into lists: give specs their tuples back where hashing needs them."""
    if isinstance(o, dict):
        return {k: from_json(v) for k, v in o.items()}
    if isinstance(o, list):
        return tuple(from_json(x) for x in o)
    return o


# ---------------------------------------------------------------------------------------------
# XML rendering (independent of the serializer of the repository)
# ---------------------------------------------------------------------------------------------

def hexs(cps):
    return ' '.join('%04X' % c for c in cps)


def _attrs(pairs):
    return ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in pairs if v is not None and v != '')


def class_xml(c, name=None, count=None, comment=None):
    at = [('name', name), ('count', count), ('comment', comment)]
    k = c[0]
    if k == 'set':
        return '<class%s>%s</class>' % (_attrs(at), hexs(c[1]))
    if k == 'raw':      # ('raw', code points, inner XML): a list of code points written in one particular way
        return '<class%s>%s</class>' % (_attrs(at), c[2])
    if k == 'tag':
        return '<class%s/>' % _attrs(at + [('from-tag', c[1])])
    if k == 'ref':
        return '<class%s/>' % _attrs(at + [('by-ref', c[1])])
    if k == 'prop':
        return '<class%s/>' % _attrs(at + [('property', '%s:%s' % (c[1], c[2]))])
    tag = {'union': 'union', 'inter': 'intersection', 'diff': 'difference', 'symdiff': 'symmetric-difference',
           'compl': 'complement'}[k]
    kids = c[1] if k == 'union' else c[1:]
    return '<%s%s>%s</%s>' % (tag, _attrs(at), ''.join(class_xml(x) for x in kids), tag)


def node_xml(n):
    k = n[0]
    if k in ('start', 'end', 'anchor'):
        return '<%s/>' % k
    if k == 'any':
        return '<any%s/>' % _attrs([('count', n[1])])
    if k == 'char':
        return '<char%s/>' % _attrs([('cp', hexs(n[1])), ('count', n[2])])
    if k == 'class':
        return class_xml(n[1], count=n[2])
    if k == 'choice':
        return '<choice%s>%s</choice>' % (_attrs([('count', n[2])]), ''.join(node_xml(x) for x in n[1]))
    if k == 'rule':
        return '<rule%s>%s</rule>' % (_attrs([('count', n[2])]), ''.join(node_xml(x) for x in n[1]))
    if k == 'ruleref':
        return '<rule%s/>' % _attrs([('by-ref', n[1]), ('count', n[2])])
    if k == 'ahead':
        return '<look-ahead>%s</look-ahead>' % ''.join(node_xml(x) for x in n[1])
    if k == 'behind':
        return '<look-behind>%s</look-behind>' % ''.join(node_xml(x) for x in n[1])
    raise AssertionError(k)


def item_xml(it):
    common = [('when', it['when']), ('not-when', it['not_when']), ('tag', ' '.join(it['tags'])),
              ('ref', ' '.join(it['refs'])), ('comment', it['comment'])]
    if 'first' in it:
        return '<range%s/>' % _attrs([('first-cp', '%04X' % it['first']), ('last-cp', '%04X' % it['last'])] + common)
    return '<char%s>%s</char>' % (
        _attrs([('cp', hexs(it['cp']))] + common),
        ''.join('<var%s/>' % _attrs([('cp', hexs(v['cp'])), ('type', v['type']), ('when', v['when']),
                                      ('not-when', v['not_when']), ('comment', v['comment']),
                                      ('ref', ' '.join(v['refs']))]) for v in it['vars']))


def action_xml(a):
    return '<action%s/>' % _attrs([('disp', a['disp']), ('match', a['match']), ('not-match', a['not_match']),
                                   ('any-variant', ' '.join(a['any'])), ('all-variants', ' '.join(a['all'])),
                                   ('only-variants', ' '.join(a['only'])), ('comment', a['comment']),
                                   ('ref', ' '.join(a['refs']))])


def to_xml(sp):
    m = sp['meta']
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<lgr xmlns="%s">' % LGR_NS, '<meta>']
    if 'version' in m:
        out.append('<version%s>%s</version>' % (_attrs([('comment', m.get('version_comment'))]),
                                                escape(m['version'])))
    if 'date' in m:
        out.append('<date>%s</date>' % m['date'])
    for lang in m.get('languages', ()):
        out.append('<language>%s</language>' % lang)
    for value, typ in m.get('scopes', ()):
        out.append('<scope%s>%s</scope>' % (_attrs([('type', typ)]), escape(value)))
    if 'validity_start' in m:
        out.append('<validity-start>%s</validity-start>' % m['validity_start'])
    if 'validity_end' in m:
        out.append('<validity-end>%s</validity-end>' % m['validity_end'])
    out.append('<unicode-version>%s</unicode-version>' % m.get('unicode_version', '6.3.0'))
    if 'description' in m:
        out.append('<description%s>%s</description>' % (_attrs([('type', m.get('description_type'))]),
                                                        escape(m['description']).replace('\r', '&#13;')))
    if sp['refs']:
        out.append('<references>')
        for rid, value, comment in sp['refs']:
            out.append('<reference%s>%s</reference>' % (_attrs([('id', rid), ('comment', comment)]), escape(value)))
        out.append('</references>')
    out.append('</meta><data>')
    out.extend(item_xml(i) for i in sp['items'])
    out.append('</data><rules>')
    for name, c in sp['classes']:
        out.append(class_xml(c, name=name))
    for name, nodes in sp['rules']:
        out.append('<rule%s>%s</rule>' % (_attrs([('name', name)]), ''.join(node_xml(n) for n in nodes)))
    out.extend(action_xml(a) for a in sp['actions'])
    out.append('</rules></lgr>')
    return '\n'.join(out)


# ---------------------------------------------------------------------------------------------
# real objects
# ---------------------------------------------------------------------------------------------

def parse_xml(text, unidb=None, force=False, allow_invalid_property=False, filename='x.xml'):
    return parse_bytes(text.encode('utf-8'), unidb, force, allow_invalid_property, filename)


def parse_bytes(data, unidb=None, force=False, allow_invalid_property=False, filename='x.xml'):
    from lgr.parser.xml_parser import XMLParser
    p = XMLParser(io.BytesIO(data), filename, force=force,
                  allow_invalid_property=allow_invalid_property)
    if unidb is not None:
        p.unicode_database = unidb
    return p.parse_document()


def class_obj(c, name=None):
    from lgr import classes as C
    k = c[0]
    if k == 'set':
        return C.Class(name=name, codepoints=c[1])
    if k == 'raw':
        cls = C.Class(name=name)
        for i, cp in enumerate(c[1]):          # one by one or in groups
            cls.add_codepoint(cp if i % 2 else [cp])
        return cls
    if k == 'tag':
        return C.Class(name=name, from_tag=c[1])
    if k == 'ref':
        return C.Class(name=name, by_ref=c[1])
    if k == 'prop':
        return C.Class(name=name, unicode_property='%s:%s' % (c[1], c[2]))
    cls = {'union': C.UnionClass, 'inter': C.IntersectionClass, 'diff': C.DifferenceClass,
           'symdiff': C.SymmetricDifferenceClass, 'compl': C.ComplementClass}[k](name=name)
    for x in (c[1] if k == 'union' else c[1:]):
        cls.add_child(class_obj(x))
    return cls


def node_obj(n):
    from lgr import matcher as M
    from lgr.rule import Rule
    k = n[0]
    if k == 'start':
        return M.StartMatcher()
    if k == 'end':
        return M.EndMatcher()
    if k == 'anchor':
        return M.AnchorMatcher()
    if k == 'any':
        return M.AnyMatcher(count=n[1])
    if k == 'char':
        return M.CharMatcher(list(n[1]), count=n[2])
    if k == 'class':
        return M.ClassMatcher(class_obj(n[1]), count=n[2])
    if k == 'ruleref':
        return M.RuleMatcher(Rule(by_ref=n[1]), count=n[2])
    if k == 'rule':
        r = Rule()
        for x in n[1]:
            r.add_child(node_obj(x))
        return M.RuleMatcher(r, count=n[2])
    m = {'choice': lambda: M.ChoiceMatcher(count=n[2]), 'ahead': M.LookAheadMatcher,
         'behind': M.LookBehindMatcher}[k]()
    for x in n[1]:
        m.add_child(node_obj(x))
    return m


def rule_obj(name, nodes):
    from lgr.rule import Rule
    r = Rule(name=name)
    for n in nodes:
        r.add_child(node_obj(n))
    return r


def action_obj(a):
    from lgr.action import Action
    return Action(a['disp'], comment=a['comment'], ref=list(a['refs']), match=a['match'], not_match=a['not_match'],
                  any_variant=list(a['any']), all_variants=list(a['all']), only_variants=list(a['only']))


def add_item(lgr, it, force=False):
    kw = dict(comment=it['comment'], ref=list(it['refs']), tag=list(it['tags']), when=it['when'],
              not_when=it['not_when'], force=force)
    if 'first' in it:
        lgr.add_range(it['first'], it['last'], **kw)
    else:
        lgr.add_cp(list(it['cp']), **kw)
        for v in it['vars']:
            add_var(lgr, it['cp'], v, force)


def add_var(lgr, cp, v, force=False):
    lgr.add_variant(list(cp), list(v['cp']), variant_type=v['type'], when=v['when'], not_when=v['not_when'],
                    comment=v['comment'], ref=list(v['refs']), force=force)


def build(sp, unidb=None, how='api', name='x.xml'):
    """Build the LGR described by `sp`. `how`: 'api' or 'xml'."""
    from lgr.core import LGR
    from lgr.metadata import Metadata
    if how == 'xml':
        return parse_xml(to_xml(sp), unidb=unidb, filename=name)
    md = Metadata()
    m = sp['meta']
    md.set_unicode_version(m.get('unicode_version', '6.3.0'))
    if m.get('languages'):
        md.set_languages(list(m['languages']))
    lgr = LGR(name, metadata=md)
    if unidb is not None:
        lgr.unicode_database = unidb
    for rid, value, comment in sp['refs']:
        lgr.add_reference(value, comment=comment, ref_id=rid)
    for it in sp['items']:
        add_item(lgr, it)
    for n, c in sp['classes']:
        lgr.add_class(class_obj(c, n))
        lgr.classes_xml.append(class_xml(c, name=n))
    for n, nodes in sp['rules']:
        lgr.add_rule(rule_obj(n, nodes))
        lgr.rules_xml.append('<rule%s>%s</rule>' % (_attrs([('name', n)]), ''.join(node_xml(x) for x in nodes)))
    for a in sp['actions']:
        lgr.add_action(action_obj(a))
        lgr.actions_xml.append(action_xml(a))
    return lgr


# ---------------------------------------------------------------------------------------------
# observation: everything the public API shows of an LGR, in canonical form
# ---------------------------------------------------------------------------------------------

def snapshot_chars(lgr, variants=True):
    from lgr.char import RangeChar
    out = []
    for c in lgr.repertoire.all_repertoire():
        out.append((c.cp, (c.first_cp, c.last_cp) if isinstance(c, RangeChar) else None,
                    c.when, c.not_when, tuple(c.tags), tuple(map(str, c.references)), c.comment,
                    tuple(sorted((v.cp, str(v.type), str(v.when), str(v.not_when), str(v.comment),
                                  tuple(map(str, v.references))) for v in c.get_variants())) if variants else ()))
    return tuple(sorted(out, key=repr))


def snapshot(lgr):
    """Canonical observation of the whole LGR (order of rules, classes and actions kept, as it is meaningful)."""
    md = lgr.metadata
    return {
        'chars': snapshot_chars(lgr),
        'iter': tuple(c.cp for c in lgr.repertoire),
        'ranges': tuple(sorted(lgr.repertoire.ranges)),
        'rules': tuple(lgr.rules), 'rules_xml': tuple(lgr.rules_xml),
        'rule_objs': tuple(sorted(((k, str(v), v.comment, tuple(v.references))
                                   for k, v in lgr.rules_lookup.items()), key=repr)),
        'classes': tuple(lgr.classes), 'classes_xml': tuple(lgr.classes_xml),
        'class_objs': tuple(sorted(((k, str(v), tuple(sorted(v.codepoints)), v.implicit, v.comment, tuple(v.references))
                                    for k, v in lgr.classes_lookup.items()), key=repr)),
        'actions': tuple(snapshot_action(a) for a in lgr.actions), 'actions_xml': tuple(lgr.actions_xml),
        'refs': tuple((str(k), lgr.reference_manager[k].get('value'), lgr.reference_manager[k].get('comment'))
                      for k in lgr.reference_manager),
        'meta': snapshot_meta(md),
        'types': tuple(sorted(map(str, lgr.types))),
        'name': lgr.name,
    }


def snapshot_action(a):
    return (a.disp, a.match, a.not_match, tuple(sorted(a.any_variant or ())), tuple(sorted(a.all_variants or ())),
            tuple(sorted(a.only_variants or ())), a.comment, tuple(map(str, a.references)))


def snapshot_meta(md):
    return (None if md.version is None else (md.version.value, md.version.comment),
            md.date, md.validity_start, md.validity_end, md.unicode_version, tuple(md.languages),
            tuple((s.value, s.scope_type) for s in md.scopes),
            None if md.description is None else (md.description.value, md.description.description_type))


def diff_snap(a, b):
    return {k: (a[k], b[k]) for k in a if a[k] != b[k]}


def unjson_spec(sp):
    """A spec that went through JSON (tuples became lists): make it usable again."""
    sp = from_json(sp)
    return {k: (list(v) if k in ('items', 'rules', 'classes', 'actions', 'refs') else v) for k, v in sp.items()}
