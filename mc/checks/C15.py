# -*- coding: utf-8 -*-
"""
C15 - reading XML: valid documents are read as what they describe, whatever their layout; faulty ones are refused, or read
without their faulty parts when forcing.

Layouts: a document tree is rendered with every combination of a set of layout choices (all equivalent as XML and RFC 7940), and
each rendering must be valid against the schema and give the LGR built from the description by API calls. Faults: every single
fault of a menu at every position of its section, and every pair of faults (at the first / last positions); strict reading
refuses, forced reading gives the LGR of the base document outside of the parts which hold a fault. Parsers: every history of
calls on one parser object.
"""
import io
import itertools
import os
import shutil
import tempfile
from xml.sax.saxutils import escape, quoteattr

from mc import lgrspec as S
from mc.common import REPO

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = 'a case is one document read in one mode (or one history of calls on a parser); non trivial = distinct LGRs or refusals'
A, B, C, D = 0x61, 0x62, 0x63, 0x64
BOUNDS = {'quick': 'every combination of 12 two-way layout choices on a document of all kinds of elements; every fault at every position, every pair of '
                   'faults at four pairs of positions, strict and forced; parser histories of length <= 3',
          'thorough': 'combinations of layouts on three documents, every triple of faults, histories of length <= 4'}
ASSUMPTIONS = ['faults of the schema (missing attributes, malformed numbers, unknown elements) are for validate_document, which is checked against lgr.rng']


# -- documents as trees: (tag, attributes, content) ------------------------------------------------------------------------

def el(tag, /, *content, **at):
    return (tag, tuple((k.replace('_', '-'), v) for k, v in at.items()), content)


BASE = {
    'meta': [el('version', '1', comment='first "v" & <1>'), el('date', '2020-02-29'), el('language', 'und-Latn'), el('scope', 'example.com', type='domain'),
             el('validity-start', '2021-01-01'), el('validity-end', '2030-01-01'), el('unicode-version', '6.3.0'),
             el('description', 'a <b>text</b> & more', type='text/html'),
             el('references', el('reference', 'ref zero', id='0', comment='c'), el('reference', 'ref A', id='A-1'))],
    'data': [el('char', el('var', cp=(B,), type='x', comment='vc', ref=('0',)), el('var', cp=(A, C), when='afterA', type='y'), el('var', cp=(A,), type='i'),
                cp=(A,), tag=('t', 'u'), comment='a char', ref=('0', 'A-1')),
             el('char', cp=(A, C), comment="it's"),
             el('char', el('var', cp=(A,), type='x'), cp=(B,), not_when='afterA'),
             el('char', cp=(C,), tag=('u',)),
             el('range', first_cp=0x6D, last_cp=0x70, tag=('t',), ref=('A-1',), when='afterA', comment='rng'),
             el('char', cp=(0xE9,))],
    'rules': [el('class', (A, B), name='k', comment='kc', ref=('0', 'A-1')), el('class', name='kt', from_tag='u'),
              el('union', el('class', by_ref='k'), el('class', (C, D, 0xE9)), name='ku', comment='uc', ref=('A-1',)),
              el('rule', el('look-behind', el('char', cp=(A,))), el('anchor'), name='afterA', comment='rc'),
              el('rule', el('start'), el('choice', el('class', by_ref='ku', count='1+'), el('any', count='2')), el('end'), name='whole', ref=('0',)),
              el('rule', el('rule', by_ref='whole'), el('class', by_ref='kt'), name='refs'),
              el('action', disp='invalid', match='refs', comment='ac'), el('action', disp='blocked', any_variant=('x', 'y'), ref=('A-1',)),
              el('action', disp='allocatable', not_match='refs', only_variants=('i',)), el('action', disp='valid', all_variants=('x', 'i'), comment='all'),
              el('action', disp='valid')],
}
SMALL1 = {'meta': [], 'data': [el('char', el('var', cp=(B,)), cp=(A,)), el('char', cp=(A, B))], 'rules': []}
SMALL2 = {'meta': [el('references')], 'data': [el('range', first_cp=A, last_cp=C)],
          'rules': [el('complement', el('difference', el('class', (A, B)), el('class', property='gc:Lu')), name='z'),
                    el('rule', el('class', by_ref='z'), el('char', cp=(A, B), count='0:2'), name='r')]}
# elements inside classes: read, although the schema of RFC 7940 has lists only
LEGACY = {'meta': [], 'data': [el('range', first_cp=A, last_cp=D), el('char', cp=(0x6D,))],
          'rules': [el('class', el('char', cp=(A,)), el('range', first_cp=C, last_cp=D), el('char', cp=(0x6D,)), name='e'),
                    el('class', el('range', first_cp=A, last_cp=C), el('char', cp=(D,)), name='f', comment='fc', ref=()),
                    el('rule', el('class', el('char', cp=(A,)), el('char', cp=(B,))), el('class', by_ref='e', count='1+'), name='r'),
                    el('rule', el('difference', el('class', by_ref='f'), el('class', el('range', first_cp=B, last_cp=C), el('char', cp=(0x6D,)))), el('end'),
                       name='s'),
                    el('action', disp='d1', match='r'), el('action', disp='d2', not_match='s')]}


def nested(n):
    return el('choice', nested(n - 1), el('char', cp=(A + n,))) if n else el('char', cp=(A,), count='12:34')


# many of everything
LARGE = {'meta': [el('language', t) for t in ('und-Latn', 'und-Grek', 'de', 'sr-Cyrl', 'zh-Hani', 'ar', 'en-GB', 'und-Hebr', 'fr', 'es', 'it', 'pt-BR')] +
                 [el('scope', 's%d.example' % i, type='domain') for i in range(12)] +
                 [el('references', *[el('reference', 'reference %d' % i, id='%d' % i) for i in range(30)])],
         'data': [el('range', first_cp=0x4E00, last_cp=0x4E00 + 700, tag=('han',)), el('range', first_cp=0x20000, last_cp=0x20000 + 300),
                  el('char', *[el('var', cp=(0x5E00 + i,), type='t%d' % (i % 11)) for i in range(40)] + [el('var', cp=(A, B, C, D) * 4, type='long')],
                     cp=(A,), tag=tuple('tag%d' % i for i in range(12)), ref=tuple(str(i) for i in range(13))),
                  el('char', el('var', cp=(A,), type='x'), cp=(B,) * 16), el('char', cp=(B,))] + [el('char', cp=(0xAC00 + i,), tag=('c',)) for i in range(60)],
         'rules': [el('class', tuple(range(0x5000, 0x5030)), name='c0')] + [el('class', (A + i,), name='n%d' % i) for i in range(8)] +
                  [el('union', *[el('class', by_ref='n%d' % i) for i in range(8)], name='u'), el('class', name='tagged', from_tag='c')] +
                  [el('rule', *[el('char', cp=(A + i % 4, B), count='%d+' % (i + 1)) for i in range(i + 1)], name='r%d' % i) for i in range(12)] +
                  [el('rule', nested(8), el('class', by_ref='u', count='10'), el('class', by_ref='tagged', count='0:63'), el('any', count='21+'), name='deep')] +
                  [el('action', disp='d%d' % i, **{('match', 'not_match')[i % 2]: 'r%d' % (i % 12)}) for i in range(25)] +
                  [el('action', disp='many', any_variant=tuple('t%d' % i for i in range(11)))]}
DOCS = [BASE, SMALL1, SMALL2, LEGACY, LARGE]
NO_SCHEMA = {3}
CHOICES = ['attrs', 'indent', 'comments', 'pis', 'prefix', 'quotes', 'entities', 'encoding', 'empty', 'numbers', 'order', 'spaces']


def render(doc, on=(), meta=True):
    """
    :param on: set of the layout choices taken.
    """
    pre = 'l:' if 'prefix' in on else ''
    num = (lambda c: '%06x' % c) if 'numbers' in on else (lambda c: '%04X' % c)
    sep = '  ' if 'spaces' in on else ' '
    pad = ' ' if 'spaces' in on else ''

    def ent(s):
        return ''.join('&#x%X;' % ord(c) if c.isalnum() and i % 2 == 0 else escape(c) for i, c in enumerate(s)) if 'entities' in on else escape(s)

    def att(v):
        if 'quotes' in on:
            return "'%s'" % ent(v).replace("'", '&apos;')
        return '"%s"' % ent(v).replace('"', '&quot;')

    def value(k, v):
        if isinstance(v, int):
            return num(v)
        if isinstance(v, tuple):
            if k == 'cp':
                return pad + sep.join(num(c) for c in v) + pad
            return pad + sep.join(v) + pad
        return v

    def node(e, depth):
        tag, at, content = e
        at = [(k, v) for k, v in at if v is not None]
        if 'attrs' in on:
            at = at[::-1]
        out = '<' + pre + tag + ''.join((('\n ' if 'indent' in on else ' ') + k + ('= ' if 'spaces' in on else '=') + att(value(k, v))) for k, v in at)
        if not content and 'empty' not in on:
            return out + '/>'
        body = ''
        for c in content:
            if 'comments' in on:
                body += '<!-- a <comment> & cp="0063" -->'
            if 'pis' in on:
                body += '<?pi cp="0064"?>'
            if isinstance(c, str):
                body += ent(c)
            elif not isinstance(c[0], str):
                if 'numbers' in on:
                    body += '%X' % c[0] + ''.join(('\n\t' if 'indent' in on else ' ') + '%X-%x' % (x, x) for x in c[1:])
                else:
                    body += ('\n ' if 'indent' in on else '') + ' '.join('%04X' % x for x in c)
            else:
                body += ('\n' + '  ' * depth if 'indent' in on else '') + node(c, depth + 1)
        if content and not isinstance(content[-1], str):
            body += ('<!-- end -->' if 'comments' in on else '') + ('\n' if 'indent' in on else '')
        return out + '>' + body + '</' + pre + tag + '>'

    def sect(name):
        kids = list(doc[name])
        if 'order' in on and name in ('meta', 'data'):
            kids = kids[::-1]
        return (name, (), tuple(kids))

    parts = [sect(n) for n in ('meta', 'data', 'rules') if meta or n != 'meta']
    root = node(('lgr', (('xmlns' + (':l' if pre else ''), S.LGR_NS),), tuple(parts)), 1)
    if 'encoding' in on:
        return ('<?xml version="1.0" encoding="UTF-16"?>\n' + root + '\n').encode('utf-16')
    return ('<?xml version="1.0" encoding="utf-8"?>' + root).encode('utf-8')


def built(doc):
    """The LGR of the document, built by API calls."""
    from lgr.core import LGR
    from lgr.metadata import Metadata, Version, Scope, Description
    md = Metadata()
    for tag, at, content in doc['meta']:
        at = dict(at)
        text = content[0] if content else None
        if tag == 'version':
            md.version = Version(text, at.get('comment'))
        elif tag == 'language':
            md.add_language(text)
        elif tag == 'scope':
            md.scopes.append(Scope(text, at.get('type')))
        elif tag == 'description':
            md.description = Description(text, at.get('type'))
        elif tag != 'references':
            getattr(md, 'set_' + tag.replace('-', '_'))(text)
    lgr = LGR('x.xml', metadata=md, unicode_database=S.icu_db())
    for tag, at, content in doc['meta']:
        if tag == 'references':
            for _, at, content in content:
                lgr.reference_manager.add_reference(content[0], comment=dict(at).get('comment'), ref_id=dict(at)['id'])
    for tag, at, content in doc['data']:
        at = dict(at)
        kw = dict(comment=at.get('comment'), ref=list(at.get('ref', ())), when=at.get('when'), not_when=at.get('not-when'))
        if tag == 'range':
            lgr.add_range(at['first-cp'], at['last-cp'], tag=list(at.get('tag', ())), **kw)
            continue
        lgr.add_cp(list(at['cp']), tag=list(at.get('tag', ())), **kw)
        for _, v, _ in content:
            v = dict(v)
            lgr.add_variant(list(at['cp']), list(v['cp']), variant_type=v.get('type'), comment=v.get('comment'), ref=list(v.get('ref', ())),
                            when=v.get('when'), not_when=v.get('not-when'))
    from lgr import classes as K, matcher as M
    from lgr.rule import Rule
    from lgr.action import Action

    def cls(e):
        tag, at, content = e
        at = dict(at)
        if tag == 'class':
            c = K.Class(name=at.get('name'), comment=at.get('comment'), from_tag=at.get('from-tag'), unicode_property=at.get('property'),
                        ref=list(at.get('ref', ())), by_ref=at.get('by-ref'), codepoints=content[0] if content and isinstance(content[0][0], int) else None)
            for x in content:
                if isinstance(x[0], str):
                    y = dict(x[1])
                    c.add_codepoint(list(y['cp'] if x[0] == 'char' else range(y['first-cp'], y['last-cp'] + 1)))
            return c
        c = {'union': K.UnionClass, 'complement': K.ComplementClass, 'difference': K.DifferenceClass}[tag](name=at.get('name'), comment=at.get('comment'))
        c.references = list(at.get('ref', ()))
        for x in content:
            c.add_child(cls(x))
        return c

    def match(e):
        tag, at, content = e
        at = dict(at)
        n = at.get('count')
        if tag == 'char':
            return M.CharMatcher(list(at['cp']), count=n)
        if tag == 'any':
            return M.AnyMatcher(count=n)
        if tag == 'rule':
            return M.RuleMatcher(rule(e), count=n)
        if tag in ('choice', 'look-behind', 'look-ahead'):
            m = {'choice': M.ChoiceMatcher, 'look-behind': M.LookBehindMatcher, 'look-ahead': M.LookAheadMatcher}[tag]()
            for x in content:
                m.add_child(match(x))
            return m
        if tag in ('start', 'end', 'anchor'):
            return {'start': M.StartMatcher, 'end': M.EndMatcher, 'anchor': M.AnchorMatcher}[tag]()
        return M.ClassMatcher(cls(e), count=n)

    def rule(e):
        tag, at, content = e
        at = dict(at)
        r = Rule(name=at.get('name'), comment=at.get('comment'), ref=list(at.get('ref', ())), by_ref=at.get('by-ref'))
        for x in content:
            r.add_child(match(x))
        return r

    for e in doc['rules']:
        if e[0] == 'rule':
            lgr.add_rule(rule(e))
        elif e[0] == 'action':
            at = dict(e[1])
            lgr.add_action(Action(at['disp'], comment=at.get('comment'), ref=list(at.get('ref', ())), match=at.get('match'), not_match=at.get('not-match'),
                                  any_variant=at.get('any-variant'), all_variants=at.get('all-variants'), only_variants=at.get('only-variants')))
        else:
            lgr.add_class(cls(e))
    return lgr


LABELS = [l for k in (1, 2, 3) for l in itertools.product((A, B, C, 0x6D), repeat=k)]


def patterns(lgr):
    return tuple((n, lgr.rules_lookup[n].get_pattern(lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database)) for n in lgr.rules)


def answers(lgr):
    out = []
    for l in LABELS:
        r = lgr.test_label_eligible(l, collect_log=False)
        out.append((r[0], tuple(r[1]), r[3], r[4]))
        if r[0] and len(l) < 3:
            out.append(sorted((v[0], v[1], v[3]) for v in lgr.compute_label_disposition(l, collect_log=False)))
    return out


def view(lgr):
    out = dict(S.snapshot(lgr))
    for k in ('rules_xml', 'classes_xml', 'actions_xml', 'types'):
        out.pop(k)
    out['n_xml'] = None
    return out


def compare(st, what, got, want, case):
    if got != want:
        st.violation(what, '%s: %r' % (what, S.diff_snap(want, got)), case)


def schema():
    return os.path.join(REPO, 'resources', 'lgr.rng')


def run_layout(n, mask, st, memo={}):
    from lgr.parser.xml_parser import XMLParser
    doc = DOCS[n]
    on = {c for i, c in enumerate(CHOICES) if mask >> i & 1}
    case = {'kind': 'layout', 'doc': n, 'mask': mask, 'on': sorted(on)}
    st.step()
    data = render(doc, on)
    if n not in memo:
        ref = built(doc)
        memo[n] = (view(ref), answers(ref))
    st.evaluations += 1
    st.trace()
    try:
        p = XMLParser(io.BytesIO(data), 'x.xml', force=False)
        p.unicode_database = S.icu_db()
        lgr = p.parse_document()
    except Exception as e:
        return st.violation('valid-refused', 'reading a valid document raises %s: %s' % (type(e).__name__, e), case)
    want = dict(memo[n][0])
    got = view(lgr)
    compare(st, 'layout', got, want, case)
    st.outcome((n, repr(got)))
    if (len(lgr.rules_xml), len(lgr.actions_xml)) != (len(lgr.rules), len(lgr.actions)):
        st.violation('texts', 'the texts of the definitions are not kept', case)
    if mask % 8 == 0 or st.tier != 'quick':
        if answers(lgr) != memo[n][1]:
            st.violation('layout-answers', 'labels are answered differently', case)
    if mask % 4 == 0 or st.tier != 'quick':
        compare(st, 'layout-forced', view(S.parse_bytes(data, unidb=S.icu_db(), force=True)), want, case)
    if not {'numbers', 'spaces'} & on and n not in NO_SCHEMA:
        # the schema only knows upper case numbers and single spaces
        err = XMLParser(io.BytesIO(data), 'x.xml').validate_document(schema())
        if err is not None:
            st.violation('schema', 'a valid document does not match the schema: %s' % err, case)


# -- faults ------------------------------------------------------------------------------------------------------------------

def fault(name, sect, elem, cps=(), names=(), meta=(), refs=(), disps=(), replace=None):
    return dict(name=name, sect=sect, elem=elem, cps=tuple(cps), names=tuple(names), meta=tuple(meta), refs=tuple(refs), disps=tuple(disps), replace=replace)


# indices of the fields of the snapshot of the metadata
META = {'version': 0, 'date': 1, 'validity-start': 2, 'validity-end': 3, 'unicode-version': 4, 'languages': 5}


def faults():
    out = []
    for tag in ('date', 'validity-start', 'validity-end'):
        for v in ('2020-13-01', '2020-1-01', '', '2021-02-29', '20200101', '2020-01-01T00:00', 'x', ' 2020-01-01', '2020-00-10', '0000-01-01', '+2020-01-01', '2020-01-0１'):
            if tag == 'date' or v in ('2020-13-01', ''):
                out.append(fault('%s %r' % (tag, v), 'meta', el(tag, *([v] if v else [])), meta=(tag,), replace=tag))
    for v in ('6.3', '6', '', 'x.y.z', '6.3.x', ' 6.3.0', '-1.0.0'):
        out.append(fault('unicode-version %r' % v, 'meta', el('unicode-version', *([v] if v else [])), meta=('unicode-version',), replace='unicode-version'))
    for v in ('xx-invalid-tag-1', '', 'e', 'en_US', 'und-Latn-Latn', '12'):
        out.append(fault('language %r' % v, 'meta', el('language', *([v] if v else [])), meta=('languages',)))
    for i in ('0', 'A-1'):
        out.append(fault('same reference %s' % i, 'references', el('reference', 'again', id=i)))
        out.append(fault('same reference %s, commented' % i, 'references', el('reference', 'again', id=i, comment='again')))
    for i in ('a', 'é', 'A B', 'A,', 'b-1'):
        out.append(fault('reference id %r' % i, 'references', el('reference', 'bad', id=i), refs=(i,)))
        if i in 'aA,':
            out.append(fault('commented reference id %r' % i, 'references', el('reference', 'bad', id=i, comment='bc'), refs=(i,)))
    X = 0x78
    out += [
        fault('same char', 'data', el('char', cp=(C,), comment='again', tag=('u',))),
        fault('same sequence', 'data', el('char', cp=(A, C))),
        fault('char of a range', 'data', el('char', cp=(0x6E,), comment='again')),
        fault('range over a char', 'data', el('range', first_cp=0x71, last_cp=0x73, comment='over'), cps=(0x71, 0x73)),
        fault('range over a range', 'data', el('range', first_cp=0x6C, last_cp=0x6D), cps=(0x6C,)),
        fault('range backwards', 'data', el('range', first_cp=0x7A, last_cp=0x79), cps=(0x79, 0x7A)),
        fault('char when and not-when', 'data', el('char', cp=(X,), when='afterA', not_when='afterA'), cps=(X,)),
        fault('range when and not-when', 'data', el('range', first_cp=X, last_cp=X + 1, when='afterA', not_when='afterA'), cps=(X, X + 1)),
        fault('char reference', 'data', el('char', cp=(X,), ref=('0', 'nope')), cps=(X,)),
        fault('char same reference', 'data', el('char', cp=(X,), ref=('0', '0')), cps=(X,)),
        fault('range reference', 'data', el('range', first_cp=X, last_cp=X + 1, ref=('nope',)), cps=(X, X + 1)),
        fault('range same reference', 'data', el('range', first_cp=X, last_cp=X + 1, ref=('0', 'A-1', '0')), cps=(X, X + 1)),
        fault('char same tag', 'data', el('char', cp=(X,), tag=('ft', 'ft')), cps=(X,)),
        fault('range same tag', 'data', el('range', first_cp=X, last_cp=X + 1, tag=('ft', 'gt', 'ft')), cps=(X, X + 1)),
        fault('tagged sequence', 'data', el('char', cp=(B, X), tag=('ft',)), cps=(X,)),
        fault('char not IDNA', 'data', el('char', cp=(0x41,)), cps=(0x41,)),
        fault('char not IDNA with variants', 'data', el('char', el('var', cp=(B,)), cp=(0x42,)), cps=(0x42,)),
        fault('sequence not IDNA', 'data', el('char', cp=(A, 0x43)), cps=(0x43,)),
        fault('range not IDNA', 'data', el('range', first_cp=0x39, last_cp=0x3A), cps=(0x39, 0x3A)),
        fault('same variant', 'data', el('char', el('var', cp=(B,), type='1'), el('var', cp=(B,), type='2'), cp=(X,)), cps=(X,)),
        fault('same variant when', 'data', el('char', el('var', cp=(B,), when='afterA'), el('var', cp=(B,), when='afterA'), cp=(X,)), cps=(X,)),
        fault('variant when and not-when', 'data', el('char', el('var', cp=(B,), when='afterA', not_when='afterA'), cp=(X,)), cps=(X,)),
        fault('variant reference', 'data', el('char', el('var', cp=(B,), ref=('nope',)), cp=(X,)), cps=(X,)),
        fault('variant same reference', 'data', el('char', el('var', cp=(B,), ref=('0', '0')), cp=(X,)), cps=(X,)),
        fault('variant not IDNA', 'data', el('char', el('var', cp=(0x44,)), cp=(X,)), cps=(X,)),
        fault('class reference', 'rules', el('union', el('class', by_ref='nope'), el('class', (A,)), name='f'), names=('f',)),
        fault('class without name', 'rules', el('class', (A,)), names=(None,)),
        fault('class name inside', 'rules', el('union', el('class', (A,), name='in'), el('class', (B,)), name='f'), names=('f', 'in')),
        fault('class name and reference', 'rules', el('class', name='f', by_ref='k'), names=('f',)),
        fault('class tag and reference', 'rules', el('rule', el('class', from_tag='t', by_ref='k'), name='f'), names=('f',)),
        fault('class property and reference', 'rules', el('rule', el('class', property='gc:Ll', by_ref='k'), name='f'), names=('f',)),
        fault('class points and reference', 'rules', el('rule', el('class', (A,), by_ref='k'), name='f'), names=('f',)),
        fault('three in a difference', 'rules', el('difference', el('class', (A,)), el('class', (A,)), el('class', (A,)), name='f'), names=('f',)),
        fault('two in a complement', 'rules', el('complement', el('class', (A,)), el('class', (A,)), name='f'), names=('f',)),
        fault('rule reference', 'rules', el('rule', el('rule', by_ref='nope'), name='f'), names=('f',)),
        fault('rule to itself', 'rules', el('rule', el('rule', by_ref='f'), name='f'), names=('f',)),
        fault('class to itself', 'rules', el('union', el('class', by_ref='f'), el('class', (A,)), name='f'), names=('f',)),
        fault('rule without name', 'rules', el('rule', el('any')), names=(None,)),
        fault('rule name inside', 'rules', el('rule', el('rule', el('any'), name='in'), name='f'), names=('f', 'in')),
        fault('rule name and reference', 'rules', el('rule', name='f', by_ref='afterA'), names=('f',)),
        fault('rule content and reference', 'rules', el('rule', el('rule', el('any'), by_ref='afterA'), name='f'), names=('f',)),
        fault('rule class reference', 'rules', el('rule', el('class', by_ref='nope'), name='f'), names=('f',)),
        fault('property value', 'rules', el('rule', el('class', property='gc:NoSuch'), name='f'), names=('f',)),
        fault('action match and not-match', 'rules', el('action', disp='f', match='refs', not_match='whole'), disps=('f',)),
    ]
    return out


FAULTS = faults()


def inject(doc, faulty, positions):
    """
    Put faults in the document. A position is an index in the section of the fault.
    """
    out = {k: list(v) for k, v in doc.items()}
    todo = sorted(zip(faulty, positions), key=lambda x: -x[1])
    for f, pos in todo:
        if f['sect'] == 'references':
            i = [e[0] for e in out['meta']].index('references')
            kids = list(out['meta'][i][2])
            kids.insert(pos, f['elem'])
            out['meta'][i] = ('references', (), tuple(kids))
            continue
        sect = out[f['sect']]
        if f['replace']:
            sect[:] = [e for e in sect if e[0] != f['replace']]
        sect.insert(min(pos, len(sect)), f['elem'])
    return out


# every fault which is in the document can also be seen by what follows: the base has an overlapping range target
FBASE = dict(BASE, data=BASE['data'] + [el('char', cp=(0x72,), comment='in the way of a range')])
WIDTH = {'meta': len(FBASE['meta']), 'data': len(FBASE['data']), 'rules': len(FBASE['rules']), 'references': 2}


def masked(v, faulty):
    """What is left to look at when the parts which hold faults are set aside."""
    cps = {c for f in faulty for c in f['cps']}
    names = {n for f in faulty for n in f['names']}
    refs = {r for f in faulty for r in f['refs']}
    disps = {d for f in faulty for d in f['disps']}
    out = dict(v)
    out['chars'] = tuple(c for c in v['chars'] if not cps & set(c[0]))
    out['iter'] = tuple(c for c in v['iter'] if not cps & set(c))
    out['ranges'] = tuple(r for r in v['ranges'] if not cps & set(r))
    for k in ('rules', 'classes'):
        out[k] = tuple(n for n in v[k] if n not in names)
    for k in ('rule_objs', 'class_objs'):
        out[k] = tuple(n for n in v[k] if n[0] not in names and 'ft' not in str(n[0]) and 'gt' not in str(n[0]))
    out['refs'] = tuple(r for r in v['refs'] if r[0] not in refs)
    out['actions'] = tuple(a for a in v['actions'] if a[0] not in disps)
    md = list(v['meta'])
    for f in faulty:
        for m in f['meta']:
            md[META[m]] = None if m != 'languages' else md[META[m]][:1] if md[META[m]] and md[META[m]][0] == 'und-Latn' else ('und-Latn',) if 'und-Latn' in md[META[m]] else None
    out['meta'] = tuple(md)
    return out


def run_faults(ids, positions, st):
    from lgr.exceptions import LGRException
    faulty = [FAULTS[i] for i in ids]
    case = {'kind': 'faults', 'ids': ids, 'positions': positions, 'names': [f['name'] for f in faulty]}
    doc = inject(FBASE, faulty, positions)
    data = render(doc)
    st.step()
    st.evaluations += 1
    st.trace()
    try:
        S.parse_bytes(data, unidb=S.icu_db())
        st.violation('accepted:%s' % faulty[0]['name'], 'strict reading accepts a document with: %s' % case['names'], case)
    except LGRException as e:
        st.outcome(('refused', type(e).__name__, ids))
    except Exception as e:
        st.violation('strict-crash', 'strict reading of %s raises %s: %s' % (case['names'], type(e).__name__, e), case)
    try:
        lgr = S.parse_bytes(data, unidb=S.icu_db(), force=True)
    except Exception as e:
        return st.violation('forced-crash', 'forced reading of %s raises %s: %s' % (case['names'], type(e).__name__, e), case)
    got, want = masked(view(lgr), faulty), masked(base_view(), faulty)
    if got != want:
        # what a fault repeats may be in another order than in the base document: same content
        d = S.diff_snap(want, got)
        st.violation('forced-lost', 'forced reading of %s alters other parts: %r' % (case['names'], d), case)
    st.outcome((ids, repr(got)))


def base_view(memo={}):
    if 'v' not in memo:
        memo['v'] = view(built(FBASE))
    return memo['v']


def early(f):
    """First position at which the fault is one, or leaves the rest valid."""
    n = f['name']
    sect = FBASE[f['sect']] if f['sect'] != 'references' else None
    if n in ('same char', 'same sequence', 'char of a range', 'range over a char', 'range over a range'):
        return {'same char': 4, 'same sequence': 2, 'char of a range': 5, 'range over a char': 7, 'range over a range': 5}[n]
    if n.startswith('same reference 0'):
        return 1
    if n.startswith('same reference A-1'):
        return 2
    if f['sect'] == 'rules' and any(x in repr(f['elem']) for x in ("'k'", "'afterA'")):
        return 4
    return 0


def fault_cases(tier):
    out = []
    for i, f in enumerate(FAULTS):
        for pos in range(early(f), WIDTH[f['sect']] + 1):
            out.append(((i,), (pos,)))
    n = len(FAULTS)
    for i, j in itertools.combinations(range(n), 2):
        f, g = FAULTS[i], FAULTS[j]
        if set(f['cps']) & set(g['cps']) or set(f['names']) & set(g['names']) or (f['replace'] and f['replace'] == g['replace']):
            continue
        wf, wg = WIDTH[f['sect']], WIDTH[g['sect']]
        for p, q in {(early(f), early(g)), (early(f), wg), (wf, early(g)), (wf, wg)}:
            out.append(((i, j), (p, q)))
    if tier != 'quick':
        for t in itertools.combinations(range(n), 3):
            fs = [FAULTS[i] for i in t]
            if any(set(f['cps']) & set(g['cps']) or set(f['names']) & set(g['names']) or (f['replace'] and f['replace'] == g['replace'])
                   for f, g in itertools.combinations(fs, 2)):
                continue
            out.append((t, tuple(early(f) for f in fs)))
    return out


# -- structure: the schema -----------------------------------------------------------------------------------------------------

BROKEN = [
    ('data', el('char')), ('data', el('char', cp='61 zz')), ('data', el('char', cp='0061', unknown='x')), ('data', el('other')),
    ('data', el('range', first_cp=A)), ('data', el('char', el('var'), cp='0078')),
    ('meta', el('other')), ('meta', el('date', 'x')), ('meta', el('unicode-version', '6')), ('rules', el('other')), ('rules', el('rule')),
    ('rules', el('action')), ('rules', el('class')), ('rules', el('rule', el('other'), name='f')), ('data', el('char', el('char', cp=(A,)), cp=(0x78,))),
]


def run_schema(i, pos, st):
    from lgr.parser.xml_parser import XMLParser
    sect, elem = BROKEN[i]
    doc = {k: list(v) for k, v in BASE.items()}
    doc[sect].insert(pos, elem)
    case = {'kind': 'schema', 'i': i, 'pos': pos, 'elem': repr(elem)}
    p = XMLParser(io.BytesIO(render(doc)), 'x.xml')
    st.evaluations += 1
    st.step()
    st.trace()
    err = p.validate_document(schema())
    st.outcome(('schema', i, str(err)[:200]))
    if err is None:
        st.violation('schema-accepts', 'a document with %r in <%s> matches the schema' % (elem, sect), case)
    if p.rfc7940_checks.test_result.get('schema') is not False:
        st.violation('schema-recorded', 'the failure of the validation is not recorded', case)
    if sect != 'data' and 'other' in repr(elem):
        # an unknown element: nothing is lost but it, and the document is not reported as well read
        p = XMLParser(io.BytesIO(render(doc)), 'x.xml', force=True)
        p.unicode_database = S.icu_db()
        try:
            lgr = p.parse_document()
        except Exception as e:
            return st.violation('unknown-crash', 'reading %r in <%s> raises %s: %s' % (elem, sect, type(e).__name__, e), case)
        ignore = [fault('', sect, elem, names=('f',))]
        got, want = masked(view(lgr), ignore), masked(view(built(BASE)), ignore)
        if got != want:
            st.violation('unknown-lost', '%r in <%s> alters other parts: %r' % (elem, sect, S.diff_snap(want, got)), case)
        if lgr.metadata.rfc7940_checks.test_result.get('parse_xml') is not False:
            st.violation('unknown-recorded', 'the unknown element %r is not recorded' % (elem,), case)


# -- histories of one parser ---------------------------------------------------------------------------------------------------

CALLS = ['version', 'parse', 'validate', 'database']
SOURCES = ['bytes', 'path', 'pathlib', 'file']


def run_history(src, n, calls, st):
    import pathlib
    from lgr.parser.xml_parser import XMLParser
    doc = DOCS[n]
    case = {'kind': 'history', 'src': src, 'doc': n, 'calls': calls}
    tmp = tempfile.mkdtemp()
    f = None
    try:
        path = os.path.join(tmp, 'x.xml')
        with open(path, 'wb') as o:
            o.write(render(doc, meta=n != 1))
        f = open(path, 'rb') if src == 'file' else None
        source = {'bytes': lambda: io.BytesIO(open(path, 'rb').read()), 'path': lambda: path, 'pathlib': lambda: pathlib.Path(path), 'file': lambda: f}[src]()
        p = XMLParser(source, 'x.xml' if src in ('bytes', 'file') else None, force=False)
        unidb = None
        for i, c in enumerate(calls):
            st.step()
            st.evaluations += 1
            try:
                if c == 'version':
                    got, want = p.unicode_version(), '6.3.0'
                elif c == 'validate':
                    got, want = p.validate_document(schema()), None
                elif c == 'database':
                    unidb = S.icu_db()
                    p.unicode_database = unidb
                    continue
                else:
                    got = view(p.parse_document())
                    want = view(built(doc))
                    if p._lgr is not None and p._lgr.unicode_database is not unidb:
                        st.violation('history-db', 'the LGR read has not the database of the parser', case)
            except Exception as e:
                return st.violation('history-crash', 'call %d of %s on one parser raises %s: %s' % (i, calls, type(e).__name__, e), case)
            st.outcome(('history', c, repr(got)))
            if got != want:
                return st.violation('history', 'call %d of %s on one parser: %s' % (
                    i, calls, S.diff_snap(want, got) if isinstance(want, dict) else repr((got, want))), case)
        st.trace()
    finally:
        if f:
            f.close()
        shutil.rmtree(tmp)


# -- exploration -----------------------------------------------------------------------------------------------------------------

def cases(tier):
    out = []
    for n in range(1 if tier == 'quick' else len(DOCS)):
        # the order of languages and scopes is kept: no 'order' for the large document
        out += [('layout', n, m) for m in range(0, 2 ** len(CHOICES), 37 if n == 4 else 1) if n < 4 or not m >> CHOICES.index('order') & 1]
    if tier == 'quick':
        out += [('layout', n, m) for n in (1, 2, 3) for m in range(0, 2 ** len(CHOICES), 37)]
        out += [('layout', 4, m) for m in (0, 127, 0xBFF, 0x155, 0xAAA)]
    out += [('faults', i, p) for i, p in fault_cases(tier)]
    out += [('schema', i, p) for i in range(len(BROKEN)) for p in range(len(BASE[BROKEN[i][0]]) + 1)]
    out += [('history', s, n, c) for s in SOURCES for n in range(3) for k in range(1, 4 if tier == 'quick' else 5)
            for c in itertools.product(CALLS, repeat=k)]
    return out


def shards(tier):
    n = 48 if tier == 'quick' else 512
    return [[k, n] for k in range(n)]


def run_case(c, st):
    if c[0] == 'layout':
        run_layout(c[1], c[2], st)
    elif c[0] == 'faults':
        run_faults(c[1], c[2], st)
    elif c[0] == 'schema':
        run_schema(c[1], c[2], st)
    else:
        run_history(c[1], c[2], c[3], st)


def run_shard(shard, st):
    k, mod = shard
    cs = cases(st.tier)
    for n in range(k, len(cs), mod):
        st.state(cs[n])
        st.count(cs[n][0])
        run_case(cs[n], st)
    if k == 0:
        st.sample({'cases': len(cs), 'document': render(BASE, CHOICES[:5]).decode()[:600]})


def replay(case, st):
    case = S.from_json(case)
    k = case['kind']
    if k == 'layout':
        run_layout(case['doc'], case['mask'], st)
    elif k == 'faults':
        run_faults(tuple(case['ids']), tuple(case['positions']), st)
    elif k == 'schema':
        run_schema(case['i'], case['pos'], st)
    else:
        run_history(case['src'], case['doc'], case['calls'], st)
