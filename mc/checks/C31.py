# -*- coding: utf-8 -*-
"""
C31 - the command-line tools do, on files, what the library does on LGRs and labels.

Space: for every tool, every combination of its options, of documents (all kinds of content, unreadable ones, ones which do not match the
schema), and of short lists of labels. The tool is run in the process with files of a scratch folder; what it prints and writes is compared
with what the LGRs, read on their own, say. A run of each tool in a process of its own binds this to the real command.
"""
import contextlib
import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from mc import common
from mc import lgrspec as S
from mc.model import Model

PROPERTY = 'C31'
LEVEL = 'model_checking'
RULE = 'a case is one run of a tool with given arguments, files and input; non trivial = distinct outputs'
A, B, C, D, X = [ord(c) for c in 'abcdx']
TYPED = S.action('typed', any=('t',))


def doc(n, lang=None, version=None):
    m = {'unicode_version': '15.1.0' if n != 'c' else '6.3.0'}
    if lang:
        m['languages'] = (lang,) if isinstance(lang, str) else lang
    if version:
        m['version'] = version
    if n == 'a':        # variants of several types, no action
        return S.spec([S.char((A,), [S.var((B,), 'blocked')]), S.char((B,), [S.var((A,), 'allocatable')]), S.char((C,)),
                       S.char((C, D), [S.var((A,), 't')]), S.char((D,), [S.var((D,), 'r')])], meta=m)
    if n == 'b':        # conditions, rules, actions, references
        return S.spec([S.char((A,), [S.var((C,), 't', when='afterB'), S.var((B,), 'allocatable')], refs=('0',), comment='<&>'),
                       S.char((B,), [S.var((A,), 't')], tags=('k',)), S.char((C,), [S.var((A,), 'blocked')], when='afterB')],
                      rules=[('afterB', [('behind', (('char', (B,), None),)), ('anchor',)]), ('twoB', [('char', (B,), None), ('char', (B,), None)])],
                      actions=[S.action('invalid', match='twoB'), TYPED, S.action('blocked', any=('blocked',))], refs=[('0', 'zero', 'rc')],
                      meta=dict(m, description='a & b', description_type='text/plain'))
    if n == 'c':        # ranges, out of repertoire variants, another version of Unicode
        return S.spec([S.rng(A, C), S.char((X,), [S.var((A,), 'allocatable'), S.var((X,), 'out-of-repertoire-var')], tags=('k',))],
                      classes=[('kk', ('tag', 'k'))], actions=[S.action('invalid', only=('allocatable',))], meta=m)
    if n == 'd':        # variants across: collisions of labels of other LGRs
        return S.spec([S.char((D,), [S.var((A,), 'blocked')]), S.char((X,), [S.var((X,), 'r')]), S.char((A,), [S.var((D,), 'blocked')])], meta=m)
    if n == 'e':        # the least
        return S.spec([S.char((0x65,))], meta=m)


# name of the file -> document; the same name is in another folder
DOCS = {'a.xml': doc('a', 'und-Latn'), 'b.xml': doc('b', 'und-Cyrl', '2'), 'c': doc('c', 'und-Grek', '1.0'), 'd.xml': doc('d', 'und-Arab'), 'e.xml': doc('e'),
        'same/a.xml': doc('d', 'und-Cyrl'), 'latn.xml': doc('c', 'und-Latn'), 'multi.xml': doc('d', ('und-Thai', 'und-Latn'))}
RAW = {'other.xml': '<foo xmlns="%s"/>' % S.LGR_NS, 'broken.xml': S.to_xml(DOCS['a.xml'])[:-9],
       'schema.xml': S.to_xml(DOCS['a.xml']).replace('</data>', '<char/></data>').replace('<char/>', '<foo/>')}
GOOD = list(DOCS)
BAD = list(RAW)
LINES = ['a', 'b', 'c', 'ab', 'cd', 'bb', 'z', '# a', ' a # note', '', 'U+0061 U+0062', 'xn--99999999', 'd', 'x']
STDIN = ['a', 'b', 'ab', 'bb', 'cd', 'z', 'x', 'd']
TOOLS = ('xml_dump.py', 'lgr_merge_set.py', 'lgr_populate_variants.py', 'lgr_compare.py', 'lgr_annotate.py', 'lgr_diff_collisions.py', 'lgr_validate.py',
         'lgr_cli.py', 'lgr_collision.py', 'lgr_harmonize', 'lgr_idn_table_review.py', 'rfc7940_validate.py', 'one_per_line_dump.py', 'rfc3743_dump.py',
         'rfc4290_dump.py', 'make_idna_repertoire.py')
BOUNDS = {'quick': '%d tools x options x %d documents (pairs, triples where the tool takes several) x label files of <= 2 of %d lines or inputs of <= 2 of %d labels' % (
              len(TOOLS), len(GOOD) + len(BAD), len(LINES), len(STDIN)),
          'thorough': 'label files and inputs of <= 3 lines'}
ASSUMPTIONS = ['the labels of a set do not collide with one another (the tool which validates labels says that they must be checked)', 'the library does on LGRs what the other properties say; here: that a tool applies it to the right arguments, and writes all of it',
               'the registry of IDNA tables is a local file']
LIBS = []
KEEP = {}


def libs():
    import glob
    if not LIBS:
        lib = lambda n: sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libicu%s.so.[0-9]*' % n), key=len)[0]
        uc = lib('uc')
        LIBS.append('#'.join((uc, lib('i18n'), uc.rsplit('.', 1)[1])))
    return LIBS[0]


class Manager(object):
    """Gives the database of the check instead of loading one for each run."""
    def register(self, version, *args):
        assert '#'.join(args) == libs() and version is None
        return S.icu_db()


RNG = os.path.join(common.REPO, 'resources', 'lgr.rng')


@contextlib.contextmanager
def scratch():
    if 'dir' in KEEP:
        yield KEEP['dir']
        return
    d = tempfile.mkdtemp(prefix='c31-')
    KEEP['dir'] = d
    old = tempfile.tempdir
    tempfile.tempdir = d
    try:
        os.mkdir(d + '/same')
        for n, sp in DOCS.items():
            put(n, S.to_xml(sp))
        for n, t in RAW.items():
            put(n, t)
        yield d
    finally:
        del KEEP['dir']
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


def path(n):
    return os.path.join(KEEP['dir'], n)


def put(n, text):
    with io.open(path(n), 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return path(n)


def tool(name, args, stdin=''):
    """Run a tool: (what it prints, exception)."""
    import lgr.tools.utils as u
    file = os.path.join(common.REPO, 'tools', name)
    if name not in KEEP:
        with io.open(file, encoding='utf-8') as f:
            KEEP[name] = compile(f.read(), file, 'exec')
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, u.UnicodeDataVersionManager
    out = io.StringIO()
    sys.argv, sys.stdin, sys.stdout, sys.stderr, u.UnicodeDataVersionManager = [file] + list(args), io.StringIO(stdin), out, io.StringIO(), Manager
    error = None
    try:
        ns = {'__name__': 'tool', '__file__': file}
        exec(KEEP[name], ns)
        if name == 'make_idna_repertoire.py':
            ns['IDNATABLES_URL'] = 'file://' + path('idna-{version}.xml')
        ns['main']()
    except (Exception, SystemExit) as e:
        error = e
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr, u.UnicodeDataVersionManager = old
    return out.getvalue(), error


def read(n, db=True):
    """The LGR of a file; a new one each time."""
    from lgr.parser.xml_parser import XMLParser
    p = XMLParser(path(n))
    if db:
        p.unicode_database = S.icu_db()
    return p.parse_document()


def reread(text):
    from lgr.parser.xml_parser import XMLParser
    return XMLParser(io.BytesIO(text.encode('utf-8') if not isinstance(text, bytes) else text), 'x').parse_document()


def same(lgr, other):
    a, b = [{k: re.sub(r'>(\\n|\s)+<', '><', repr(v)) for k, v in S.snapshot(l).items() if k != 'name'} for l in (lgr, other)]
    return S.diff_snap(a, b)    # but for the name of the file, and how rules are laid out


class Case(object):
    def __init__(self, st, name, args, stdin=''):
        self.st, self.name, self.args, self.stdin = st, name, args, stdin

    def run(self):
        self.st.step()
        self.st.evaluations += 1
        self.st.trace()
        out, error = tool(self.name, self.args, self.stdin)
        self.st.outcome((self.name, out))
        return out, error

    def fail(self, key, what):
        self.st.violation('%s:%s' % (self.name.split('.')[0], key), '%s %s %r: %s' % (self.name, ' '.join(self.args), self.stdin, what), {
            'name': self.name, 'n': self.n})

    def document(self, text, want, made=True):
        """text is an XML document of the LGR wanted."""
        try:
            got = reread(text)
        except Exception as e:
            return self.fail('document', 'what it writes is not an LGR (%s): %.200r' % (type(e).__name__, text))
        if made:        # by the tool: an LGR may have rules which only are in its document
            from lgr.parser.xml_serializer import serialize_lgr_xml
            want = reread(serialize_lgr_xml(want))
        d = same(want, got)
        if d:
            self.fail('content', 'what it writes is not the LGR expected: %r' % (d,))

    def text(self, out, want):
        if out != want:
            i = next((i for i, (p, q) in enumerate(zip(out, want)) if p != q), min(len(out), len(want)))
            self.fail('output', 'prints %r instead of %r' % (out[max(0, i - 60):i + 200], want[max(0, i - 60):i + 200]))

    def refused(self, out, error, written=()):
        """Nothing of a document which cannot be read."""
        from lgr.exceptions import LGRException
        from lxml.etree import LxmlError
        if error is not None and not isinstance(error, (LGRException, LxmlError)):
            self.fail('crash-refused', 'raises %s: %s' % (type(error).__name__, error))
        elif out.strip() or any(os.path.exists(w) for w in written):
            self.fail('refused', 'goes on with a document which it cannot read: %.200r' % out)

    def done(self, error):
        if error is not None:
            self.fail('crash', 'raises %s: %s' % (type(error).__name__, error))
        return error is None


def unread(docs, rng):
    return any(d in ('other.xml', 'broken.xml') or d == 'schema.xml' and rng for d in docs)


def rngs(on):
    return ['-r', RNG] if on else []


# -- tools which make documents ---------------------------------------------------------------------------------------------------

def xml_dump(tier):
    return itertools.product(GOOD + BAD, (0, 1), (0, 1), (0, 1))


def run_xml_dump(case, d, rng, output, verbose):
    out = path('out.xml')
    case.args = rngs(rng) + (['-o', out] if output else []) + (['-v'] if verbose else []) + [path(d)]
    text, error = case.run()
    if unread([d], rng):
        return case.refused(text, error, [out])
    if not case.done(error):
        return
    want = read(d, False)
    chars = ''.join('%s\n' % c for c in want.repertoire) if verbose else ''
    if not text.startswith(chars):
        return case.fail('verbose', 'does not list the code points: %.200r' % text)
    text = text[len(chars):]
    if output:
        case.text(text, '')
        if os.path.exists(out):
            with io.open(out, 'rb') as f:
                text = f.read()
    case.document(text, want, False)


def merge_set(tier):
    sets = [s for k in (1, 2, 3) for s in itertools.permutations(GOOD + BAD[:2], k) if k < 3 or s[0] in ('a.xml', 'c') and tier != 'quick' or s[:2] == ('b.xml', 'a.xml')]
    return itertools.product(sets, (0, 1), (0, 1), (0, 1))


def run_merge_set(case, docs, name, rng, icu):
    from lgr.tools.merge_set import merge_lgr_set
    case.args = [x for d in docs for x in ('-s', path(d))] + (['-n', 'merged'] if name else []) + rngs(rng) + (['-l', libs()] if icu else [])
    text, error = case.run()
    if len(docs) < 2:
        return case.refused(text, error)
    if unread(docs, 0):
        return case.refused(text, error)
    try:
        want = merge_lgr_set([read(d, icu) for d in docs], 'x')
    except Exception as e:
        if type(error) is not type(e):
            case.fail('error', 'raises %r instead of %r' % (error, e))
        return
    if case.done(error):
        case.document(text, want)


def populate(tier):
    return itertools.product(GOOD + BAD, (0, 1))


def run_populate(case, d, rng):
    case.args = ['-l', libs(), '-x', path(d)] + rngs(rng)
    text, error = case.run()
    if unread([d], rng):
        return case.refused(text, error)
    want = read(d)
    try:
        want.populate_variants()
    except Exception as e:
        if type(error) is not type(e):
            case.fail('error', 'raises %r instead of %r' % (error, e))
        return
    if case.done(error):
        case.document(text, want)


def compare(tier):
    single = itertools.product(GOOD + BAD, GOOD + BAD)
    sets = [('a.xml', 'b.xml'), ('b.xml', 'd.xml'), ('c', 'latn.xml'), ('a.xml', 'b.xml', 'c'), ('a.xml', 'other.xml')]
    return itertools.product([((p,), (q,)) for p, q in single] + [(p, q) for p in sets for q in sets] + [(sets[0], ('a.xml',)), (('a.xml',), sets[0])],
                             ('INTERSECT', 'UNION', 'DIFF'), (0, 1), (0, 1))


def run_compare(case, pair, action, generate, rng):
    from lgr.tools import compare as T
    from lgr.tools.merge_set import merge_lgr_set
    first, second = pair
    names = ['-n1', 'one', '-n2', 'two'] if len(first) > 1 and generate else []
    case.args = [x for d in first for x in ('-1', path(d))] + [x for d in second for x in ('-2', path(d))] + (['-g'] if generate else []) + rngs(rng) + names + [action]
    text, error = case.run()
    several = len(first) > 1 or len(second) > 1
    if len(first) != len(second) and 1 in (len(first), len(second)) or several and action != 'DIFF' or unread(first + second, rng and not several):
        return case.refused(text, error)
    if not case.done(error):
        return
    one, two = [read(d, False) for d in first], [read(d, False) for d in second]
    if several:
        want = T.diff_lgr_sets(merge_lgr_set(one, 'one' if names else 'merged-lgr-set'), merge_lgr_set(two, 'two' if names else 'merged-lgr-set'), one, two, bool(generate))
        # the order in which the members of a set are read may show
        case.text(text, want + '\n')
    elif action == 'DIFF':
        case.text(text, T.diff_lgrs(one[0], two[0], bool(generate)) + '\n')
    else:
        case.document(text, (T.union_lgrs if action == 'UNION' else T.intersect_lgrs)(one[0], two[0]))


def harmonized(tier):
    docs = ['a.xml', 'b.xml', 'c', 'd.xml', 'same/a.xml', 'other.xml', 'schema.xml']
    return itertools.product(docs, docs, [None, 'd.xml', 'b.xml', 'other.xml'], (0, 1))


def run_harmonized(case, first, second, root, rng):
    from lgr.tools.harmonize import harmonize
    from lgr.utils import format_cp
    shutil.rmtree(path('out'), ignore_errors=True)
    os.mkdir(path('out'))
    case.args = ['-l', libs(), '-1', path(first), '-2', path(second)] + (['-z', path(root)] if root else []) + rngs(rng) + [path('out')]
    text, error = case.run()
    written = sorted(os.listdir(path('out')))
    if unread([first, second] + [root] * bool(root), rng):
        return case.refused(text + ''.join(written), error)
    want = read(first), read(second)
    try:
        one, two, reviews = harmonize(want[0], want[1], read(root) if root else None)
    except Exception as e:
        if type(error) is not type(e):
            case.fail('error', 'raises %r instead of %r' % (error, e))
        return
    if not case.done(error):
        return
    documents = []
    for w in written:
        with io.open(os.path.join(path('out'), w), 'rb') as f:
            documents.append(reread(f.read()))
    match = [[not same(l, d) for d in documents] for l in (one, two)]
    if len(written) != 2 or not (match[0][0] and match[1][1] or match[0][1] and match[1][0]):
        case.fail('files', 'the files %r are not both the harmonised LGRs' % (written,))
    lines = text.splitlines()
    titles = ['Manual review needed for code points from %s LGR:' % n for n in ('first', 'second')]
    if [l for l in lines if l in titles] != titles or lines[:1] != titles[:1]:
        return case.fail('titles', repr(text))
    i = lines.index(titles[1])
    for got, review in ((lines[1:i], reviews[0]), (lines[i + 1:], reviews[1])):
        if sorted(got) != sorted('- %s (%s)' % (format_cp(c), ''.join(map(chr, c))) for c in review):
            case.fail('review', 'lists %r to review instead of %r' % (got, review))


def text_dump(tier):
    lines = {'one_per_line_dump.py': ['U+0061', '0062', 'U+0061 U+0062', '# x', 'zzz', 'U+0061 # again'],
             'rfc3743_dump.py': ['Reference 1 A B', 'Version 1 20020701', 'U+0061;U+0062;U+0063', '0061;;', 'zzz', 'U+0062(1);U+0062(1);'],
             'rfc4290_dump.py': ['U+0061', 'U+0061|U+0062:U+0063', 'U+0062|U+0061', '# c', 'zzz', '0063']}
    for name, pool in lines.items():
        for k in range(0, 4 if tier != 'quick' else 3):
            for t in itertools.product(pool, repeat=k):
                for output in (0, 1):
                    yield name, t, output


def run_text_dump(case, name, lines, output):
    from lgr.parser.line_parser import LineParser
    from lgr.parser.rfc3743_parser import RFC3743Parser
    from lgr.parser.rfc4290_parser import RFC4290Parser
    case.name = name
    file, out = put('table.txt', ''.join(l + '\n' for l in lines)), path('table.xml')
    if os.path.exists(out):
        os.remove(out)
    case.args = (['-o', out] if output else []) + [file]
    case.stdin = '\n'.join(lines)
    text, error = case.run()
    if not case.done(error):
        return
    if output:
        case.text(text, '')
        if os.path.exists(out):
            with io.open(out, 'rb') as f:
                text = f.read()
    case.document(text, {'o': LineParser, '3': RFC3743Parser, '4': RFC4290Parser}[name[0] if name[0] == 'o' else name[3]](file).parse_document())


IDNA = [('0061', 'PVALID'), ('0061-0063', 'PVALID'), ('0041', 'DISALLOWED'), ('0100-0110', 'DISALLOWED'), ('200C-200D', 'CONTEXTJ'), ('00B7', 'CONTEXTO'),
        ('0378-0379', 'UNASSIGNED'), ('10FFFE-10FFFF', 'UNASSIGNED'), ('20000-20001', 'PVALID'), ('0660', 'CONTEXTO')]


def idna(tier):
    return itertools.product([s for k in range(0, 5 if tier != 'quick' else 4) for s in itertools.combinations(range(1, len(IDNA)), k)] + [(0, 4), (0,)],
                             ('5.2.0', '6.0.0', '6.1.0', '12.0.0'))


def run_idna(case, rows, version):
    other = 'idna-tables-properties' if version <= '6.0.0' and not version.startswith('1') else 'idna-tables-%s-properties' % version
    right = 'idna-tables-%s-properties' % version if other == 'idna-tables-properties' else 'idna-tables-properties'
    record = lambda c, p: '<record><codepoint>%s</codepoint><property>%s</property><description>d</description></record>' % (c, p)
    put('idna-%s.xml' % version, '<registry xmlns="http://www.iana.org/assignments" id="idna"><title>t</title><registry id="%s">%s</registry><registry id="%s">%s</registry></registry>' % (
        other, record('007A', 'PVALID'), right, ''.join(record(*IDNA[r]) for r in rows)))
    case.args = [version]
    text, error = case.run()
    if not case.done(error):
        return
    want = set()
    for r in rows:
        if IDNA[r][1] in ('PVALID', 'CONTEXTO', 'CONTEXTJ'):
            ends = [int(x, 16) for x in IDNA[r][0].split('-')]
            want |= set(range(ends[0], ends[-1] + 1))
    try:
        lgr = reread(text)
    except Exception as e:
        return case.fail('document', 'what it writes is not an LGR (%s): %.200r' % (type(e).__name__, text))
    lgr.expand_ranges()
    got = sorted(c.cp for c in lgr.repertoire)
    if got != [(c,) for c in sorted(want)]:
        case.fail('repertoire', 'rows %r give %r instead of %r' % ([IDNA[r] for r in rows], got, sorted(want)))


# -- tools on labels ------------------------------------------------------------------------------------------------------------------

def files(tier, n=None):
    n = n or (3 if tier != 'quick' else 2)
    return [t for k in range(0, n + 1) for t in itertools.product(LINES, repeat=k)]


def inputs(tier):
    return [t for k in range(0, 4 if tier != 'quick' else 3) for t in itertools.product(STDIN, repeat=k)]


def annotated(tier):
    some = files(tier, 1) + [('a', 'b'), ('z', 'ab', 'a'), ('x', '# c', 'd')]
    single = ((('%s' % d,), None, None, f, r) for d in GOOD + BAD for r in (0, 1) for f in (files(tier) if r == 0 and d in ('a.xml', 'b.xml') else some))
    sets = ((docs, script, s, f, 0) for docs in [('a.xml', 'd.xml'), ('d.xml', 'b.xml', 'a.xml'), ('a.xml', 'latn.xml'), ('a.xml', 'e.xml'), ('a.xml', 'multi.xml'), ('a.xml', 'other.xml')]
            for script in ('und-Latn', 'und-Arab', None, 'fr') for s in [None] + some for f in some)
    return itertools.chain(single, sets)


def setting(docs, script):
    """The merged LGR and the one of the script, the last given; None when the arguments are refused."""
    from lgr.tools.merge_set import merge_lgr_set
    if unread(docs, 0) or script is None:
        return None
    lgrs = [read(d) for d in docs]
    mine = [l for l in lgrs if l.metadata.languages[:1] == [script]]
    if not mine:
        return None
    merged = merge_lgr_set(list(lgrs), 'merged-lgr-set')
    merged.unicode_database = S.icu_db()
    return merged, mine[-1]


def run_annotated(case, docs, script, labels, lines, rng):
    from lgr.tools.annotate import annotate, lgr_set_annotate
    out = path('annotated.txt')
    if os.path.exists(out):
        os.remove(out)
    file = put('labels.txt', ''.join(l + '\n' for l in lines))
    case.args = ['-l', libs(), '-o', out] + [x for d in docs for x in ('-x', path(d))] + (['-s', script] if script else []) + rngs(rng)
    if labels is not None:
        case.args += ['-f', put('set.txt', ''.join(l + '\n' for l in labels))]
    case.args.append(file)
    case.stdin = '\n'.join(lines) + (' / %r' % (labels,) if labels else '')
    text, error = case.run()
    if len(docs) == 1:
        if unread(docs, rng):
            return case.refused(text, error, [out])
        want = ''.join(annotate(read(docs[0]), [l + '\n' for l in lines]))
    else:
        s = setting(docs, script)
        if s is None:
            return case.refused(text, error, [out])
        want = ''.join(lgr_set_annotate(s[0], s[1], [l + '\n' for l in labels or ()], [l + '\n' for l in lines]))
    if case.done(error):
        case.text(text, '')
        if not os.path.exists(out):
            return case.fail('nothing', 'writes nothing instead of %.300r' % want)
        with io.open(out, encoding='utf-8') as f:
            case.text(f.read(), want)


def diffcol(tier):
    pairs = [(p, q) for p in ('a.xml', 'b.xml', 'c', 'other.xml') for q in (None, 'a.xml', 'b.xml', 'd.xml', 'schema.xml')]
    return itertools.product(pairs, files(tier, 1) + [('a', 'b'), ('b', 'ab', 'a'), ('z', 'cd', 'a'), ('bb', 'x'), ('xn--99999999', '# c', 'c')], (0, 1), (0, 1), (0, 1))


def run_diffcol(case, pair, lines, generate, quiet, rng):
    from lgr.tools.diff_collisions import diff, collision
    first, second = pair
    case.args = ['-l', libs(), '-1', path(first), '-s', put('labels.txt', ''.join(l + '\n' for l in lines))] + (['-2', path(second)] if second else []) + \
                (['-g'] if generate else []) + (['-n'] if quiet else []) + rngs(rng)
    case.stdin = '\n'.join(lines)
    text, error = case.run()
    head = '' if second else 'No second LGR, will only output collisions\n'
    if unread([d for d in pair if d], rng):
        return case.refused(text[len(head):] if text.startswith(head) else text, error)
    labels = [l + '\n' for l in lines]
    try:
        if second:
            parts = list(diff(read(first), read(second), labels, True, bool(generate), bool(quiet)))
        else:
            parts = list(collision(read(first), labels, None, bool(generate), bool(quiet)))
    except Exception as e:
        if type(error) is not type(e):
            case.fail('error', 'raises %r instead of %r' % (error, e))
        return
    if case.done(error):
        case.text(text, head + ''.join(p + '\n' for p in parts))


def hexs(cps):
    return ' '.join('U+%04X' % c for c in cps)


def validated(tier):
    single = (((d,), None, None, g, i) for d in GOOD + BAD for g in (0, 1) for i in (inputs(tier) if d in ('a.xml', 'b.xml') else inputs('quick')[:1 + len(STDIN)]))
    some = [None, (), ('a',), ('d',), ('bb',), ('z', 'cd'), ('# a', 'x'), ('xn--99999999', 'ab')]
    sets = ((docs, script, s, g, i) for docs in [('a.xml', 'd.xml'), ('d.xml', 'b.xml', 'a.xml'), ('a.xml', 'multi.xml'), ('a.xml', 'latn.xml'), ('a.xml', 'other.xml')]
            for script in ('und-Latn', 'und-Arab', None, 'fr') for s in some for g in (0, 1) for i in inputs('quick')[:1 + len(STDIN)] + [('a', 'd')])
    return itertools.chain(single, sets)


def run_validated(case, docs, script, labels, generate, given):
    case.args = ['-l', libs()] + [x for d in docs for x in ('-x', path(d))] + (['-s', script] if script else []) + (['-g'] if generate else [])
    if labels is not None:
        case.args += ['-f', put('set.txt', ''.join(l + '\n' for l in labels))]
    case.stdin = ''.join(l + '\n' for l in given)
    text, error = case.run()
    merged, out, delegated = None, [], []
    if len(docs) == 1:
        if unread(docs, 0):
            return case.refused(text, error)
        lgr = read(docs[0])
    else:
        s = setting(docs, script)
        if s is None:
            return case.refused(text, error)
        merged, lgr = s
        from lgr.tools.utils import read_labels
        out.append('# The following labels from the set labels are invalid\n\n')
        for _, l, valid, why in read_labels(labels or (), S.icu_db()):
            if not valid:
                out.append('%s: %s\n\n' % (l, why))
            elif not merged.test_label_eligible([ord(c) for c in l])[0] and not indexed(merged, l):
                out.append('%s: Not in LGR %s\n\n' % (l, merged))
            else:
                delegated.append(l)
        out.append('# End of filtered set labels\n\n\n')
    if not case.done(error):
        return
    for l in given:
        cps = tuple(map(ord, l))
        ok, parts, invalid, disp, _, _ = lgr.test_label_eligible(cps)
        out.append('\nLabel: %s [%s]\n\tEligible: %s\n\tDisposition: %s\n' % (l, hexs(cps), ok, disp))
        if not ok:
            out.append('- Valid code points from label: %s\n' % ' '.join('%04X' % c for c in parts))
            if invalid:
                out.append('- Invalid code points from label: %s\n' % ' '.join(
                    '%04X (%s)' % (c, 'not in repertoire' if rules is None else ','.join(rules)) for c, rules in invalid))
            continue
        if merged and delegated:
            out.append('Collisions:\n')
            hits = [d for d in delegated if indexed(merged, d) == indexed(merged, l)]
            if l in delegated:
                out.append('Labels is in the LGR set labels\n')
            elif not hits:
                out.append('\tNone\n')
            else:
                out.append("Label collides with LGR set label '%s'\n" % hits[0])
        if generate:
            out.append('Variants:\n')
            for v, d, *_ in lgr.compute_label_disposition(cps):
                out.append("\tVariant %s [%s]\n\t- Disposition: '%s'\n" % (''.join(map(chr, v)), hexs(v), d))
    case.text(text, ''.join(out))


def indexed(lgr, l):
    from lgr.exceptions import NotInLGR
    try:
        return lgr.generate_index_label(tuple(map(ord, l)))
    except NotInLGR:
        return None


def cli(tier):
    for d in GOOD + BAD:
        for msr, i, t, c in itertools.product((None, 'c', 'b.xml'), (0, 1), (0, 1), (0, 1)):
            for how in [('stdin', x) for x in (inputs(tier) if d in ('a.xml', 'b.xml') and t and c and not msr else inputs('quick')[:2 + len(STDIN)])] + [('hex', x) for x in ('0061', '0062 0062', '007A')]:
                if how[0] == 'hex' or t:
                    yield d, msr, i, t, c, how, 0
        for t, c in itertools.product((0, 1), (0, 1)):
            yield d, None, 0, t, c, ('stdin', ('a', 'z')), 1


def run_cli(case, d, msr, invalid, test, check, how, rng):
    case.args = ['-l', libs(), '-u', '15.1.0'] + rngs(rng) + (['-m', path(msr)] if msr else []) + (['-i'] if invalid else []) + (['-t'] if test else []) + (['-c'] if check else []) + [path(d)]
    if how[0] == 'hex':
        case.args.append(how[1])
        given = [''.join(chr(int(x, 16)) for x in how[1].split())]
    else:
        given = list(how[1])
        case.stdin = ''.join(l + '\n' for l in given)
    text, error = case.run()
    if unread([d], rng):
        return case.refused(text, error)
    if not case.done(error):
        return
    lgr = read(d)
    out = []

    def action(i):
        return 'Action[%d]' % i if i < len(lgr.actions) else 'DefaultAction[%d]' % (i - len(lgr.actions))
    for l in given if check and test else ():
        cps = tuple(map(ord, l))
        ok, _, _, disp, idx, _ = lgr.test_label_eligible(cps)
        shown = '%s (%s)' % (l, ' '.join('%04X' % c for c in cps))
        out.append('Validation: %s: Result: %s\n' % (shown, 'valid' if ok else 'INVALID'))
        if ok:
            out.append('Disposition: %s: Result: %s due to %s\n' % (shown, disp, action(idx)))
            for v, vdisp, _, vidx, types, _ in lgr.compute_label_disposition(cps, include_invalid=bool(invalid)):
                out.append('Variant: (%s): [{%s}] ==> %s due to %s\n' % (' '.join('%04X' % c for c in v), ','.join(types), vdisp, action(vidx)))
    case.text(text, ''.join(out))


def collisions(tier):
    refs = files(tier, 1)[:9] + [('a', 'c'), ('a', 'b'), ('b', 'a', 'c'), ('cd', 'z', 'a'), ('ab', 'bb', 'ba'), (' b', 'a ', 'ab\u3000')]
    refs = [r for r in refs if not any('#' in l for l in r)]
    return ((d, r, g, i) for d in GOOD + BAD for r in refs for g in (0, 1) for i in (inputs(tier) if d == 'a.xml' else inputs('quick')[:1 + len(STDIN)]))


def run_collisions(case, d, refs, generate, given):
    case.args = ['-l', libs(), '-s', put('refs.txt', ''.join(l + '\n' for l in refs))] + (['-g'] if generate else []) + [path(d)]
    case.stdin = ''.join(l + '\n' for l in given)
    text, error = case.run()
    if unread([d], 0):
        return case.refused(text, error)
    if not case.done(error):
        return
    lgr = read(d)
    got = {}
    for l, block in re.findall(r"Check label '(.*)'\n((?:(?!Check label).*\n)*)", text):
        got.setdefault(l, []).append(block)
    if sorted(got) != sorted(set(given)) or sum(map(len, got.values())) != len(given):
        return case.fail('labels', 'prints %.300r' % text)
    for l, blocks in got.items():
        cps = tuple(map(ord, l))
        index = indexed(lgr, l)
        hits = [r for r in dict.fromkeys(x.strip() for x in refs) if index is not None and indexed(lgr, r) == index]
        for block in blocks:
            found = re.findall(r"^Collision for label '(.*)' \[(.*)\] with '(.*)' \[(.*)\]$", block, re.M)
            if sorted(set(found)) != sorted((l, hexs(cps), r, hexs(map(ord, r))) for r in hits):
                case.fail('collision', 'says that %r collides with %r instead of %r' % (l, found, hits))
            if index is not None and not hits and 'No collision for label %s [%s]' % (l, hexs(cps)) not in block:
                case.fail('none', 'does not say that %r does not collide: %r' % (l, block))
            want = set()
            if generate:
                for r in hits:
                    if lgr.test_label_eligible(cps)[0]:
                        others = {v for v, *_ in lgr.compute_label_disposition(tuple(map(ord, r)), include_invalid=True)} - {tuple(map(ord, r))}
                        want |= {(v, disp) for v, disp, *_ in lgr.compute_label_disposition(cps) if v in others}
            blocked = set(re.findall(r"^Variant '(.*)' \[.*\] with disposition set '.*' should be blocked \(current disposition :(.*)\)$", block, re.M))
            if not {(''.join(map(chr, v)), disp) for v, disp in want} <= blocked:
                case.fail('blocked', 'of the variants of %r lists %r to block instead of %r' % (l, blocked, want))
            if not generate and blocked:
                case.fail('generate', 'generates variants when not asked: %r' % block)


# -- reports ----------------------------------------------------------------------------------------------------------------------------

def review(tier):
    ts = [('a.xml',), ('c',), ('b.xml', 'd.xml'), ('other.xml', 'a.xml'), ('schema.xml',), ('e.xml',), ('a.xml', 'same/a.xml', 'a.xml')]
    return itertools.product(ts, ts, (0, 1))


def run_review(case, tables, references, rng):
    from lgr.tools.idn_review.review import review_lgr
    shutil.rmtree(path('reports'), ignore_errors=True)
    case.args = ['-l', libs(), '-o', path('reports'), '-t'] + [path(t) for t in tables] + ['-x'] + [path(r) for r in references] + rngs(rng)
    text, error = case.run()
    if not case.done(error):
        return
    ok = lambda docs: [d for d in docs if not unread([d], rng)]
    wanted = {}
    for t, r in itertools.product(ok(dict.fromkeys(tables)), ok(dict.fromkeys(references))):
        wanted.setdefault('%s_%s' % (os.path.basename(t), os.path.basename(r)), []).append(json.loads(json.dumps(review_lgr(read(t), read(r)), default=str)))
    got = {}
    for n in sorted(os.listdir(path('reports'))):
        with io.open(path('reports/' + n), encoding='utf-8') as f:
            got.setdefault(re.match(r'(.*?)(_\d+)?\.json$', n).group(1), []).append(json.load(f))
    if {n: len(x) for n, x in got.items()} != {n: len(x) for n, x in wanted.items()}:
        return case.fail('files', 'writes %r' % sorted(os.listdir(path('reports'))))
    text = lambda reports: sorted(json.dumps(r, sort_keys=True) for r in reports)     # in any order, when several have the same name
    for n in wanted:
        if text(got[n]) != text(wanted[n]):
            case.fail('report', 'the reports %s are other ones' % n)


POLICY = {'validity_end_expiry': 'ERROR', 'validity_start_end': 'ERROR', 'validity_started': 'ERROR', 'metadata_description_type': 'ERROR', 'metadata_scope_type': 'ERROR',
          'metadata_version_integer': 'WARNING', 'data_variant_type': 'ERROR', 'codepoint_valid': 'ERROR', 'char_ascending_order': 'WARNING',
          'char_strict_ascending_order': 'IGNORE', 'ref_attribute_ascending': 'WARNING', 'standard_dispositions': 'ERROR', 'basic_symmetry': 'WARNING',
          'strict_symmetry': 'WARNING', 'basic_transitivity': 'WARNING', 'parse_xml': 'ERROR', 'schema': 'ERROR'}
# with a language: without, whether its tag is right is not tested, which is a failure
META = '<lgr xmlns="%s"><meta>%%s<unicode-version>15.1.0</unicode-version>%%s<references><reference id="0">zero</reference><reference id="1">one</reference></references></meta>' \
       '<data>%%s</data><rules><rule name="rule"><char cp="0061"/></rule>%%s</rules></lgr>' % S.LGR_NS
# parts of a document: (markup, verdict which it makes at best)
PARTS = [[('', 'PASS'), ('<version>1</version>', 'PASS'), ('<version>1.0</version>', 'WARN')],
         [('', 'PASS'), ('<validity-start>9000-01-01</validity-start>', 'FAIL'), ('<validity-end>2001-01-01</validity-end>', 'FAIL'), ('<validity-start>2001-01-01</validity-start>', 'PASS'),
          ('<validity-start>2003-01-01</validity-start><validity-end>2002-01-01</validity-end>', 'FAIL'), ('<validity-start>2003-01-01</validity-start><validity-end>9000-01-01</validity-end>', 'PASS')],
         [('', 'PASS'), ('<scope type="domain">x</scope>', 'PASS'), ('<scope type="own">x</scope>', 'FAIL'), ('<description type="text/html">x</description>', 'PASS'), ('<description>x</description>', 'PASS'),
          ('<description type="text/own">x</description>', 'FAIL')],
         [('<char cp="0061"/>', 'PASS'), ('<char cp="0061"><var cp="0062"/></char><char cp="0062"/>', 'WARN'), ('<char cp="0062"/><char cp="0061"/>', 'WARN'),
          ('<char cp="0061 0062"/><char cp="0061"/>', 'PASS'), ('<char cp="0061" ref="1 0"/>', 'WARN'), ('<char cp="0061" ref="0 1"/>', 'PASS'), ('<char cp="0378"/>', 'FAIL'),
          ('<char cp="0061"><var cp="0062" when="rule"/></char><char cp="0062"><var cp="0061"/></char>', 'WARN'),
          ('<char cp="0061"><var cp="0062"/></char><char cp="0062"><var cp="0061"/><var cp="0063"/></char><char cp="0063"><var cp="0062"/></char>', 'WARN'), ('<char cp="0061"><var cp="0062" type="_a"/></char><char cp="0062"><var cp="0061"/></char>', 'FAIL')],
         [('<language>und-Latn</language>', 'PASS'), ('<language>xx-Latn</language>', 'FAIL'), ('<language>en</language><language>x y</language>', 'FAIL')],
         [('', 'PASS'), ('<action disp="valid"/>', 'PASS'), ('<action disp="own"/>', 'FAIL')]]
ORDER = ['PASS', 'WARN', 'FAIL']


def compliance(tier):
    n = [range(len(p)) for p in PARTS]
    return itertools.chain(itertools.product((c for c in itertools.product(*n) if tier != 'quick' or sum(map(bool, c)) < 4), (0, 1), (0, 1)), itertools.product(BAD, (0, 1), (0, 1)))


def run_compliance(case, choice, rng, quiet):
    if isinstance(choice, str):
        file, want = path(choice), 'FAIL'
        if choice == 'broken.xml' or choice == 'other.xml' and not rng:
            want = None
    else:
        version, validity, about, data, language, rules = [p[i][0] for p, i in zip(PARTS, choice)]
        # the validity comes before the version of Unicode in the schema
        file = put('doc.xml', META % (version + (about if 'scope' in about else '') + language + validity, about if 'desc' in about else '', data, rules))
        want = max((p[i][1] for p, i in zip(PARTS, choice)), key=ORDER.index)
        if not rng:
            want = 'FAIL'       # a check of the policy is not made
    case.args = ['-l', libs(), '-u', '15.1.0'] + rngs(rng) + (['-q'] if quiet else []) + [file]
    text, error = case.run()
    if want is None:
        if 'PASS' in text.splitlines()[-1:] or text.rstrip().endswith('WARN'):
            case.fail('verdict', 'a document which cannot be read gets %r' % text)
        return
    if not case.done(error):
        return
    last = text.rstrip('\n').splitlines()[-1] if text.strip() else ''
    if last.rpartition(' ')[2] != want or quiet and text != want + '\n' or not quiet and want != 'FAIL' and text.count(' - OK') + text.count(' - NOK') < len(POLICY):
        case.fail('verdict', 'gives %r instead of %s' % (text[-200:], want))


# -- exploration -------------------------------------------------------------------------------------------------------------------------

KINDS = [('xml_dump.py', xml_dump, run_xml_dump), ('lgr_merge_set.py', merge_set, run_merge_set), ('lgr_populate_variants.py', populate, run_populate),
         ('lgr_compare.py', compare, run_compare), ('lgr_harmonize', harmonized, run_harmonized), ('text', text_dump, run_text_dump), ('make_idna_repertoire.py', idna, run_idna),
         ('lgr_annotate.py', annotated, run_annotated), ('lgr_diff_collisions.py', diffcol, run_diffcol), ('lgr_validate.py', validated, run_validated),
         ('lgr_cli.py', cli, run_cli), ('lgr_collision.py', collisions, run_collisions), ('lgr_idn_table_review.py', review, run_review),
         ('rfc7940_validate.py', compliance, run_compliance)]
BY = {k[0]: k[1:] for k in KINDS}
PROCESSES = [('xml_dump.py', ['a.xml'], ''), ('lgr_merge_set.py', ['-s', 'a.xml', '-s', 'd.xml'], ''), ('lgr_populate_variants.py', ['-l', None, '-x', 'a.xml'], ''),
             ('lgr_compare.py', ['-1', 'a.xml', '-2', 'b.xml', 'DIFF'], ''), ('lgr_validate.py', ['-l', None, '-g', '-x', 'a.xml'], 'a\nz\n'),
             ('lgr_cli.py', ['-l', None, '-t', '-c', 'b.xml'], 'a\nbb\n'), ('lgr_collision.py', ['-l', None, '-s', 'labels', 'a.xml'], 'b\nz\n'),
             ('rfc7940_validate.py', ['-l', None, '-q', 'a.xml'], ''), ('one_per_line_dump.py', ['table'], ''), ('rfc3743_dump.py', ['table'], ''), ('rfc4290_dump.py', ['table'], ''),
             ('lgr_annotate.py', ['-l', None, '-o', '/dev/stdout', '-x', 'a.xml', 'labels'], ''), ('lgr_diff_collisions.py', ['-l', None, '-1', 'a.xml', '-s', 'labels'], '')]


def shards(tier):
    n = 4 if tier == 'quick' else 16
    return [[k[0], i, n] for k in KINDS for i in range(n)] + [['process', i, 2] for i in range(2)]


def run_process(i, st):
    name, args, stdin = PROCESSES[i]
    put('labels', 'a\nb\nz\n')
    put('table', 'U+0061\nU+0062\n')
    args = [libs() if a is None else path(a) if os.path.exists(path(a)) else a for a in args]
    case = Case(st, name, args, stdin)
    case.n = i
    st.step()
    st.evaluations += 1
    st.trace()
    want = tool(name, [a if a != '/dev/stdout' else path('stdout') for a in args], stdin)
    text = want[0]
    if '/dev/stdout' in args:
        with io.open(path('stdout'), encoding='utf-8') as f:
            text = f.read()
    r = subprocess.run([sys.executable, os.path.join(common.REPO, 'tools', name)] + args, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict(os.environ, PYTHONPATH=common.REPO), cwd=KEEP['dir'])
    st.outcome((name, r.stdout))
    if want[1] is not None or r.returncode or r.stdout.decode('utf-8') != text:
        st.violation('process:' + name, 'the command %s %r prints %.300r (status %d), its main() %.300r (%r)' % (name, args, r.stdout, r.returncode, text, want[1]),
                     {'name': 'process', 'n': i})


def run_shard(shard, st):
    name, k, mod = shard
    with scratch():
        if name == 'process':
            for i in range(k, len(PROCESSES), mod):
                st.state(('process', i))
                run_process(i, st)
            return
        space, run = BY[name]
        for n, t in enumerate(space(st.tier)):
            if n % mod == k:
                st.state((name, n))
                one(name, n, t, st)
        if k == 0:
            st.sample({'tool': name, 'cases': n + 1, 'last': repr(t)})


def one(name, n, t, st):
    case = Case(st, name, ())
    case.n = n
    if name == 'xml_dump.py' and os.path.exists(path('out.xml')):
        os.remove(path('out.xml'))
    BY[name][1](case, *t)


def replay(case, st):
    with scratch():
        if case['name'] == 'process':
            return run_process(case['n'], st)
        name = case['name'] if case['name'] in BY else 'text'
        for tier in ('quick', 'thorough'):
            for n, t in enumerate(BY[name][0](tier)):
                if n == case['n']:
                    one(name, n, t, st)
                    break
            if st.violations:
                return
