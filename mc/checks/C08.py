# -*- coding: utf-8 -*-
"""
C08 - evaluating labels changes nothing and leaves nothing behind.

Part 1: every history of up to N read-only operations (evaluation, enumeration complete / abandoned / failing, index, validation,
reports, comparison, serialisation) on one LGR: each operation must answer what it answers on a freshly built LGR, the LGR
must be observed unchanged, and no log handler may remain.
Part 2: two generators (enumerations of variants, collision report, annotation) on the same LGR: every interleaving of their steps,
and every point at which one is abandoned; each must give what it gives alone, log included.
Part 3: schedules of two threads on one LGR with one context switch at any line: one operation is stopped at each line of the
library it executes, the other one runs as a whole, and the first one goes on; both must answer what they answer alone, on an LGR already
used and on a new one (whose caches are empty).
"""
import gc
import io
import itertools
import logging

from mc import lgrspec as S

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = 'a case is one history of read-only operations or one interleaving of two enumerations; non trivial = distinct answers'
ASSUMPTIONS = ['validation records its RFC 7940 results in the metadata: that record is C17, not part of what must stay',
               'one preemption, at the granularity of lines, by a whole operation; without logs (the log collection of the library is not meant for threads)']

A, B, C, D, E, F, X, Z = [ord(c) for c in 'abcdefxz']


def the_spec():
    items = [S.char((A,), [S.var((X,), 'blocked'), S.var((B,), 'allocatable', when='atstart')], tags=('v',)),
             S.char((B,), [S.var((A,), 'allocatable', not_when='atstart')], tags=('v', 'w')),
             S.char((X,), [S.var((A,), 'blocked'), S.var((X,), 'out')]),
             S.char((A, B), [S.var((C,), 'fallback'), S.var((E,), 'inval')]),
             S.char((C,), [S.var((A, B), 'fallback')], when='nobroken'),
             S.char((D,), when='broken'),
             S.char((E,), [S.var((A, B), 'inval')], not_when='atstart', comment='c & d', refs=('1',)),
             S.rng(0x67, 0x69, tags=('w',)),
             S.char((0x430,), [S.var((A,), 'blocked')]), S.char((0x6B,), [S.var((0x43A,), 'blocked')])]
    return S.spec(
        items,
        rules=[('atstart', [('behind', (('start',),)), ('anchor',)]),
               ('nobroken', [('class', ('compl', ('tag', 'none')), None)]),
               ('vv', [('class', ('ref', 'vs'), '2+')])],
        classes=[('vs', ('union', (('tag', 'v'), ('set', (C,)))))],
        actions=[S.action('invalid', any=('inval',)), S.action('invalid', match='vv', any=('allocatable',)), S.action('review', match='vv')],
        refs=[('1', 'A reference', 'comment')],
        meta={'version': '1', 'date': '2020-01-01', 'languages': ('und-Latn',), 'description': 'text'})


OTHER = S.spec([S.char((A,), [S.var((B,), 'blocked')]), S.char((B,))], actions=[S.action('d', any=('blocked',))])
LABELS = {'ab': (A, B), 'aa': (A, A), 'x': (X,), 'bad': (A, Z), 'broken': (A, D), 'ka': (0x6B, 0x430), 'c': (C,), 'none': (Z, F), 'inval': (B, A, B)}


def make():
    lgr = S.build(the_spec(), unidb=S.icu_db(), how='api')
    lgr.add_rule(S.rule_obj('broken', [('class', ('ref', 'missing'), None)]), force=True)     # evaluating it fails
    lgr.rules_xml.append('<rule name="broken"><class by-ref="missing"/></rule>')
    return lgr


# -- observations -----------------------------------------------------------------------------

def v(r):
    """A result as comparable data."""
    return tuple([tuple(r[0]), r[1], repr(r[2]), r[3], tuple(sorted(map(str, r[4]))), r[5]] + [tuple(c.cp for c in x) for x in r[6:]])


def attempt(f):
    try:
        return f()
    except Exception as e:
        return ('raised', type(e).__name__)


def enum(label, upto=None, keep=False, **kw):
    def run(lgr):
        g = lgr.compute_label_disposition(LABELS[label], **kw)
        out = []
        try:
            if upto is None:
                out = [v(r) for r in g]
            else:
                for r in itertools.islice(g, upto):
                    out.append(v(r))
                if keep:
                    lgr.__dict__.setdefault('_verif_kept', []).append(g)
        except Exception as e:
            out.append(('raised', type(e).__name__))
        return tuple(out)
    return run


def test(label, **kw):
    def run(lgr):
        r = lgr.test_label_eligible(LABELS[label], **kw)
        return tuple([r[0], tuple(r[1]), repr(r[2]), r[3], r[4], r[5]] + [tuple(c.cp for c in x) for x in r[6:]])
    return run


def summary(label):
    def run(lgr):
        s, g = lgr.compute_label_disposition_summary(LABELS[label], include_invalid=True)
        return repr(sorted(s.items())), tuple(v(r) for r in g)
    return run


def validate(**opts):
    def run(lgr):
        o = dict(opts)
        if o.pop('unidb', False):
            o['unidb'] = S.icu_db()
        out = []
        for name, r in lgr.validate(o):
            out.append((name, type(r).__name__, canon(r)))
        return tuple(out)
    return run


def canon(o):
    if isinstance(o, dict):
        return tuple(sorted(((repr(canon(k)), canon(x)) for k, x in o.items()), key=repr))
    if isinstance(o, (list, tuple)):
        return tuple(canon(x) for x in o)
    if isinstance(o, (set, frozenset)):
        return tuple(sorted((canon(x) for x in o), key=repr))
    if hasattr(o, 'cp'):
        return type(o).__name__, tuple(o.cp)
    if isinstance(o, Exception):
        return type(o).__name__, str(o)
    return repr(o) if not isinstance(o, (str, int, float, type(None))) else o


def labels_text():
    return io.StringIO('ab\naa\nx\naz\nc\n')


def report(kind):
    def run(lgr):
        from lgr.tools.annotate import annotate
        from lgr.tools.diff_collisions import collision, get_collisions, basic_collision
        if kind == 'annotate':
            return tuple(annotate(lgr, labels_text()))
        if kind == 'collision':
            return tuple(collision(lgr, labels_text(), None, show_dump=True, quiet=False))
        if kind == 'basic':
            return tuple(sorted(basic_collision(lgr, labels_text(), io.StringIO('c\n'))))
        if kind == 'get':
            r = get_collisions(lgr, ['ab', 'c', 'x'], quiet=False)
            return tuple(sorted((k, tuple(sorted(l['label'] for l in ls))) for k, ls in r.items()))
        if kind == 'partial':        # a report abandoned after two lines
            return tuple(itertools.islice(collision(lgr, labels_text(), None, show_dump=True, quiet=False), 2))
    return run


def serialize(lgr):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    return serialize_lgr_xml(lgr, pretty_print=True)


def queries(lgr):
    rep = lgr.repertoire
    return (len(rep), tuple(c.cp for c in rep), tuple(c.cp for c in rep.all_repertoire()), rep.longest if hasattr(rep, 'longest') else None,
            A in rep, [A, B] in rep, tuple(sorted(c.cp for c in rep.get_chars_from_prefix(A))), tuple(rep.ranges),
            tuple(sorted(v_.cp for v_ in lgr.get_variants(A))), tuple(map(str, lgr.all_tags())), str(lgr), str(lgr.effective_actions),
            tuple(sorted(lgr.get_tag_classes())), tuple(lgr.effective_actions_xml))


def cross_compare(lgr):
    from lgr.tools.compare.diff import diff_actions, diff_rules, diff_classes, diff_metadata
    o = S.build(OTHER, unidb=S.icu_db())
    return tuple(tuple(sorted(f(a, b).split('\n'))) for f in (diff_actions, diff_rules, diff_classes) for a, b in ((lgr, o), (o, lgr)))


def crossidx(lgr):
    return tuple(attempt(lambda: lgr.generate_index_label(LABELS[l])) for l in sorted(LABELS))


EVAL = {
    'test ab': test('ab'), 'test bad': test('bad'), 'test broken': lambda lgr: attempt(lambda: test('broken')(lgr)),
    'test none chars': test('none', generate_chars=True), 'test bad chars': test('bad', generate_chars=True),
    'test invalid': lambda lgr: (test('inval', generate_chars=True)(lgr), test('inval', is_variant=True)(lgr)),
    'test x quiet': test('x', collect_log=False), 'test c variant': test('c', is_variant=True, generate_chars=True),
    'variants ab': enum('ab', include_invalid=True), 'variants aa': enum('aa'), 'variants ab chars': enum('ab', generate_chars=True, collect_log=False),
    'variants ab selected': enum('ab', with_labels=[(C,)]), 'variants ka hide': enum('ka', hide_mixed_script_variants=True),
    'abandoned 1': enum('ab', upto=1), 'abandoned 2 kept': enum('aa', upto=2, keep=True), 'failing': enum('broken', include_invalid=True),
    'summary': summary('ab'), 'estimate': lambda lgr: lgr.estimate_variant_number(LABELS['ab']), 'indexes': crossidx,
}
OTHERS = {
    'validate': validate(), 'validate rfc7940': validate(rfc7940=True), 'validate unidb': validate(unidb=True, unicode_version='6.3.0'),
    'annotate': report('annotate'), 'collision': report('collision'), 'basic collision': report('basic'), 'get collisions': report('get'),
    'collision abandoned': report('partial'), 'serialize': serialize, 'queries': queries, 'compare': cross_compare
}
OPS = dict(EVAL, **OTHERS)
NAMES = sorted(OPS)
EVALNAMES = sorted(EVAL)

LOGGERS = None


def handlers():
    """Every handler reachable from the loggers."""
    out = {'': tuple(map(id, logging.getLogger().handlers))}
    for n, l in logging.root.manager.loggerDict.items():
        if isinstance(l, logging.Logger) and l.handlers:
            out[n] = tuple(map(id, l.handlers))
    return out


_ALONE = {}


def alone(name):
    """What the operation answers on a freshly built LGR."""
    if name not in _ALONE:
        before = handlers()
        lgr = make()
        first = attempt(lambda: OPS[name](lgr))
        lgr.__dict__.pop('_verif_kept', None)
        gc.collect()
        # leftovers of a faulty operation must not spoil the references of the others
        reset(before)
        _ALONE[name] = first
    return _ALONE[name]


def reset(before):
    for n in [''] + list(logging.root.manager.loggerDict):
        l = logging.getLogger(n) if n else logging.getLogger()
        for h in list(l.handlers):
            if id(h) not in before.get(n, ()):
                l.removeHandler(h)


REF = {}


def all_alone():
    """References are computed in pristine processes of their own, so that nothing global can make them depend on one another."""
    import multiprocessing
    if not REF:
        ctx = multiprocessing.get_context('fork')
        for n in NAMES:
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=lambda n=n: b.send(alone(n)))
            p.start()
            b.close()
            REF[n] = a.recv()
            p.join()
    return REF


def history(ops, ref, st, before_snap):
    lgr = make()
    before = handlers()
    case = {'ops': list(ops)}
    for n, o in enumerate(ops):
        got = attempt(lambda: OPS[o](lgr))
        st.step()
        if n < len(ops) - 1:
            continue
        st.evaluations += 1
        st.trace()
        st.outcome((o, got))
        if got != ref[o]:
            st.violation('answer:%s' % o, 'after %r, %r answers %s instead of %s' % (ops[:-1], o, *differ(got, ref[o])), case)
        if handlers() != before:
            st.violation('handler', 'after %r a log handler is left behind' % (ops,), case)
        after = S.snapshot(lgr)
        st.state((ops, repr(after)))
        if after != before_snap:
            st.violation('changed', 'after %r the LGR has changed: %s' % (ops, S.diff_snap(before_snap, after)), case)
    lgr.__dict__.pop('_verif_kept', None)
    reset(before)


def differ(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        d = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y]
        return repr([x for x, _ in d])[:500], repr([y for _, y in d])[:500]
    return repr(a)[:500], repr(b)[:500]


# -- interleavings ------------------------------------------------------------------------------

def gens():
    from lgr.tools.annotate import annotate
    from lgr.tools.diff_collisions import collision
    d = lambda label, **kw: lambda lgr: map(v, lgr.compute_label_disposition(LABELS[label], **kw))
    return {'ab': d('ab', include_invalid=True), 'aa': d('aa', include_invalid=True), 'c': d('c', generate_chars=True), 'ka': d('ka', hide_mixed_script_variants=True),
            'ab quiet': d('ab', collect_log=False), 'annotate': lambda lgr: annotate(lgr, io.StringIO('ab\nx\n')),
            'collision': lambda lgr: itertools.islice(collision(lgr, io.StringIO('ab\nc\n'), None, quiet=False), 4),
            'broken': d('broken')}


GENS = ['ab', 'aa', 'c', 'ka', 'ab quiet', 'annotate', 'collision', 'broken']
PAIRS = {'quick': [('ab', 'ab'), ('ab', 'aa'), ('ab', 'c'), ('ab', 'ka'), ('aa', 'ab quiet'), ('ab', 'annotate'), ('ab', 'collision'),
                   ('annotate', 'collision'), ('ab', 'broken'), ('broken', 'collision'), ('ka', 'collision'), ('ka', 'c')],
         'thorough': list(itertools.combinations_with_replacement(GENS, 2))}
END = ('end',)


def advance(g):
    try:
        return next(g)
    except StopIteration:
        return END
    except Exception as e:
        return ('raised', type(e).__name__)


def run_alone(name):
    lgr = make()
    g = gens()[name](lgr)
    out = []
    while True:
        r = advance(g)
        out.append(r)
        if r == END or r[0] == 'raised':
            return out


def interleave(pair, schedule, abandon, ref, st):
    """
    schedule: sequence of 0/1, which generator takes each step; abandon: None, or which generator is dropped (closed) when the
    schedule has no more steps for it although it has not ended; the other then runs to its end.
    """
    lgr = make() if not hasattr(interleave, 'lgr') else interleave.lgr
    interleave.lgr = lgr
    before = handlers()
    gs = [gens()[n](lgr) for n in pair]
    got = [[], []]
    case = {'pair': list(pair), 'schedule': list(schedule), 'abandon': abandon}
    for who in schedule:
        got[who].append(advance(gs[who]))
        st.step()
        st.state((pair, tuple(map(tuple, map(lambda x: map(repr, x), got)))))
    for who in (0, 1):
        if abandon == who:
            gs[who] = None
        else:
            while not got[who] or (got[who][-1] != END and got[who][-1][0] != 'raised'):
                got[who].append(advance(gs[who]))
    st.trace()
    for who in (0, 1):
        st.evaluations += 1
        want = ref[pair[who]][:len(got[who])] if abandon == who else ref[pair[who]]
        if got[who] != want:
            st.violation('interleaved:%s' % pair[who], 'interleaved with %r (schedule %s, abandoned %s), %r gives %s instead of %s'
                         % (pair[1 - who], schedule, abandon, pair[who], *differ(tuple(got[who]), tuple(want))), case)
    gs = None
    if handlers() != before:
        st.violation('handler-interleaved', 'log handlers remain after interleaving %r (%s, abandoned %s)' % (pair, schedule, abandon), case)
        reset(before)


# -- preemption -------------------------------------------------------------------------------------

THREADS = {'test': test('ab', collect_log=False, generate_chars=True), 'test aba': test('inval', collect_log=False, is_variant=True),
           'test bad': test('bad', collect_log=False), 'variants': enum('ab', collect_log=False, include_invalid=True, generate_chars=True),
           'variants c': enum('c', collect_log=False, include_invalid=True, generate_chars=True), 'hide': enum('ka', collect_log=False, hide_mixed_script_variants=True), 'selected': enum('ab', with_labels=[(C,)], collect_log=False),
           'broken': lambda lgr: attempt(lambda: enum('broken', collect_log=False, include_invalid=True)(lgr)),
           'indexes': crossidx, 'estimate': EVAL['estimate'], 'queries': queries, 'serialize': serialize, 'compare': cross_compare,
           'sets': lambda lgr: tuple(lgr.repertoire.get_variant_sets(force=True))}
TNAMES = sorted(THREADS)
THREAD_PAIRS = {'quick': [(a, b) for a in ('test', 'variants c', 'hide', 'estimate', 'sets') for b in ('test aba', 'hide', 'queries')] + [('test', 'variants'), ('estimate', 'selected'), ('indexes', 'test'), ('test', 'indexes'), ('serialize', 'test')],
                'thorough': list(itertools.product(TNAMES, repeat=2))}
COLD = {'quick': [('test', 'test aba'), ('test aba', 'variants'), ('estimate', 'hide')], 'thorough': [(a, b) for a in ('test', 'test aba', 'broken', 'estimate', 'indexes', 'selected') for b in TNAMES]}


BOUNDS = {'quick': 'all histories of length <= 2 of the full alphabet, length 3 over the evaluation operations; every interleaving of '
                   '12 pairs of generators, every abandon point; %d pairs of operations, one preempting the other at each of its lines (%d of them on a new LGR)' % (
              len(THREAD_PAIRS['quick']), len(COLD['quick'])),
          'thorough': 'length <= 3 of the full alphabet, length 4 over the evaluation operations; every pair of generators; %d pairs of preempting operations' % len(THREAD_PAIRS['thorough'])}


def preempt(a, b, k, lgr):
    """The operation a, preempted at its k-th line of the library by the whole of b. Returns (answer of a, answer of b, lines of a)."""
    import sys
    import lgr as package
    top = package.__path__[0]
    got, count = [], [0]

    def line(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] == k:
                got.append(attempt(lambda: THREADS[b](lgr)))
        return line

    def call(frame, event, arg):
        return line if frame.f_code.co_filename.startswith(top) else None
    old = sys.gettrace()
    sys.settrace(call)
    try:
        first = attempt(lambda: THREADS[a](lgr))
    finally:
        sys.settrace(old)
    return first, got[0] if got else None, count[0]


def run_preempt(a, b, cold, k, mod, st, only=None):
    """Every line of a (one of mod) at which b may preempt it; cold: nothing was evaluated before."""
    want = {n: attempt(lambda: THREADS[n](make())) for n in (a, b)}
    shared = make()
    for n in (a, b):
        attempt(lambda: THREADS[n](shared))
    snap = S.snapshot(shared)
    lines = preempt(a, b, 0, make() if cold else shared)[2]
    for at in range(k + 1, lines + 1, mod) if only is None else [only]:
        lgr = make() if cold else shared
        got = preempt(a, b, at, lgr)
        st.step()
        st.evaluations += 1
        st.trace()
        st.state(('preempt', a, b, cold, at))
        st.outcome((a, b, got[0], got[1]))
        case = {'preempt': [a, b, cold, at]}
        for n, g in zip((a, b), got):
            if g != want[n]:
                st.violation('preempted:%s' % n, '%r preempted at its line %d by %r: %r gives %s instead of %s' % ((a, at, b, n) + differ(g, want[n])), case)
        if at % 50 == 1 and S.snapshot(lgr) != snap:
            st.violation('preempted-change', 'once %r was preempted at its line %d by %r the LGR has changed' % (a, at, b), case)
            shared = make()
    st.count('preemption points', len(range(k + 1, lines + 1, mod)))


def schedules(n0, n1):
    """Every interleaving of n0 steps of the first and n1 of the second."""
    for c in itertools.combinations(range(n0 + n1), n0):
        yield tuple(0 if i in c else 1 for i in range(n0 + n1))


def shards(tier):
    full, ev = (2, 3) if tier == 'quick' else (3, 4)
    out = [['inter', i, j] for i, j in PAIRS[tier]]
    out += [['preempt', a, b, False, 0, 1] for a, b in THREAD_PAIRS[tier]]
    out += [['preempt', a, b, True, k, 4] for a, b in COLD[tier] for k in range(4)]
    out += [['hist', full, ev, i, 0] for i in range(len(NAMES))]
    if ev >= 3:
        out += [['hist3', full, ev, i, 0] for i in range(len(EVALNAMES))]
    return out


def run_shard(shard, st):
    logging.getLogger('lgr').setLevel(logging.NOTSET)
    if shard[0] == 'preempt':
        logging.disable(logging.CRITICAL)
        try:
            run_preempt(*shard[1:], st)
        finally:
            logging.disable(logging.NOTSET)
        return
    if shard[0] == 'inter':
        pair = (shard[1], shard[2])
        logging.getLogger('lgr-rule-logger').setLevel(logging.INFO)
        ref = {n: run_alone(n) for n in pair}
        n0, n1 = [min(len(ref[n]), 4 if st.tier == 'quick' else 5) for n in pair]
        for sch in schedules(n0, n1):
            interleave(pair, sch, None, ref, st)
        for who in (0, 1):
            for k0 in range(n0 + 1):
                for k1 in range(n1 + 1):
                    if (k0, k1)[who] >= (len(ref[pair[who]])):
                        continue
                    for sch in schedules(k0, k1):
                        if k0 + k1 <= 5 or st.tier != 'quick':
                            interleave(pair, sch, who, ref, st)
        st.sample({'pair': pair, 'answers': [repr(r)[:80] for r in ref[pair[0]]]})
        return
    logging.getLogger('lgr-rule-logger').setLevel(logging.INFO)
    ref = all_alone()
    lgr = make()
    snap = S.snapshot(lgr)
    _, full, ev, i, _ = shard
    if shard[0] == 'hist':
        first = NAMES[i]
        history((first,), ref, st, snap)
        for k in range(1, full):
            for rest in itertools.product(NAMES, repeat=k):
                history((first,) + rest, ref, st, snap)
        st.sample({'history': [first], 'answer': repr(ref[first])[:100]})
    else:
        first = EVALNAMES[i]
        for rest in itertools.product(EVALNAMES, repeat=ev - 1):
            history((first,) + rest, ref, st, snap)


def replay(case, st):
    if 'preempt' in case:
        a, b, cold, at = case['preempt']
        run_preempt(a, b, cold, 0, 1, st, only=at)
    elif 'ops' in case:
        history(tuple(case['ops']), all_alone(), st, S.snapshot(make()))
    else:
        logging.getLogger('lgr-rule-logger').setLevel(logging.INFO)
        pair = tuple(case['pair'])
        interleave(pair, tuple(case['schedule']), case['abandon'], {n: run_alone(n) for n in pair}, st)
