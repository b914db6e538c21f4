"""
Mutation testing of the checks (development tool, not run by any check).

  python doc/mutate.py gen OUT.json SEED N FILE...     sample N mutants of each file
  python doc/mutate.py run IN.json OUT.jsonl [JOBS]    those which pass the repository's tests are given to the checks

Works in copies under /tmp/mutw.*; the checks run from a copy of /verif (/tmp/vv).
"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
CHECKS = {
 'lgr/char.py': 'C10 C12 C11 C01 C02 C14 C15 C21 C09',
 'lgr/core.py': 'C10 C11 C01 C02 C03 C07 C06 C12 C09 C08 C28 C14 C15 C05 C26',
 'lgr/action.py': 'C03 C14 C21 C15 C29',
 'lgr/classes.py': 'C05 C04 C21 C22 C09 C14 C29',
 'lgr/matcher.py': 'C04 C05 C09 C21 C14 C29 C15',
 'lgr/rule.py': 'C04 C01 C03 C09 C21 C14 C08',
 'lgr/metadata.py': 'C13 C12 C14 C15 C17 C21',
 'lgr/memoize.py': 'C08 C09 C07',
 'lgr/utils.py': 'C30 C28 C10 C05 C14 C26',
 'lgr/rfc7940.py': 'C17 C13 C15',
 'lgr/mixed_scripts_variant_filter.py': 'C07',
 'lgr/parser/xml_parser.py': 'C15 C14 C05 C04',
 'lgr/parser/xml_serializer.py': 'C14 C21 C22',
 'lgr/parser/rfc4290_parser.py': 'C16', 'lgr/parser/rfc3743_parser.py': 'C16', 'lgr/parser/line_parser.py': 'C16',
 'lgr/parser/heuristic_parser.py': 'C16', 'lgr/parser/parser.py': 'C16 C15',
 'lgr/populate/__init__.py': 'C20 C25',
 'lgr/validate/__init__.py': 'C18 C08 C17', 'lgr/validate/symmetry.py': 'C18 C06',
 'lgr/validate/transitivity.py': 'C18 C06', 'lgr/validate/conditional_variants.py': 'C18',
 'lgr/validate/lgr_stats.py': 'C19', 'lgr/validate/metadata.py': 'C17', 'lgr/validate/miscellaneous.py': 'C17',
 'lgr/validate/rebuild_lgr.py': 'C28', 'lgr/tools/idna2008_compliance.py': 'C28 C29',
 'lgr/validate/xml_validity.py': 'C17 C15 C08',
 'lgr/tools/utils.py': 'C30 C27 C26 C24 C06', 'lgr/tools/annotate.py': 'C27', 'lgr/tools/diff_collisions.py': 'C26',
 'lgr/tools/harmonize.py': 'C25', 'lgr/tools/merge_set.py': 'C24',
 'lgr/tools/compare/union.py': 'C21', 'lgr/tools/compare/intersect.py': 'C22', 'lgr/tools/compare/diff.py': 'C23',
 'lgr/tools/compare/utils.py': 'C21 C22 C23',
}
for n in 'utils review header summary language_tag actions classes repertoire whole_label_evaluation_rules variant_sets'.split():
    CHECKS['lgr/tools/idn_review/%s.py' % n] = 'C29'
for n in 'metadata utils tools/utils tools/annotate tools/merge_set tools/harmonize tools/diff_collisions validate/rebuild_lgr'.split():
    CHECKS['lgr/%s.py' % n] += ' C32' if n in ('metadata', 'utils') else ' C31'
for n in os.listdir('/repo/tools'):
    CHECKS['tools/' + n] = 'C31 C16'


CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>=', '<='], ast.GtE: ['>'],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def put(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode(), text(n)[:60] + ' => ' + new[:60]))

    def logcall(n):
        t = text(n)
        return 'logger' in t.split('(')[0] or 'logging' in t.split('(')[0]
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and logcall(n.value))):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.FunctionDef) and n.name in ('__str__', '__repr__', '__unicode__'):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Raise):
            skip.update(id(m) for m in ast.walk(n) if m is not n)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                put(n, '%s %s %s' % (text(n.left), op, text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '(' + o.join('(%s)' % text(v) for j, v in enumerate(n.values) if j != i) + ')', 'dropterm')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, 'True', 'iftrue')
            put(n.test, 'False', 'iffalse')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, str(n.value + 1), 'int')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr, ast.BitAnd)):
            put(n, text(n.left), 'left')
            put(n, text(n.right), 'right')
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)):
            put(n, 'pass', 'del')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'del')
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ('sorted', 'deepcopy', 'copy.deepcopy', 'copy.copy', 'list', 'set', 'tuple', 'reversed', 'frozenset') and n.args:
                put(n, text(n.args[0]), 'unwrap')
            if f.endswith(('.copy', '.strip', '.lower', '.rstrip', '.lstrip')) and not n.args:
                put(n, f.rsplit('.', 1)[0], 'unwrap')
            for k in n.keywords:
                rest = [text(a) for a in n.args] + ['%s=%s' % (x.arg, text(x.value)) if x.arg else '**' + text(x.value)
                                                    for x in n.keywords if x is not k]
                put(n, '%s(%s)' % (f, ', '.join(rest)), 'dropkw')
            if len(n.args) == 2 and not n.keywords:
                put(n, '%s(%s, %s)' % (f, text(n.args[1]), text(n.args[0])), 'swap')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, text(n.value), 'noslice')
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    put(c, 'True', 'compif')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', 'retnone')
    ok, seen = [], set()
    for l, w, s, d in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, path, 'exec')
        except (SyntaxError, ValueError):
            continue
        ok.append({'file': path, 'line': l, 'kind': w, 'desc': d, 'src': s})
    return ok


def gen(out, seed, n, files):
    rng = random.Random(int(seed))
    res = []
    for f in files:
        ms = mutants(f, open('/repo/' + f).read())
        rng.shuffle(ms)
        res += ms[:int(n)]
        print(f, len(ms))
    json.dump(res, open(out, 'w'))


def one(arg):
    i, m = arg
    w = '/tmp/mutw.%d' % (os.getpid() * 100000 + i)
    try:
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build'))
        open(w + '/' + m['file'], 'w').write(m['src'])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LGR_REPO=w, VERIF_WORKERS='2', VERIF_FAILFAST='1', PYTHONPATH=w)
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--doctest-modules', '--timeout=100'],
                               cwd=w, env=env, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return dict(m, result='tests-timeout')
        if r.returncode:
            return dict(m, result='tests')
        env.pop('PYTHONPATH')
        bad = []
        for c in CHECKS[m['file']].split():
            try:
                r = subprocess.run(['./check.sh', c], cwd='/tmp/vv', env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                bad.append(c + ':timeout')
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return dict(m, result='caught', by=c, bad=bad)
            if r.returncode:
                bad.append('%s:rc%d %s' % (c, r.returncode, r.stderr[-300:]))
        return dict(m, result='SURVIVED', bad=bad)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main_run(inp, out, jobs=4):
    ms = json.load(open(inp))
    with ThreadPoolExecutor(int(jobs)) as ex, open(out, 'a') as f:
        for r in ex.map(one, enumerate(ms)):
            r.pop('src')
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:])
    else:
        main_run(*sys.argv[2:])
