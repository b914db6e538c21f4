"""Write DESIGN.md:  python3 doc/design.py   (from doc/catalog.py, the checks themselves, known_findings.json, seeded/, the last evidence)."""
import importlib
import json
import os
import runpy
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')
P = runpy.run_path(HERE + '/doc/catalog.py', run_name='design')['P']

INTRO = '''# Design

*(Generated by `doc/design.py` from the checks, `doc/catalog.py`, `known_findings.json` and `doc/seeded_results.json`.)*

## The approach

lgr-core is a library and a set of tools which are sequential and deterministic: no thread, no network, no crash recovery. What varies from one
use to another is (1) the **data**: the LGR (repertoire, variants, conditions, classes, rules, actions, metadata), the labels, the documents;
(2) the **history**: the succession of edits, evaluations, copies, refusals, forced operations, and generators which are interleaved or
abandoned; (3) the **configuration**: options, policies, Unicode versions, hash seeds of the process. Nothing of this is settled by a handful of
examples, because the defects of this kind of code are in combinations (a condition on a sequence which overlaps another, a tag deleted after
an evaluation, a refused edit in a range, two rules of the same name referring to others).

Model checking is used in its explicit-state, implementation-level form. For each property:

* a **bounded space** of behaviours is defined (operation histories to a depth, interleavings of generators, families of LGRs x labels,
  documents x layouts x faults, options x files) and enumerated **completely** - nothing is sampled, `VERIF_SEED` only rotates the order of the work;
* every element of the space is executed on the **real code**, imported from /repo's working tree in the process of the check (no copy, no cache:
  each run sees the current tree);
* the verdict is given by an **explicit reference model** which shares no code with the library: `mc/model.py` (reading of labels,
  rules by backtracking on sets of positions, classes by pointwise evaluation, variants by derivation, actions, index labels),
  `mc/editmodel.py` (the state of an LGR as a plain list of entries, with the preconditions of every edit), and in each check the
  model of its operation (closure of relations for population, connected components for harmonisation, set algebra for union...).
  Since the model is run in lockstep with the implementation on **every** element of the space, the conformance of model and code is not
  a separate step: a trace of the model which the code does not follow is a violation, with the trace as replay file.

Common parts: `mc/lgrspec.py` is a description of LGRs as plain data with three independent ways to turn it into an LGR (calls of the API,
an XML document, an XML document of another layout) and an observation (`snapshot`) of everything an LGR shows; `mc/families.py` the
families of LGRs used by several checks; `mc/compare.py` the pairs of LGRs for union, intersection and difference;
`mc/common.py` the runner: shards are distributed over the cores, each counts the states (distinct model states), transitions (operations on the
real code), traces (complete histories or cases compared), distinct outcomes, and writes violations with a replay file. `check.sh PROP --replay FILE` runs one
counterexample again. Evidence files give these counts, the bounds, and samples of what was explored.

How a violation is reported: one `VIOLATION property=<id> replay=<path>` line per distinct signature. What depends on iteration of hash tables is run in several
processes with other hash seeds (C21, C22, C23, C24, C29).

Judging behaviour, not text: no check reads the source, or depends on private names; the public API, the tools' `main`, the parsers and what
is written are used. Where the API shows an internal structure (`rules_xml`, `codepoints` of a class) only its meaning is compared.

No property was given up: `not_applicable` is empty. What the family cannot do here: say anything beyond the bounds. The bounds are chosen so
that each interaction of two (often three) features is inside; a defect which needs a label of 20 code points, or five nested classes, is not seen.

### Files

| path | what |
|---|---|
| `check.sh`, `setup.sh`, `mc/run.py` | entry points |
| `mc/*.py` | models, families, runner |
| `mc/checks/Cxx.py` | one check by property |
| `properties.jsonl`, `MANIFEST.json` | written by `doc/catalog.py` |
| `known_findings.json` | defects: repaired (`fixed`), and recorded (`findings`) |
| `seeded/` | planted bugs, each with a demonstration |
| `doc/` | what was used while building: planting bugs, mutants, this file |
'''

LIMITS = {
    'C02': 'The generator also returns permutations which end in a shorter entry whose own condition does not hold in the partly substituted label; RFC 7940 can be read both ways and the check accepts both.',
    'C07': 'The filter works on variants of single code points; sequences in several scripts are outside of the property (the code has no clear intent there).',
    'C08': 'The log collection uses a handler on a logger of the module, which is not meant for threads: interleavings are those of generators in one thread.',
    'C14': 'A lone carriage return in a description is normalised by XML itself, and is left out.',
    'C15': 'Unknown elements inside `<data>` are ignored by the parser without an error; the schema validation reports them. Repeated ranges are dropped in forced mode without being recorded as errors.',
    'C16': 'A byte order mark at the start of a text table makes the first line malformed, hence lost; not repaired (the format does not provide for it).',
    'C20': 'A variant without condition may get the condition of its reverse.',
    'C22': 'The intersection may keep a definition (suffixed `_1`) which refers to one which is not in both: documented as needing a manual edition.',
    'C24': 'Rules shared as conditions by several members under one name take the content of the last member; comments and references of a variant which transitivity adds first are those of the transitive one.',
    'C26': 'Order of the simple and programmatic reports follows sets; compared as sets.',
    'C29': 'Types and conditions compared only partly in columns with several conditions: only "not MATCH" is required there.',
    'C31': 'Documents written by tools are compared with what the library gives on the same inputs, read back; the results of the library are the subject of the other properties.',
}

NOTES = '''## Observations which are not violations of a stated property

Found while reading, neither repaired nor claimed:

* text parsers and the guessing parser ignore a Unicode database given before parsing (documents in XML do not);
* `_check_convert_cp(assert_in_script=True)` always raises; no caller uses it;
* `rebuild_lgr` needs the LGR to have a Unicode database;
* ids of references inside the XML of rules, classes and actions are not remapped by the union (they are in the merge);
* `merge_lgr_set` sorts the list of its caller in place; a deep copy of an LGR has no Unicode database;
* the collision reports (simple, programmatic) iterate over sets: the order of their lines depends on the hash seed;
* `collapse_codepoints` with repeated code points; a memoised list of scripts is shared with callers;
* IDN review: the number of digits above which digit sets are recognised differs from the comment; a table whose variants are not symmetric may have two sets of the
  same index, one of which is not reported; a tag with an explicit script which contradicts the one of its language is "relevant";
* `lgr_validate` gives up (with an error) when labels of the set collide with each other; `rfc7940_validate -t` makes no validation and gives FAIL; an LGR without
  language gives FAIL since its language test was not executed (the documented policy).
'''


def main():
    out = [INTRO]
    res = json.load(open(HERE + '/doc/seeded_results.json')) if os.path.exists(HERE + '/doc/seeded_results.json') else {}
    seeds = {}
    for i in sorted(os.listdir(HERE + '/seeded')):
        seeds.setdefault(json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))['property'], []).append(i)
    kf = json.load(open(HERE + '/known_findings.json'))
    fixed = {}
    for e in kf['fixed']:
        _, prop, rest = e.split(' ', 2)
        commit, what = rest.split(' ', 1)
        fixed.setdefault(prop.split('=')[1], []).append((commit, what))
    out.append('## Properties\n')
    for p in P:
        i = p['id']
        m = importlib.import_module('mc.checks.' + i)
        doc = ' '.join((m.__doc__ or '').split())
        out.append('### %s - %s\n' % (i, p['title']))
        out.append('%s\n' % p['statement'])
        out.append('*Anchors*: %s.\n' % '; '.join('%s (%s)' % (b, a) for a, b in p['mechanism']))
        out.append('*Why tests cannot settle it*: %s\n' % p['why'])
        out.append('*Decided by*: %s\n' % doc.split(' - ', 1)[1])
        b = m.BOUNDS
        out.append('*Bounds* - quick: %s. Thorough: %s.\n' % (b['quick'], b['thorough'] if b['thorough'] != b['quick'] else 'the same over larger families (see the shards of the check)'))
        if getattr(m, 'ASSUMPTIONS', None):
            out.append('*Assumptions*: %s.\n' % '; '.join(m.ASSUMPTIONS))
        if i in LIMITS:
            out.append('*Limits*: %s\n' % LIMITS[i])
        cost = []
        for t, f in (('quick', '%s/evidence/%s.json' % (HERE, i)), ('thorough', '%s/evidence/thorough/%s.json' % (HERE, i))):
            if i in COST.get(t, {}):
                cost.append('%s: %s' % (t, COST[t][i]))
        if cost:
            out.append('*Cost* (8 cores): %s.\n' % '; '.join(cost))
        if fixed.get(i):
            out.append('*Defects found and repaired*: %s.\n' % '; '.join('%s (%s)' % (w, c) for c, w in fixed[i]))
        if seeds.get(i):
            out.append('*Planted bugs*: %s.\n' % ', '.join('`%s` (%s)' % (s, res.get(s, 'not run')) for s in seeds[i]))
    out.append(NOTES)
    out.append('## Known findings which are not repaired\n')
    out.append('\n'.join('* %s' % (f if isinstance(f, str) else json.dumps(f)) for f in kf['findings']) or 'None: every defect found by the checks has been repaired by a `fix:` commit (%d commits).' % len({c for v in fixed.values() for c, _ in v}))
    out.append('\n## Planted bugs: what catches what\n\n| planted bug | property | needs | its check |\n|---|---|---|---|')
    for prop in sorted(seeds):
        for s in seeds[prop]:
            meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, s)))
            out.append('| `%s` | %s | %s | %s |' % (s, prop, meta['needs'].replace('|', '/'), res.get(s, 'not run')))
    out.append(open(HERE + '/doc/history.md').read() if os.path.exists(HERE + '/doc/history.md') else '')
    open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


COST = json.load(open(HERE + '/doc/cost.json')) if os.path.exists(HERE + '/doc/cost.json') else {}
if __name__ == '__main__':
    main()
