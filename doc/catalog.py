# -*- coding: utf-8 -*-
"""
Single source of properties.jsonl and MANIFEST.json:  python3 doc/catalog.py   (run in /verif)
A property is claimed when mc/checks/<id>.py exists; the others are listed as not applicable with their reason.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, note=note, technique=technique, na=na, observe=observe))


MBT = 'bounded exhaustive enumeration of the real code against an explicit reference model'
HIST = 'explicit-state exploration of every operation history up to a depth, each replayed on the real code against a reference model'

prop('C01', 'A label is eligible exactly when it can be read with the LGR',
     'A label is in the LGR exactly when, read left to right, each step finds a listed code point or sequence starting there '
     '(the longest whose when / not-when condition holds is taken) until the label is used up. The reported valid parts, '
     'offending code points with the conditions which failed, and the characters read are those of that reading. The answer '
     'is the same with or without a log, and whatever the order in which the entries were defined.',
     ['inputs', 'configurations'],
     'every repertoire over nested and overlapping entries with optional conditions x every label over a small alphabet',
     'Unit tests try a few labels on a few LGRs; which entry wins depends on combinations of overlapping sequences, '
     'conditions and positions that they do not sample.',
     ['lgr/core.py', 'lgr/char.py'],
     [('reading a label', 'lgr/core.py: test_label_eligible and its preliminary eligibility step'),
      ('lookup by first code point, longest first', 'lgr/char.py: Repertoire.get_chars_from_prefix')],
     'Every repertoire and label of the bounded space is compared with an independent reader; nothing is said of longer '
     'labels or larger overlaps.', observe='result of the eligibility test')

prop('C02', 'Variant labels: all of them, nothing else, original last',
     'The variants of an eligible label are the labels obtained by cutting it in listed code points and sequences, in every '
     'possible way, and replacing any of them by a variant whose condition holds where it is placed: none of those which are '
     'themselves readable is missing, no other label is returned. No label is returned twice, and the original label is always '
     'returned, exactly once, as the last one. Asking for the characters, for selected labels or for a log changes none of this.',
     ['inputs', 'configurations'],
     'every LGR of a family with simple, multiple, reflexive, conditional, sequence and overlapping variants x every eligible label up to a bound',
     'The tests check hand-picked variant counts; a permutation lost for one overlap of sequences or one condition is '
     'invisible to them, and is exactly what lets two colliding labels be registered.',
     ['lgr/core.py'],
     [('variant generation', 'lgr/core.py: compute_label_disposition and the recursive generator under it')],
     'Exhaustive over the family; completeness is required for permutations in which every condition holds, soundness for all.',
     observe='labels returned by the disposition computation')

prop('C03', 'Disposition: first action, in order, whose conditions all hold',
     'The disposition of a label or variant is the one of the first action - the declared ones in order, then the five default '
     'ones - whose rule condition (match / not-match) and variant type condition (any / all / only variants) both hold, and the '
     'reported action index is that action\'s. The types taken into account are those of the mappings (reflexive ones included) which '
     'made the label, and "only variants" means every part of it came from a mapping. Variants with an invalid disposition are '
     'left out unless asked for, and the summary counts what is listed.',
     ['inputs', 'configurations'],
     'every list of up to two (three) actions from a pool covering all conditions x repertoires with every mix of types x every label up to a bound',
     'Tests exercise single actions; precedence, subset tests and the meaning of only-variants depend on combinations.',
     ['lgr/core.py', 'lgr/action.py'],
     [('action conditions', 'lgr/action.py: Action.apply'), ('precedence and index', 'lgr/core.py: action application'),
      ('types of the label', 'lgr/core.py: disposition of the original label through reflexive mappings')],
     'Exhaustive over the pool; where several derivations give the same variant the ranking is left open.',
     observe='disposition, action index and type set of every result')

prop('C04', 'Whole-label and context rules match what their elements say',
     'A rule matches a label exactly when the sequence of its elements (any, char, class, choice, nested or referenced rule, '
     'start, end, look-ahead, look-behind, each with its count) can be laid on some part of the label, and a context rule exactly '
     'when it can be laid on it with its anchor at the given position. This holds for every nesting, count form and '
     'class, including classes which are empty or contain special characters.',
     ['inputs', 'programs'],
     'every rule of up to three elements over a pool with every element kind and count form, every context rule over a pool of contents x every label up to a bound x every anchor position',
     'Rules are programs compiled to a regular expression; the unit tests check the generated pattern of single elements, not '
     'that the composition means what RFC 7940 says.',
     ['lgr/rule.py', 'lgr/matcher.py', 'lgr/classes.py'],
     [('translation to a pattern', 'lgr/matcher.py: the pattern of each matcher'), ('anchoring', 'lgr/rule.py: Rule.matches')],
     'Exhaustive over the rule grammar bound; oracle is an independent backtracking matcher.',
     observe='result of matching a rule')

prop('C05', 'Classes contain exactly what their definition says',
     'A class contains a code point exactly when its definition says so: listed code points or ranges, code points currently '
     'carrying a tag, a Unicode property, another class by reference, and union, intersection, difference, symmetric '
     'difference and complement of classes in any nesting. This holds however the class is written (explicit list, '
     'individual code points or ranges, any child form) and is what rules using it observe.',
     ['inputs', 'programs'],
     'every class expression of nesting depth two (three) over leaves of every kind x every code point of a universe, built by API and by document',
     'Set algebra over nested references is a tree-shaped input; tests check one operator at a time on fixed sets.',
     ['lgr/classes.py', 'lgr/parser/xml_parser.py', 'lgr/core.py'],
     [('set algebra', 'lgr/classes.py: the combinator classes'), ('code point lists', 'lgr/parser/xml_parser.py: class content'),
      ('tag classes', 'lgr/core.py: bookkeeping of tag classes on insertion and deletion')],
     'Exhaustive over class expressions up to the depth; oracle is pointwise set membership.',
     observe='matches of rules made of the class, and resolved sets')

prop('C06', 'Index labels identify exactly the labels which collide',
     'The index label of an eligible label is the smallest, over all its valid readings, of the labels made of the smallest '
     'applicable variant of each part. On an LGR which is symmetric and transitive without overlaps, two labels have the same index label '
     'if and only if one is a variant of the other, and a label and all its valid variants share one index label. A label '
     'which is not in the LGR is refused; further rounds, when asked, are indexes of the index.',
     ['inputs', 'configurations'],
     'every small LGR of a family (variant sets over code points and sequences, conditions) x every pair of labels up to a bound',
     'Collision freedom is a statement about all pairs of labels; tests compare a few.',
     ['lgr/core.py', 'lgr/tools/utils.py'],
     [('index computation', 'lgr/core.py: generate_index_label')],
     'Exhaustive over the family and all pairs of labels.', observe='index labels')

prop('C07', 'Mixed-script filtering and the estimated number of variants',
     'With mixed-script variants hidden, the variants returned are exactly those whose code points all belong to the scripts '
     'permitted with the scripts of the label (common and inherited code points go with any), or which start in another script in which every '
     'part of the label (for some way of splitting it into code points and sequences of the repertoire) has a variant and go on in the scripts permitted with that one. The estimated number of variants is, for each of these '
     'choices of scripts, the product over the parts of the label of the number of their variants (and of themselves). Hiding is off by default and never '
     'changes the disposition of what remains.',
     ['inputs', 'configurations'],
     'every label up to a bound over families of variants of code points and sequences in several scripts (Latin, Greek, Cyrillic, Han, Kana, Hangul, Common)',
     'The filter is stateful along the recursion; only enumerating labels shows a script leaking in after the first position.',
     ['lgr/mixed_scripts_variant_filter.py', 'lgr/core.py'],
     [('permitted scripts', 'lgr/mixed_scripts_variant_filter.py'), ('filtering along the recursion', 'lgr/core.py: variant generation'),
      ('estimate', 'lgr/core.py: estimate_variant_number')],
     'Exhaustive over the families.', observe='variants returned with the filter')

prop('C08', 'Evaluating labels changes nothing and leaves nothing behind',
     'Testing labels, enumerating variants (to the end, abandoned midway, interleaved, or failing), computing index labels, '
     'validating, reporting, comparing and serialising leave the LGR as it was, apart from documented range expansion, and give the same answer '
     'when repeated, in whatever order and interleaving. No log handler outlives the call, so that each log only contains its own evaluation.',
     ['histories', 'schedules'],
     'every history of up to three read-only operations, and every interleaving of two enumerations of variants (including abandoning either at every point), and every line of an operation at which another one preempts it',
     'Tests run each operation once on a fresh LGR; leaks need a second operation, an abandoned generator or an error in between.',
     ['lgr/core.py', 'lgr/rule.py', 'lgr/validate/__init__.py', 'lgr/tools/utils.py', 'lgr/tools/annotate.py'],
     [('generators holding log handlers', 'lgr/core.py: compute_label_disposition'), ('shared check lists', 'lgr/validate/__init__.py'),
      ('caches', 'lgr/rule.py, lgr/memoize.py')],
     'Exhaustive over operation sequences and interleaving schedules of the driver.',
     technique='exhaustive exploration of operation sequences and of interleavings of generators and of lines of operations on the real code, compared with isolated runs')

prop('C09', 'Evaluation always reflects the LGR as it is now',
     'After any history of edits (code points, variants, tags, classes, rules, actions added or removed) mixed with evaluations, '
     'every evaluation gives what a freshly built LGR with the same content gives. A copy or a stored and restored LGR gives the same '
     'answers as the original, and from then on neither is affected by edits of the other.',
     ['histories'],
     'every history of edits and evaluations up to a depth over an LGR with rules and classes, with copy and pickle steps',
     'Caches only lie after an edit which follows an evaluation; tests build once and evaluate.',
     ['lgr/core.py', 'lgr/rule.py', 'lgr/classes.py', 'lgr/memoize.py'],
     [('compiled pattern cache', 'lgr/rule.py'), ('copy and pickling', 'lgr/core.py: __getstate__ / __setstate__')],
     'Exhaustive over edit/evaluation histories of the alphabet.', technique=HIST)

prop('C10', 'The repertoire is exactly what the edits made it',
     'After any succession of additions and deletions of code points, sequences, ranges and variants, and of range expansions, membership, lookup, '
     'iteration (ascending), size, declared ranges, prefix lookup and variants are those of a plain '
     'list of the entries. Deleting or expanding touches only what was named.',
     ['histories'],
     'every history of repertoire operations up to length three (four) over colliding code points, sequences and ranges',
     'Several indexes must agree after every history; tests follow a few short ones.',
     ['lgr/char.py', 'lgr/core.py'],
     [('repertoire indexes', 'lgr/char.py: Repertoire'), ('range handling', 'lgr/core.py: add_range, del_range, expand_ranges, del_cp')],
     'All reachable states up to the depth, each compared with the model through the public interface.', technique=HIST)

prop('C11', 'A refused edit leaves no trace',
     'When adding a code point, range, variant, reference, class or rule, or deleting something, is refused, the LGR is afterwards exactly what it was before. '
     'Each edit is refused precisely in the documented cases (already present, invalid or out of script or repertoire, unknown or repeated '
     'reference, both conditions, range overlapping or inverted), and forcing inserts what can be inserted.',
     ['fault_sequences', 'histories'],
     'every edit call over a menu of arguments which fail at each check, from every state reachable by a few edits',
     'Tests check that an exception is raised, not that every index is untouched at each of the points where an edit can fail.',
     ['lgr/core.py', 'lgr/char.py'],
     [('checks before insertion', 'lgr/core.py: add_cp, add_range, add_variant'), ('range insertion', 'lgr/char.py: add_range, del_range')],
     'Every failing call in every explored state: observation before equals observation after.',
     technique='exhaustive enumeration of refused edits from every reachable state of the bound, with full-state comparison')

prop('C12', 'Tags and references stay consistent under every edit',
     'The members of each tag are exactly the listed single code points carrying it, after any history of edits, and removing a tag removes it everywhere. '
     'References keep distinct identifiers, an identifier given by the user is kept, deleting a reference removes it from every code point and variant, and '
     'nothing refers to an undefined reference unless forced.',
     ['histories'],
     'every history of edits involving tags and references up to a depth',
     'The same information is kept in several places (entries, tag classes, reference list); tests look at one place after one edit.',
     ['lgr/core.py', 'lgr/char.py', 'lgr/metadata.py'],
     [('tag classes', 'lgr/core.py'), ('reference numbering', 'lgr/metadata.py: ReferenceManager'), ('scrubbing', 'lgr/char.py: del_reference, del_tag')],
     'All reachable states up to the depth.', technique=HIST)

prop('C13', 'Metadata and references accept exactly valid values and keep them',
     'Setting dates, languages and the Unicode version accepts exactly the valid values (or any value when forced), refuses others without altering the metadata, keeps what '
     'was set and gives the scripts of the current languages; invalid languages and Unicode versions are recorded for the compliance verdict. References keep their order, values and comments, refuse '
     'invalid or used ids, and those added without id get the first free number.',
     ['inputs', 'histories'],
     'every history of up to three settings over menus of values, every history of up to four operations on references',
     'Tests set one field once.',
     ['lgr/metadata.py'], [('setters', 'lgr/metadata.py: Metadata')],
     'Exhaustive over the menu and histories of settings.', technique=HIST)

prop('C14', 'Writing an LGR as XML and reading it back gives the same LGR',
     'Reading back the document written for an LGR gives the same repertoire (with variants, conditions, tags, references, comments, ranges), metadata, '
     'references, classes, rules and actions in the same order, and the same answer for every label. This holds for LGRs made of entries, metadata and references set by API or read, rules read from a document, with texts of '
     'any characters XML carries unchanged, and after edits of the entries, metadata and references; writing the read document again gives the same bytes.',
     ['inputs', 'configurations', 'histories'],
     'every LGR of a family crossing all attributes of every element with menus of values (absent, plain, special characters), plus LGRs edited after reading',
     'Round trips are tested on a few files; attribute combinations, order and escaping are not.',
     ['lgr/parser/xml_serializer.py', 'lgr/parser/xml_parser.py'],
     [('writer', 'lgr/parser/xml_serializer.py'), ('reader', 'lgr/parser/xml_parser.py')],
     'Exhaustive over the attribute menus (pairwise full products within each element).', observe='written document and the LGR read from it')

prop('C15', 'Reading XML: valid accepted faithfully, invalid refused or repaired',
     'A valid document gives the LGR it describes, whatever its layout (attribute order, whitespace, comments, prefixes, encoding) and whatever was asked before of the parser. A document with a '
     'semantic fault (duplicate entry or variant, undefined reference, bad range, invalid date or language, code point not in IDNA, by-ref to an unknown rule or class...) is refused in strict mode. In '
     'forced mode the same document is read, and everything but the faulty parts is there.',
     ['inputs', 'fault_sequences'],
     'a base document with every single fault and every pair of faults of a menu injected, in strict and forced mode, over layouts',
     'Fault combinations and layouts multiply; the tests have one file per fault.',
     ['lgr/parser/xml_parser.py', 'lgr/core.py'], [('reader', 'lgr/parser/xml_parser.py')],
     'Exhaustive over single faults and pairs of faults of the menu.',
     technique='fault enumeration: every single fault and pair of faults injected in a document, real parser against a model of what must remain')

prop('C16', 'Text tables are read as their format says',
     'Every table in RFC 4290, RFC 3743 or one-code-point-per-line format gives the LGR whose code points, variants, references and metadata are those written in it, in '
     'any order of the lines (references first), with spaces, comments, blank lines and any number of fields; malformed lines are skipped or refused without altering the others. '
     'The format guess (XML, RFC 4290 or RFC 3743) chooses the format under which the table was written.',
     ['inputs'],
     'every table of up to three lines from a pool of line kinds per format, strict and forced',
     'Parsers carry state from line to line; tests read one well-formed file per format.',
     ['lgr/parser/rfc4290_parser.py', 'lgr/parser/rfc3743_parser.py', 'lgr/parser/line_parser.py', 'lgr/parser/heuristic_parser.py'],
     [('line loops', 'the three text parsers'), ('format guess', 'lgr/parser/heuristic_parser.py')],
     'Exhaustive over sequences of lines.')

prop('C17', 'Compliance verdicts follow from the recorded results and the policy',
     'The RFC 7940 verdict is FAIL, WARN or PASS exactly as the recorded test results and the policy say; a failure once recorded is never forgotten, in whatever order results come. '
     'Metadata and data compliance checks fail exactly on values which break the stated requirement.',
     ['histories', 'configurations'],
     'every history of recorded results up to a depth x every policy; every metadata/data value of a menu',
     'Order and combination of results; tests use one order.',
     ['lgr/rfc7940.py', 'lgr/validate/metadata.py', 'lgr/validate/miscellaneous.py'], [('aggregation', 'lgr/rfc7940.py')],
     'Exhaustive over histories and policies of the bound.', technique=HIST)

prop('C18', 'Symmetry, transitivity and condition validation are exact',
     'Validation reports every variant without its reverse, every missing transitive variant and every variant condition which names no rule, and nothing '
     'else; the verdict of each is true exactly when nothing is to report. The variant sets are the code points reached through variants from each code point, each set once, '
     'the least first. The report is the same whatever was validated before and '
     'whatever the order of definition.',
     ['inputs', 'configurations', 'histories'],
     'every variant relation over three code points and a sequence (with conditions in a smaller family), plus histories of validations with different options',
     'It is a statement over all graphs; tests check one good and one bad LGR.',
     ['lgr/validate/symmetry.py', 'lgr/validate/transitivity.py', 'lgr/validate/conditional_variants.py', 'lgr/validate/__init__.py'],
     [('checks', 'lgr/validate/'), ('list of checks run', 'lgr/validate/__init__.py')],
     'Every relation over the node set.')

prop('C19', 'Validation statistics count what is there',
     'The statistics reported for an LGR (number of code points - each of a range counted -, of ranges, of sequences and of rules, largest range and sequence, variants by type, '
     'mappings to distinct code points in all and on average over the entries which have some, largest variant set, code points by tag) are the counts one gets by '
     'listing its entries. Computing them changes nothing.',
     ['inputs', 'configurations'],
     'every LGR of a family of entries',
     'Statistics combine counters; tests compare one LGR.',
     ['lgr/validate/lgr_stats.py'], [('counters', 'lgr/validate/lgr_stats.py')],
     'Exhaustive over the family.')

prop('C20', 'Populating variants makes the LGR symmetric and transitive',
     'Populating completes: it terminates without error, the result is symmetric and transitive, every original code point and variant is still there, only code points '
     'which were variants of something are added, and what is added is no more than the closure requires. Populating twice changes nothing more.',
     ['inputs', 'configurations'],
     'every variant relation over three/four code points incl. missing code points, sequences and conditions',
     'Fixpoint and termination over all graphs.',
     ['lgr/populate/__init__.py'], [('closure', 'lgr/populate/__init__.py')],
     'Every relation of the family; closure recomputed independently.')

prop('C21', 'Union of two LGRs',
     'The union of two LGRs contains exactly the code points, variants and tags of both (with the conditions which are the same in both, where both have the code point), their scopes, languages and reference texts, the latest Unicode version and validity start and the earliest end, '
     'and all their actions, in order and once each. It has all their rules and classes: those of the same name with different definitions are suffixed _1 and _2 wherever they are used, the others are unchanged. '
     'It is the same on every run, shares nothing with its inputs, which are left as they were other than expanding ranges, and can be written and read back.',
     ['inputs', 'configurations'],
     'every ordered pair of LGRs of six families (metadata, attributes of a code point, variants, repertoires, rules and classes referring to one another, lists of actions), in two processes',
     'Pairs of inputs and hashes of strings; no test covers it.',
     ['lgr/tools/compare/union.py', 'lgr/tools/compare/utils.py'], [('union', 'lgr/tools/compare/union.py')],
     'Every ordered pair of the families.')

prop('C22', 'Intersection of two LGRs',
     'The intersection of two LGRs contains exactly the code points in both, with the tags, conditions and variants (same code points and conditions; the type if it is the same) in both, the scopes, languages, reference texts and actions in both, in order, and the rules and classes of the same '
     'name in both (suffixed _1 and _2 when their definitions differ); dates and Unicode version as for the union. It is the same on every run, shares nothing with its inputs and leaves them as they were other than expanding ranges.',
     ['inputs', 'configurations'],
     'every ordered pair of LGRs of six families, in two processes', 'Pairs of inputs and hashes of strings; no test covers it.',
     ['lgr/tools/compare/intersect.py', 'lgr/tools/compare/utils.py'], [('intersection', 'lgr/tools/compare/intersect.py')],
     'Every ordered pair of the families.')

prop('C23', 'The difference report says exactly what differs',
     'Comparing two LGRs reports each piece of metadata, reference, code point, comment, list of tags, condition, variant, action, rule and class which is not the same in both, with both values or what is in each one only, and nothing else; '
     'unless what is the same is also asked for, two LGRs with the same content give no difference. The report is the same on every run; for two sets it names the scripts which are in one only, and has the difference of each two LGRs of the same script.',
     ['inputs', 'configurations'],
     'every ordered pair of LGRs of six families in two processes, every ordered pair of lists of at most 2 of 6 LGRs', 'Pairs of inputs; no test covers it.',
     ['lgr/tools/compare/diff.py'], [('diff', 'lgr/tools/compare/diff.py')],
     'Every ordered pair of the families.')

prop('C24', 'Merging a set of LGRs keeps every script LGR\'s content',
     'The merged LGR of a set whose members have distinct first languages has every code point and variant (as blocked) of each member, with their tags, references and conditions, and every rule, class and action, '
     'their names made specific to the script except the common rule, all naming what they named; a code point with two different conditions is refused. Shared variants are made transitive, so a label has at least the variants of its member. '
     'The members are kept as they were and the order in which they are given does not matter.',
     ['inputs', 'configurations'],
     'every pair or triple of LGRs of a family, in every order', 'Sets of inputs; tests merge one set.',
     ['lgr/tools/merge_set.py'], [('merge', 'lgr/tools/merge_set.py')],
     'Every ordered tuple of the family.')

prop('C25', 'Harmonising makes shared variant sets agree',
     'After harmonising two LGRs whose variants are symmetric and transitive (with a root zone LGR or not), each has, for each of its code points, all the variants which it has directly or not in any of them, the missing code points being added; '
     'everything which was in them is kept as it was. The inputs are left as they were unless asked otherwise, the versions are marked as harmonised once, and the code points listed for review are those in one LGR only.',
     ['inputs', 'configurations'],
     'every pair, and every triple with a root zone LGR, of variant partitions of subsets of some nodes',
     'Variant sets may be chained through both LGRs and the root zone; tests have one pair of each.',
     ['lgr/tools/harmonize.py', 'lgr/populate/__init__.py'], [('harmonisation', 'lgr/tools/harmonize.py')],
     'Every ordered tuple of the family.')

prop('C26', 'Collision reports list exactly the labels which collide',
     'For a symmetric and transitive LGR without conditions on its variants, the collision reports of a list of labels name, once, each two labels of the list (and each label and existing TLD) which are variants of one another, '
     'and nothing else, whether indexes are computed or given; labels not in the LGR and malformed ones are reported as such. The dump gives every variant of each label with its disposition. Comparing two LGRs on a list of labels reports exactly the variants '
     'added and removed and the dispositions which differ.',
     ['inputs'],
     'every list of up to three labels over families of LGRs', 'Lists of labels.',
     ['lgr/tools/utils.py', 'lgr/tools/diff_collisions.py', 'lgr/core.py'], [('report', 'lgr/tools/diff_collisions.py')],
     'Every list of the bound.')

prop('C27', 'Annotated label lists say what the LGR says of each label',
     'Annotating a list of labels gives, for each label and in the same order, its disposition and, when it is not eligible, the action which decides it or the code points which are not in the LGR or do not comply; one label never affects another. With a set it also says whether the label is in, or collides with, the labels of the set which are in the merged LGR.',
     ['inputs'],
     'every list of labels (incl. comments, blank lines, invalid labels, A-labels) up to a bound', 'Lists of labels.',
     ['lgr/tools/annotate.py', 'lgr/tools/utils.py'], [('annotation', 'lgr/tools/annotate.py')],
     'Every list of the bound.')

prop('C28', 'IDNA 2008 and script constraints on code points',
     'A code point, sequence, variant, list or range is accepted in an LGR with a Unicode database exactly when IDNA 2008 allows each of its code points (PVALID, CONTEXTJ or CONTEXTO), unless the LGR is set not to check; ranges are checked code point by code point, and the check never changes how later ones behave. '
     'Rebuilding reports exactly the entries with code points which are not IDNA-valid, out of the validating repertoire or out of the scripts of the LGR. The compliance report lists exactly the entries which are not compliant, out-of-repertoire ones excepted.',
     ['inputs', 'histories'],
     'every code point of blocks of every IDNA class, alone, in ranges and in sequences, and sequences of checks',
     'A sampled code point says nothing of its neighbours.',
     ['lgr/core.py', 'lgr/utils.py', 'lgr/validate/rebuild_lgr.py', 'lgr/tools/idna2008_compliance.py'], [('checks', 'lgr/utils.py')],
     'Exhaustive over the code points of the universe.')

prop('C29', 'IDN table reviews report exactly the differences with the reference',
     'Reviewing a table against a reference LGR reports each code point, variant (in both directions), explicit class, rule and action of either exactly once, with a result which is MATCH only if it is the same in both and otherwise tells '
     'what the difference is (only in one, tags, conditions, types in their order of conservatism, members); the summary is the worst result and the counts of each part. A general rule is said to exist exactly when the table has the code points of its labels and refuses these labels. '
     'The same LGRs give the same report in every process.',
     ['inputs', 'configurations'],
     'every pair (table, reference) of a family; tables which have or not each of the code points of general rules', 'Pairs of inputs; tests review one pair per result.',
     ['lgr/tools/idn_review/', 'lgr/tools/idna2008_compliance.py'], [('review', 'lgr/tools/idn_review/')],
     'Every ordered pair of the family.')

prop('C30', 'Labels and code points are read and written faithfully',
     'Writing code points or labels in any of the supported notations (U-label, A-label, hexadecimal code points) and reading them back gives the same code points; malformed input is refused. Ranges '
     'made out of a list of code points cover exactly these.',
     ['inputs'],
     'every label up to a bound in every notation; every subset of a window of code points', 'Notations x labels.',
     ['lgr/utils.py', 'lgr/tools/utils.py'], [('parsing of labels', 'lgr/utils.py')],
     'Exhaustive over the bound.')

prop('C31', 'Command-line tools do on files what the library does on LGRs',
     'Each command-line tool (dumps of documents and text tables, merge of a set, population, comparison, harmonisation, annotation, collisions, validation of labels, RFC 7940 verdict, IDN table review, IDNA repertoire) writes '
     'or prints, for every combination of its options and files, exactly what the corresponding operations of the library give on the LGRs and labels of these files. A document which is malformed, or does not match the schema when one '
     'is given (members of a set, for which this is only reported, apart), is refused without output and without a crash; every label of an input is handled, and every reference label is compared. Nothing of the inputs is overwritten or left out of the output.',
     ['inputs', 'configurations'],
     'every combination of options of each tool x documents (pairs, sets) x lists of labels up to a bound', 'The tools have no tests at all: options, files and labels combine freely.',
     ['tools/', 'lgr/tools/utils.py'], [('tools', 'tools/'), ('arguments and files', 'lgr/tools/utils.py')],
     'Every combination in the bound, in the process; one run of each kind in a process of its own.')

prop('C32', 'Scripts of labels, languages and scripts of tags',
     'The script of a label is that of its first code point with a script of its own, Japanese when kana are mixed with ideographs and Korean for Hangul, whatever neutral code points come before. The language and script of a tag are '
     'its subtags (the language in its shortest code), the script being the usual one of the language when asked. The scripts of an LGR are those of all its current languages.',
     ['inputs', 'histories'],
     'every label up to a length over representatives of scripts, every code point; every language of the registry in every shape of tag; every list of languages up to a length', 'All orders of scripts in a label, all the registry.',
     ['lgr/tools/utils.py', 'lgr/utils.py', 'lgr/metadata.py'], [('script of a label', 'lgr/tools/utils.py'), ('tags', 'lgr/utils.py'), ('scripts of the languages', 'lgr/metadata.py')],
     'Exhaustive over the bound.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
            if p['observe']:
                anchors['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': anchors}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, 'mc', 'checks', p['id'] + '.py')) and not p['na']:
            checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                           'thorough_cmd': './check.sh %s thorough' % p['id'],
                           'technique': 'model checking: ' + (p['technique'] or MBT),
                           'level': 'model_checking', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
                   'notes': 'Checks import the code under /repo directly (no build product, no hook); see DESIGN.md.'},
                  f, indent=1, ensure_ascii=False)
        f.write('\n')
    import sys
    for p in P:
        n = p['statement'].count('. ') + 1
        if n > 3 or len(p['title']) > 80:
            sys.exit('%s: %d sentences, title %d' % (p['id'], n, len(p['title'])))
    print(len(checks), 'claimed,', len(na), 'not')


if __name__ == '__main__':
    main()
