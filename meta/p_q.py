import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_a.py').items() if k in ('P', 'ENUM', 'NOTE')})
B = 'crates/core/src/'
QNOTE = NOTE + ' The core crate is built from its unchanged sources under a manifest of ours, because several of its dependencies are not installed: an in-memory database with the semantics of the installed one (tables, duplicate sort, transactions), a clock and a process notification stand in for them.'
PROPS = [
P('Q01', 'A set of rules on a number has exactly the values that satisfy every rule',
  'However equality, order and bit rules on a value are combined, the set contains a value exactly when each rule holds for it, and it is reported empty exactly when there is none. The smallest member and the smallest member at or after any value are found. The rules printed from a set denote the same set.',
  ['inputs', 'programs'], 'all rules and all pairs and triples of rules over small widths with every value, over boundary values for the wide types, and all byte sets',
  'Whole index scans skip by these sets; a test tries a few rules.',
  [B+'predicate/value_test.rs', B+'predicate/bitset_test.rs', B+'predicate/uint.rs'], [('TestSet, Bound, Mask', B+'predicate/value_test.rs'), ('BitTestSet', B+'predicate/bitset_test.rs')],
  ENUM.format('sets of rules'), QNOTE),
P('Q02', 'A query and its text are the same, and options are found from the top',
  'Every query prints as text, plain or as expression, that reads back to the same predicates and options. Reading an option gives the one added last, which is the topmost in the text, and a name that is not an option is an error. Text that is no statement is an error and never crashes the reader.',
  ['inputs', 'programs'], 'all statements over boundary values alone and in pairs, all lists of options to a bounded length and way of adding, all texts of fields, delimiters, operators and values, all short token texts',
  'Queries are sent to other processes and domains as text; tests print one.',
  [B+'query.rs', B+'predicate/exprs.rs', B+'predicate/pkt_predicates.rs', 'crates/abe/src/abconf.rs'], [('Query', B+'query.rs'), ('statements', B+'predicate/exprs.rs'), ('printing', B+'predicate/pkt_predicates.rs')],
  ENUM.format('queries and texts'), QNOTE),
P('Q03', 'A query accepts a packet exactly when every statement holds for it',
  'A packet is accepted exactly when it has each field that is asked about and every statement holds, whatever their order and however they were added. Counters accept exactly the packets whose position satisfies them and stop the query once no more can. A query is refused only when no packet can satisfy it.',
  ['inputs', 'programs', 'histories'], 'all pairs of statements and chosen triples over the values that separate a set of packets that vary in every field, and all histories of matches for counters',
  'Every subscription depends on it; tests try a handful of predicates.',
  [B+'predicate', B+'matcher/mod.rs'], [('compile', B+'predicate/test_pkt.rs'), ('WatchEntry', B+'matcher/mod.rs')],
  ENUM.format('queries against packets'), QNOTE),
P('Q04', 'A query of the database returns exactly the packets that match, in its order',
  'In every mode, for every query and every content of the database, the packets returned are exactly those in the database that satisfy the query, once each, in the order of the mode. Limits and counters take the first that match in that order. A chosen hash is looked up with the same result as a scan.',
  ['inputs', 'histories', 'configurations'], 'all subsets to a bounded size of packets that agree and differ in every indexed field, for all single statements, pairs and modes, against a scan of the list',
  'Index scans seek and skip by many bounds at once; only some contents make a seek go wrong.',
  [B+'env/lmdb/queries.rs', B+'env/lmdb/tree_iter.rs', B+'env/tree_key.rs', B+'env/lmdb/get.rs', 'crates/pkt/src/tree_order.rs'], [('query', B+'env/lmdb/queries.rs'), ('TreeKeysIter', B+'env/lmdb/tree_iter.rs'), ('log and hash access', B+'env/lmdb/get.rs')],
  ENUM.format('database contents and queries'), QNOTE),
]
