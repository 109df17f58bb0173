import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_q.py').items() if k in ('P', 'ENUM', 'NOTE', 'QNOTE', 'B')})
LK = 'crates/linkspace/src/lib.rs'
PROPS = [
P('L01', 'What is saved through the interface can be got, and its numbers are right',
  'After any history of saving one or several packets, processing and opening by several runtimes, every query gives the packets that match and were processed, once each and in its order, with the moment they were received; the first one is the one given alone; and a list of hashes gives those that are there, in the order of the list. The numbers returned say which packets were new, which stamps they got and how often the callback was called, wherever it stopped.',
  ['histories', 'inputs'], 'all histories of 19 operations to length two and of nine to length three (five) by two runtimes on one database × fourteen queries × seven modes × every point to stop',
  'What is returned depends on the history, on what each runtime has processed and on when the callback stops; no test calls these functions.',
  [LK], [('lk_save, lk_save_all(_ext), lk_process, lk_get(_ref, _all, _hashes), lk_hash_query, lk_info', LK)],
  'exhaustive enumeration of histories, queries and stops on the real database, against a model log', NOTE + ' The sign of what lk_get_all returns is left open: its documentation contradicts itself.'),
P('L02', 'Expressions see what they were given and nothing else',
  'An expression evaluates with the packet and the arguments it was given, the database of the thread or the one given, and variables of the system only where asked for; loose reading takes bytes that mean nothing as they are and strict reading refuses them. Text is split exactly at the delimiters that are not excluded, and bytes encoded by any options evaluate to these bytes. Statements of a query may be parsed, added or contain expressions with the same result, and the compiled query accepts what they say.',
  ['inputs', 'configurations'], 'expressions of two (three) pieces out of thirty × packets × lists of arguments × scopes; texts to four (five) characters × lists of excluded delimiters; values × pairs of encoders; pairs of statements × packets; which databases were opened where',
  'What is in scope depends on how the evaluation was called and on what the thread did before; no test evaluates through the interface.',
  [LK], [('lk_eval(_loose), lk_tokenize_abe, lk_encode, lk_try_encode, UserData, scope, varscope', LK), ('lk_query_parse, lk_query_push, lk_query_compile', LK)],
  'exhaustive enumeration of expressions, texts and what is given, against their values', NOTE),
P('L03', 'Points are built as asked, read from a buffer, and private only if allowed',
  'A point is built from what is given, with the present as creation moment if none is, or refused when it does not fit. From the front of a buffer at any alignment the first packet is read, with what follows it, exactly if it is one; the unchecked reading does not look at hash and signature and at nothing less. What is private is read and written only where that is allowed, and writing gives all the bytes however slowly they are taken, or an error.',
  ['inputs', 'fault_sequences'], 'points of every kind over a grid of fields and at every limit of the size; every byte of small packets changed, every length; writers that take any part or fail at any of several places',
  'The limits meet only at certain combinations of space, links, key and data, and a short write or an odd alignment only at certain callers; no test goes through these functions.',
  [LK], [('lk_datapoint, lk_linkpoint, lk_keypoint (_ref), lk_read(_unchecked), lk_write, bytes2uniform', LK)],
  'exhaustive enumeration of fields, bytes, alignments and writers, against the documented layout', NOTE),
]
