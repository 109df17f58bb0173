import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_q.py').items() if k in ('P', 'ENUM', 'NOTE', 'QNOTE', 'B')})
SF = 'crates/core/src/stamp_fmt.rs'
SR = 'crates/core/src/stamp_range.rs'
MH = 'crates/core/src/mut_header.rs'
US = 'crates/common/src/pkt_stream_utils.rs'
PROPS = [
P('T01', 'Moments and durations are added, printed, read and compared exactly',
  'A duration written as numbers with units from large to small is added to or subtracted from a moment exactly; a result beyond the first or last moment is refused, or is the first or last where that is asked for, and any other text is refused without a panic. A printed duration is exact in the units that are shown and, if all are shown, reads back to the same duration. A range prints to a text that reads back to it, contains the moments from one end to the other with both, and tells for any moment whether it lies before, in or after it in its direction.',
  ['inputs'], 'all token rows to a bounded length as durations, all rows of arguments to a bounded length of the functions of the language, moments around all units and ends with all precisions, all pairs of ends with all moments of an edge set',
  'Rounding, overflow and byte strings that are no text show only for particular values; the tests print two.',
  [SF, SR, 'crates/pkt/src/stamp.rs'], [('parse_duration_str, duration_to_string, StampEF', SF), ('StampRange', SR)],
  'exhaustive enumeration of texts, arguments and values; reference in exact integer arithmetic', NOTE + ' The form of calendar dates is not looked at.'),
P('T02', 'Rewriting the route of a packet sets what was asked for and nothing else',
  'A list of settings gives every named field of the route (flags, hops, moment, user bits) the value it was set to last and leaves every other bit of the header as it was, wherever the header lies in memory. Fields that others rely on, other operators and values of another size are refused.',
  ['inputs'], 'all settings of every field with values of every kind, alone, in pairs and triples, on headers with every single bit set and cleared, at several alignments',
  'Whether old bits stay depends on old and new value together and on the place in memory; no test rewrites a header.',
  [MH, 'crates/pkt/src/field_ids.rs'], [('NetHeaderMutate', MH)],
  'exhaustive enumeration of setting lists x headers x alignments, compared bit by bit', NOTE),
P('T03', 'Filters on streams take out repeats only and pass data that is linked',
  'Taking out repeats never takes out a packet that did not pass before and always one that passed directly before, whatever the number of places it remembers. Holding back data passes a data packet exactly if the next link packet, or the last one before it, links it: once for each time it came, in the order they came and before the link packet.',
  ['histories'], 'all histories to a bounded length over packets that share places and packets that link each other',
  'What is remembered depends on the whole history and on which hashes share a place; no test uses the filters.',
  [US], [('QuickDedup, Buffer', US)],
  'exhaustive enumeration of histories, replayed on a reference model', NOTE),
]
