import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_a.py').items() if k in ('P', 'ENUM', 'NOTE')})
B = 'crates/pkt/src/'
PNOTE = NOTE + ' The packet crate is built from its unchanged sources under a manifest of ours, because one of its dependencies is not installed (a stand-in of the shared pointer type is used).'
PROPS = [
P('P01', 'A packet is the same in every form it is built, kept and sent in',
  'A packet built from its parts has exactly the bytes, hash and (when signed) a valid signature that the format prescribes, and every field read from any of its forms (parts, boxed, shared, read back from bytes at any alignment, serialised, with another network header) is the one it was built from. A packet that fits is accepted and one that does not is refused, and the free space that is reported is what the limit leaves. Replacing the network header changes nothing else.',
  ['inputs', 'configurations'], 'all combinations of the packet kinds with sets of headers, groups, domains, stamps, spaces, links and data sizes, and all sizes around the limits, in every form',
  'Tests build a few packets; the guarantee is about every combination of sizes and alignments and every form.',
  [B+'builder.rs', B+'point_parts.rs', B+'point_ptr.rs', B+'netpkt', B+'byte_segments.rs'], [('constructors', B+'builder.rs'), ('forms', B+'netpkt'), ('byte segments', B+'byte_segments.rs')],
  ENUM.format('packets'), PNOTE),
P('P02', 'Untrusted bytes are read as a packet only if they are one',
  'Reading bytes gives a packet exactly when they are well formed: consistent sizes and offsets, a valid space, clean padding, the right hash and a valid signature. Otherwise it is an error that says how many bytes are missing when, and only when, more bytes could complete it. Nothing outside the given bytes is read and no bytes crash the reader.',
  ['inputs'], 'every cut, every single byte change, all type and size pairs, all offset pairs, and pairs of header, index and space bytes of a set of packets, at the edge of readable memory',
  'Packets come from strangers; tests read only good ones.',
  [B+'read.rs', B+'point_ptr.rs', B+'point.rs', B+'rooted_space.rs'], [('read_pkt', B+'read.rs'), ('internal_consitent_length', B+'point_ptr.rs'), ('check', B+'point.rs')],
  ENUM.format('packets bytes') + ', under a guard page', PNOTE),
P('P03', 'A space is at most eight non-empty components, whatever is done to it',
  'Every operation on spaces gives the space its components denote or refuses when it would exceed eight components, 200 bytes for one or 242 in all; prefixes, ranges, splitting, iteration and the indexed form agree with the list of components. Bytes are accepted as a space, or as an indexed one, exactly when they are one.',
  ['inputs', 'programs'], 'all sequences of operations to a bounded depth over component sets with the extremes, all pairs of spaces for prefixes, all short byte strings as space and as index',
  'Tests apply single operations to ordinary spaces.',
  [B+'space.rs', B+'rooted_space.rs'], [('operations', B+'space.rs'), ('indexed form', B+'rooted_space.rs')],
  'explicit state exploration: breadth first over operation sequences on the real type against a list of components', PNOTE),
P('P04', 'Everything printed about a packet can be read back and is safe to show',
  'For every packet and each of its fields, the field expression gives the exact bytes, its expression form evaluates back to those bytes, and its text form never fails. Printed packets and link lists name the right values in a form that reads back, links are found by tag suffix, and names and letters of fields are unambiguous. The HTML form has only its own elements and attributes whatever the packet contains, and its text decodes to what was in the packet.',
  ['inputs'], 'packets with every byte at every kind of place, and all short texts over an alphabet of delimiters, markup and invalid text as data, component, domain and tag',
  'Tests print one packet.',
  [B+'eval.rs', B+'field_ids.rs', B+'repr.rs', B+'link.rs'], [('fields', B+'field_ids.rs'), ('scope', B+'eval.rs'), ('formats', B+'repr.rs')],
  ENUM.format('packets'), PNOTE),
P('P05', 'The text forms of a space read back to the same space',
  'Every space printed as text, as expression, as list or by the encoder reads back to the same components, also as an argument in expressions; a range of components is the one asked for. Reading any text gives a valid space, the one the text denotes, or an error, and never crashes.',
  ['inputs'], 'spaces with every byte and every length of component and of every shape, all short texts over the delimiters, and all ranges',
  'A test prints three spaces.',
  [B+'space_fmt.rs'], [('Display / parse', B+'space_fmt.rs'), ('functions of the space scope', B+'space_fmt.rs')],
  ENUM.format('spaces and texts'), PNOTE),
P('P06', 'Packets are totally ordered by the fields of the index',
  'Packets compare by group, domain, depth, space, public key, create stamp and hash in this order; the order is total, two packets are equal exactly when their hashes are, and neither the form nor the network header matters. An index entry gives back the fields it was made from, and stamp arithmetic is exact or saturates as documented.',
  ['inputs'], 'all pairs of a set of packets that vary in every field, prefixes included; all pairs of boundary stamps and durations',
  'No test compares packets.',
  [B+'netpkt/cmp.rs', B+'netpkt/tree_order.rs', B+'stamp.rs'], [('Ord', B+'netpkt/cmp.rs'), ('entries', B+'netpkt/tree_order.rs'), ('stamps', B+'stamp.rs')],
  ENUM.format('pairs of packets'), PNOTE),
]
