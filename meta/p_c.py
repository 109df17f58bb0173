import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_q.py').items() if k in ('P', 'ENUM', 'NOTE', 'QNOTE', 'B')})
ST = 'crates/linkspace/src/conventions/status.rs'
PU = 'crates/linkspace/src/conventions/pull.rs'
RD = 'crates/common/src/pkt_reader.rs'
HS = 'crates/common/src/protocols/handshake.rs'
PROPS = [
P('C01', 'Status requests are answered by those they are for, and nothing else is',
  'A status request (private, in the domain, at exactly the space of a type or of one instance, without data and links) is answered once by every instance it is for, and nothing else is answered; the answers of an instance form a chain that starts at the zero hash. Asking makes a new request only if none for the same instances is known that is younger than the timeout; the asking callback gets every known answer that is young enough and every new one until the last request is as old as the timeout, each once, and nothing after it ended itself. An answer that is none is not saved.',
  ['histories'], 'all histories to a bounded length of two processes that set and ask for status with every combination of instances and timeouts, while others save requests, answers and packets that are almost either',
  'Which packets count as request or answer, and what was already asked, depends on the whole history; no test uses the convention.',
  [ST, 'crates/common/src/runtime/rx.rs'], [('lk_status_set, lk_status_watch', ST)],
  'exhaustive enumeration of histories of the real convention in two runtimes on one database, each replayed on a reference model; log and callbacks compared', QNOTE),
P('C02', 'A pull request carries its query and stands at its place',
  'A query with an exact group, an exact domain and an id becomes a saved private packet without links in the exchange domain, at the space made of pull, the group, the domain and the id, and its data reads back as the same query. Any other query, an id that does not fit, and a query that does not fit a packet are refused without a panic and nothing is saved.',
  ['inputs'], 'all lists to a bounded length of statements about groups and domains, options and ids of all kinds, and queries around the size of a packet',
  'Lists of statements interact (exact, range, implied), and ids and options hold any bytes; no test makes a pull request.',
  [PU, 'crates/core/src/query.rs'], [('lk_pull', PU)],
  'exhaustive enumeration of statement lists, each request read back from the database', QNOTE),
P('R01', 'A stream of packets is read the same however it arrives',
  'From a stream that is a row of packets the same packets are read in the same order whatever pieces its bytes arrive in and wherever a read is interrupted, and an end between two packets is a clean end. A packet that is broken, too large or not allowed, a failing source and a stream that ends inside a packet end the reading with an error after all packets before it; nothing that is not a packet is given out, and what is given out has one more hop unless that is turned off.',
  ['inputs', 'fault_sequences'], 'all rows to a bounded length of packets of all kinds and broken packets, cut at every byte, in reads of every size, with interruptions, empty reads and failures at every position and pair of positions, and every way to limit what is read',
  'Where a read ends and what is interrupted depends on the operating system and the peer; no test reads from anything but whole files.',
  [RD], [('NetPktDecoder', RD)],
  'exhaustive enumeration of streams x ways of arrival x faults, against a direct parser of the stream', QNOTE),
P('R02', 'A source of data is cut into blocks without losing or reordering anything',
  'A source of data that is a text, a file or a mapped file is given out in blocks that end at the delimiter, or at the size of one read, and together are exactly the source: nothing is lost, doubled or put in another order, and no block is larger than the free space. What does not fit is, as asked for, refused, given as the next block, put in front of the next read, or dropped, and nothing else is dropped. A limited number of reads, repetition of the source and evaluation of what was read apply to each read.',
  ['inputs', 'configurations'], 'all sources to a bounded length over letters, the delimiter and expressions, with every combination of source kind, size of a read, delimiter, limit, repetition, evaluation, treatment of what does not fit, and every sequence of free spaces to a bounded length',
  'Losses appear only for certain combinations of a limit, a delimiter and the free space at that moment; no test reads a source of data.',
  ['crates/common/src/cli/reader.rs'], [('DataReadOpts', 'crates/common/src/cli/reader.rs'), ('Reader', 'crates/common/src/cli/reader.rs')],
  'exhaustive enumeration of sources x options x sequences of free spaces, against a model of a reader over a list of bytes', 'Standard input and a free space of 0 are not explored. '+NOTE),
P('G01', 'A place and the short options select the packets they stand for',
  'A text of a domain, a group, a space and a depth selects exactly the linked packets of that domain and group that are at the space or at most the given number of components below it, with the default domain and group where they are left out; a text that is not a place is refused. Each short option adds exactly what it is documented to: only stored or only new packets, up to a number of packets of each kind, signed or unsigned, received before the end of the given duration, a name, following links. Any combination of them selects what satisfies each.',
  ['inputs', 'configurations'], 'all rows of texts for the four parts, with and without defaults, in full and with the empty end left out, and all combinations of the options with boundary values, against packets at, below, beside and above every place',
  'Which packets are selected depends on the combination of the parts; no test makes a place or uses an option.',
  ['crates/common/src/dgs.rs', 'crates/common/src/predicate_aliases.rs'], [('DGSDExpr', 'crates/common/src/dgs.rs'), ('PredicateAliases', 'crates/common/src/predicate_aliases.rs')],
  'exhaustive enumeration of texts and options, each evaluated by the code to a query and compared packet by packet with a direct reading', 'Asking for signed and unsigned packets at once is refused by the command line itself and not explored. '+NOTE),
P('R03', 'Commands that pass packets on lose, double, reorder and change none',
  'A command that takes packets in gives each of them to the destination its options name for it, byte for byte and in order of arrival, up to the first error and up to the end that was asked for: filtering, saving, following links, collecting and rewriting. What a command makes of them, a packet with other fields, a packet that links what was collected, the packets that links lead to or points from blocks of data, is exactly what its options say, in the stated place among the others, and everything else of a rewritten packet is kept. Packets of the private group are read or written only where that was allowed.',
  ['inputs', 'histories', 'configurations'], 'all rows of packets to a bounded length through every command with every combination of its options of the stated sets, all sets of stored packets of a graph of links, and two runs of saving one after the other',
  'A lost, doubled or misplaced packet appears only for a certain row together with certain options; no test runs a command.',
  ['cli/linkspace/src/filter.rs', 'cli/linkspace/src/rewrite.rs', 'cli/linkspace/src/collect.rs', 'cli/linkspace/src/get_links.rs', 'cli/linkspace/src/save.rs', 'cli/linkspace/src/point.rs', 'crates/common/src/cli/opts.rs'],
  [('select', 'cli/linkspace/src/filter.rs'), ('rewrite', 'cli/linkspace/src/rewrite.rs'), ('collect', 'cli/linkspace/src/collect.rs'), ('exec', 'cli/linkspace/src/get_links.rs'), ('save', 'cli/linkspace/src/save.rs'), ('linkpoint', 'cli/linkspace/src/point.rs'), ('write_dest', 'crates/common/src/cli/opts.rs')],
  'exhaustive enumeration of rows of packets x options for each command, run as a whole on files and a database, and compared byte for byte with a model of the command', 'The commands are run from their options as values, not from a command line; collecting by time and the two modes of following links that wait for a packet that is not stored are not explored. '+NOTE),
P('R04', 'Packets are printed by their template, one each, in order',
  'Every packet that may be shown is printed once and in order of arrival, as the template for its kind with what the packet holds in its place, with the delimiter after each or between them and nowhere else. A packet a template cannot be filled in for is printed as the text for errors, or ends the command with an error if there is none; a template that cannot be read prints nothing. Each packet that was printed is also passed on unchanged where that was asked for, and packets of the private group only where that was allowed.',
  ['inputs', 'configurations'], 'all rows of packets to a bounded length x all lists of templates to a bounded length x all combinations of the other options',
  'A missing delimiter, a wrong template or a lost packet shows only for a certain row with certain options; no test prints a packet.',
  ['cli/linkspace/src/pktf.rs', 'crates/common/src/cli/opts.rs'], [('pkt_info', 'cli/linkspace/src/pktf.rs'), ('inp_reader, write_dest', 'crates/common/src/cli/opts.rs')],
  'exhaustive enumeration of rows of packets x templates x options, run as a whole, and compared byte for byte with a model of the command', 'The command is run from its options as values, not from a command line. '+NOTE),
P('R05', 'Queries from a stream are answered within the limits they are given',
  'Each query that arrives as a packet is answered in order of arrival with exactly the stored packets that match both it and the first of the given limits it can be combined with, in its order and up to its maximum. A query that cannot be read, or cannot be combined with any limit, is not answered, does not change how later ones are answered, and never reaches a packet outside the limits. A query that asks to be told of its end gets itself back once it has ended or was replaced, and packets of the private group are given only where that was allowed.',
  ['inputs', 'histories', 'configurations'], 'all rows of queries to a bounded length from a stated set x all lists of limits to a bounded length x the other options',
  'A limit is passed only by a certain query after, or together with, certain limits; no test answers a query from a stream.',
  ['cli/linkspace/src/multi_watch.rs', 'cli/linkspace/src/watch.rs', 'crates/common/src/runtime/handlers.rs', 'crates/common/src/runtime/mod.rs'], [('multi_watch', 'cli/linkspace/src/multi_watch.rs'), ('PrintABE', 'cli/linkspace/src/watch.rs'), ('NotifyClose', 'crates/common/src/runtime/handlers.rs')],
  'exhaustive enumeration of rows of queries x limits x options, run as a whole on a database, and compared byte for byte with a model of the command', 'What comes in while the queries are open is checked with W01. Whether what lies behind a private packet is still given where private packets are not to be written is left open. '+NOTE),
P('R06', 'Asking for what is stored gives what matches, in order, to each destination',
  'Asking for stored packets by a place, the short options and further rules gives each destination exactly the packets that match all of them, in the order that was asked for, up to each of the limits, and then ends if nothing that comes later can match. Rules that contradict each other, or that do not exist, give nothing. Where the question is to be shown instead, what is shown reads back as a question for the same packets in the same order.',
  ['inputs', 'configurations'], 'all combinations of a set of places, short options, limits, rules, orders, destinations and ways to show it on a database of packets that lie in, below, beside and above the places',
  'A rule that is dropped, or an order that is not the one asked for, shows only for certain combinations of options on certain packets; no test runs the command.',
  ['cli/linkspace/src/watch.rs', 'crates/common/src/dgs.rs', 'crates/common/src/predicate_aliases.rs', 'crates/common/src/cli/opts.rs', 'crates/common/src/runtime/mod.rs'], [('watch, CLIQuery, DGPDWatchCLIOpts', 'cli/linkspace/src/watch.rs'), ('predicate_exprs', 'crates/common/src/dgs.rs'), ('as_predicates', 'crates/common/src/predicate_aliases.rs'), ('multi_writer', 'crates/common/src/cli/opts.rs')],
  'exhaustive enumeration of combinations of options, run as a whole on a database, and compared byte for byte with a model', 'Only questions that end without a further packet are asked; what comes in later is checked with W01. '+NOTE),
P('H01', 'A handshake that accepts a key was made with the holder of the key',
  'Whatever packets others deliver, repeat, reorder, delay or make up: a server accepts a key only for the last message of a client with that key that accepted exactly this answer of the server, and a client accepts a key only for the answer that a server with that key gave to its own first message. Messages of another form or, for the first two, more than the allowed time away from the clock are refused without a panic. A client and a server with different keys can always complete it.',
  ['schedules', 'histories'], 'all reachable states of up to five clients and servers of two honest keys with an attacker who sees everything, has a key of its own, and delivers any packet seen or made up to anyone at any time',
  'The guarantee is about every interleaving of concurrent handshakes under attack; no test makes a handshake.',
  [HS], [('phase0_client_init to phase3_server_verify', HS)],
  'explicit state exploration: the states are those of the real functions with real keys and packets, every delivery is executed by them, and states that only differ in names are merged', 'Signatures and hashes are assumed to be unforgeable: the attacker signs with its own key only. Honest keys sign nothing else that has the form of a handshake message. '+NOTE),
]
