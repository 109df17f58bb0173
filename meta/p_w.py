import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_q.py').items() if k in ('P', 'ENUM', 'NOTE', 'QNOTE', 'B')})
RX = 'crates/common/src/runtime/rx.rs'
MA = 'crates/core/src/matcher/mod.rs'
LK = 'crates/linkspace/src/lib.rs'
PROPS = [
P('W01', 'A watch gets every matching packet once, in order, and is told when it ends',
  'A watch gets the matching packets of the database in the order it asks for, then every new matching packet exactly once in the order of arrival, until its callback ends it, its limits are used up, or it is stopped or replaced; it gets nothing after that, and a registered watch is told so once, with the reason and its counts. Callbacks may save, watch, stop and process themselves; what they ask for takes effect when they are done. The result of watching says how many packets it got and whether it is still registered.',
  ['histories', 'programs'], 'all histories to a bounded length of saving, watching with every kind of limit, stopping, processing and time, and all callback programs to a bounded size in several histories, with watches made by callbacks three deep',
  'No test watches anything; what matters is the combination of callbacks, limits and the moment of stopping.',
  [RX, MA, 'crates/common/src/runtime/handlers.rs', LK], [('process, watch, close', RX), ('tests and limits of a watch', MA)],
  'exhaustive enumeration of histories and callback programs of the real runtime, each replayed on a reference model and compared event by event', QNOTE),
P('W02', 'Waiting for packets ends when it should and never oversleeps',
  'Waiting for a watch returns as soon as it got a packet, was dropped or replaced, waiting for all returns when no watch is left, and both return when the time is over; the result says which. However the saves of other processes fall between looking at the log and going to sleep, nobody sleeps while a saved packet waits to be delivered, or past the moment at which a watch can match no more.',
  ['schedules', 'histories'], 'all sequences to a bounded length of what other processes do at each moment before and during the sleep, for sets of watches with every kind of limit and callback, waits for an id or for all, and time limits',
  'A lost wake-up needs a save at one particular moment; no test waits.',
  [RX, 'crates/core/src/env/lmdb/mod.rs', 'crates/ipcbus/src/udp_procbus.rs', LK], [('run_while, poll', RX), ('waiting for the log', 'crates/core/src/env/lmdb/mod.rs')],
  'exhaustive enumeration of what happens at every wait of the real runtime against a reference model that is asked at each moment whether sleeping is right', QNOTE),
]
