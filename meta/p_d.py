import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_q.py').items() if k in ('P', 'ENUM', 'NOTE', 'QNOTE', 'B')})
PROPS = [
P('D01', 'Saving keeps every packet once, whatever the clock, a failure or a crash does',
  'A save that succeeds adds exactly the packets that are not there yet, once each and unchanged, with stamps that increase whatever the clock says, to the log and to every index, and announces the last one. A save that fails adds nothing, and after a crash either all or nothing of it is there. A reader sees the database as it was until it asks again.',
  ['histories', 'crash_points', 'fault_sequences'], 'all histories to a bounded length of batches with new, known and repeated packets, clocks that stand still, advance and go back, and a failure or death at each step of the transaction',
  'Tests save with one clock and no failure.',
  [B+'env/lmdb/save.rs', B+'env/lmdb/mod.rs', B+'env/lmdb/get.rs'], [('save', B+'env/lmdb/save.rs'), ('announcing', B+'env/lmdb/mod.rs')],
  'exhaustive enumeration of histories, clocks, failing steps and crash points of the real code against a list model', QNOTE),
P('D02', 'A database can be opened again whatever happened while it was created',
  'Processes that open a database at the same time, die while they create it or have a call fail leave something that every other process can open: with one identity, and with the initial packets once each, readable. What is already there is kept, and a directory that holds something else is refused and not changed.',
  ['schedules', 'crash_points', 'fault_sequences', 'configurations'], 'all interleavings to a bounded number of preemptions of processes that open one directory, with a kill at every file and database step (writes cut at every length), a failing call, and every prior content',
  'A test opens a fresh directory once, in one process that lives.',
  [B+'env/lmdb/mod.rs', B+'env/lmdb/db.rs'], [('open', B+'env/lmdb/mod.rs'), ('open', B+'env/lmdb/db.rs')],
  'stateless exploration of all schedules and crash points of the real code over a model of the file system', QNOTE),
]
