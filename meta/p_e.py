import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_q.py').items() if k in ('P', 'ENUM', 'NOTE', 'QNOTE', 'B')})
EV = 'crates/common/src/eval/mod.rs'
FI = 'crates/common/src/eval/file.rs'
PROPS = [
P('E01', 'Named files read what was stored and no path leads out of their directory',
  'Storing bytes under a path makes the directories on the way and the file, and replaces an existing file only if asked to; reading the path, directly or from an expression, gives what was stored under it last, and a file that is not there is nothing or an error, as asked for. A path that starts at the root or contains a step up is refused by both, and nothing outside the directory is read, made or changed.',
  ['inputs', 'histories'], 'all paths to a bounded number of parts from a set with steps up, empty, long and unusual parts, on several trees; all histories of operations to a bounded length',
  'Whether a path leads out depends on its parts and their order, and whether a file is kept on what was stored before; no test stores a file.',
  [FI], [('set_files_data, files_data, check_path, FileEnv', FI)],
  'exhaustive enumeration of paths and histories on the real file system (as nobody), against a model tree', NOTE + ' Links in the directory are not looked at.'),
P('E02', 'Expressions that read the database give the packet named, nothing private',
  'A packet read by its hash or by its place answers every question about it as it would if it were at hand, whatever other packet is in scope; of several in one place the one created last is meant, and what lies below the place is not. What is not there gives the alternative if there is one and else an error. Packets of the private group are not shown unless that was allowed, nor are variables of the system.',
  ['inputs', 'histories'], 'every packet of a small set by three writings of its hash × fifty questions × fifteen expressions × packets in scope; every place of a grid × keys × the number of parts given; for all, none, all but one and one of the packets being stored',
  'The answer depends on which packets are stored, on the packet in scope and on the spelling of the place; no test reads from an expression.',
  [EV], [('ReadHash: readhash, read, OSEnv', EV)],
  'exhaustive enumeration of stored sets, questions and places on the real database, against evaluation with the packet itself and a model of the set', NOTE),
]
