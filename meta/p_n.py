import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_q.py').items() if k in ('P', 'ENUM', 'NOTE', 'QNOTE', 'B')})
L = 'crates/common/src/protocols/lns/'
PROPS = [
P('N01', 'A local name is the key it was given last and keys are never given away',
  'A name is the key it was given last, by every way of asking, and a key is called by that of its names that was given it last. A name that is taken is given anew only if that is asked for, opening a name gives its key to the right password only, and makes a key only if nothing saved by any process has the name. A name is written so that it reads back to the same parts, and looking for any name does no harm.',
  ['inputs', 'histories'], 'all histories to a bounded length of giving, opening and making keys under several names by two processes that look at the database at different times; all names from a set of parts',
  'Which of several claims counts depends on how their hashes sort and on what each process has seen; no test gives a name.',
  [L + 'mod.rs', L + 'admin.rs', L + 'claim.rs', L + 'local_claim.rs', L + 'eval.rs', L + 'name.rs', 'crates/linkspace/src/lib.rs'], [('setup_special_keyclaim, lookup_enckey, reverse_lookup', L + 'mod.rs'), ('save_private_claim, ptr_lookup', L + 'admin.rs'), ('lk_key', 'crates/linkspace/src/lib.rs')],
  'exhaustive enumeration of histories, each compared with a model of names and keys by every way of asking', NOTE + ' Public names are not looked at: their documentation says they are not fully implemented. That two processes make a key under one name in the same moment is not looked at.'),
P('N03', 'Setting up a key never replaces one unasked and its password opens it',
  'Asking for a key under a name makes one only where there is none, shows the one there is without changing it, and puts another in its place only when told to overwrite it. What is shown is what is kept, it opens with its password, and with no other, to the key whose public half is shown; giving it another password keeps the key it is. A wrong password, a key where there must be none and a missing one where there must be one are refused, with nothing shown and nothing changed.',
  ['inputs', 'histories', 'configurations'], 'all combinations of the options of stated sets on each of several states of the names, and all histories of such commands to a bounded length with other passwords, names and keys from elsewhere',
  'What is kept is lost only by a certain command after certain others, with a certain option; no test sets up a key.',
  ['crates/common/src/cli/keys.rs', L + 'mod.rs', 'crates/argon2-identity/src/lib.rs'], [('keygen, KeyOpts', 'crates/common/src/cli/keys.rs'), ('setup_special_keyclaim, lookup_enckey', L + 'mod.rs'), ('encrypt, decrypt', 'crates/argon2-identity/src/lib.rs')],
  'exhaustive enumeration of options and of histories of commands, run as a whole with real keys and a real database, against a model of names, passwords and keys', NOTE + ' Nobody types a password: it is given as an option. Overwriting a key from elsewhere together with the demand that there is one, or none, is not explored.'),
]
