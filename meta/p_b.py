import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_a.py').items() if k in ('P', 'ENUM', 'NOTE')})
B = 'crates/ipcbus/src/'
SCHED = 'stateless exploration of the real code under a controlled scheduler and a virtual operating system: {}'
BNOTE = 'the real library runs unchanged on a scheduler that decides every interleaving; system calls and atomics are stand-ins (their behaviour is assumed), the standard library, lock and socket crates above them are real'
PROPS = [
P('B01', 'Processes agree on the port of a bus, even when one of them dies',
  'Processes that look up the port of the same bus get the same port, and different buses never share a port, in every interleaving of up to three processes. This stays true when a process is killed at any of its system calls, in the middle of writing the shared map, when a call fails, or when the map on disk ends in a cut record: ports handed out before are kept. Nobody is left waiting for a dead process, and only files in the temporary directory are touched.',
  ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of file and lock calls of up to three processes, every call as crash point with writes torn at every byte, every call as the failing one, over seven kinds of existing maps',
  'No test runs two processes or stops one halfway.',
  [B+'udp_procbus.rs'], [('get_port', B+'udp_procbus.rs')], SCHED.format('all interleavings, crash points, torn writes and single failures'), BNOTE),
P('B02', 'The value of a bus only grows, reaches every process and wakes its waiters',
  'Whatever the interleaving, the value of a bus never goes back, is always a value that somebody emitted, and emitting gives back a value at least as large. Once everything is delivered all processes hold the largest value, and everybody who was asleep waiting for it, blocking, with a deadline or asynchronously, has been woken; a wait that ends by its deadline gives no value. When sending fails, the own process still holds the value and wakes its waiters, and starting twice still receives once; nothing is sent to other machines.',
  ['schedules', 'fault_sequences'], 'every interleaving of atomic operations, notifications, sends and receives of up to three processes and four threads, every choice of failing sends',
  'Tests run one schedule of a race.',
  [B+'udp_procbus.rs', B+'udp_multicast.rs'], [('emit / next_deadline', B+'udp_procbus.rs'), ('rx_thread', B+'udp_multicast.rs')], SCHED.format('all interleavings up to independent operations, and the stated preemption bounds'), BNOTE),
P('B03', 'Only whole local messages for the same bus change its value',
  'A datagram that is cut, overlong, garbage, for another bus or from another machine never changes the value of a bus, never crashes the process, and never stops it from receiving: a whole message that follows still arrives and wakes who waits. Whole messages count in any order and number, the value being the largest of them. Received values are not sent again.',
  ['inputs', 'histories'], 'every datagram of 250 kinds (every length, every cut, every changed bit of the bus, foreign addresses) before and between whole messages, and all sequences of fifteen kinds to length three',
  'Any process can send to the port; no test does.',
  [B+'udp_procbus.rs', B+'udp_multicast.rs'], [('init', B+'udp_procbus.rs'), ('recv', B+'udp_multicast.rs')], SCHED.format('all sequences of datagrams to the stated length'), BNOTE),
]
