"""The workloads of every check. quick/deep are numbers of cases."""


def J(variant, driver, mode, quick, deep=None, **kw):
    d = dict(variant=variant, driver=driver, mode=mode, quick=quick, deep=deep if deep is not None else quick * 20)
    d['batch'] = kw.pop('batch', 40 if variant == 'det' else 20)
    d['weight'] = kw.pop('weight', 1 if variant in ('det', 'plain') else 2)
    d.update(kw)
    return d


LEVEL_NOTES = {
    'default': 'Monitored executions of the real code under seeded schedules and workloads: assurance is for the executions observed, '
               'counted in the evidence. Controlled schedules are sequentially consistent; weak memory effects are only seen by the ThreadSanitizer runs.',
}
SEQ = 'schedules of the controlled runs are sequentially consistent and switch at synchronisation operations and atomics'
VTIME = 'time is virtual in the controlled runs: it passes while threads wait and 100 ns per reading, with injected lateness of waits up to 200 us'
STRESS = 'uncontrolled runs depend on the schedules the machine produces'
NETNS = 'where a network namespace cannot be made the loopback is used, without broadcast and multicast (evidence: own_network)'
RULE_DET = ('A case is a random program and a random schedule. Distinct: the hash of the sequence of scheduling decisions and operations '
            '(controlled runs) or of the order of task executions over threads (stress runs); only cases in which tasks ran are counted.')

SIM = 'the sockets and the clock below the nodes are simulated: one thread runs all nodes, and the operating system never fails other than in sending'
RULE_NET = ('A case is a random set of nodes, messages, starts, stops and network faults. Distinct: the hash of the sequence of datagrams sent, messages delivered and '
            'joins and leaves reported, with their sizes and nodes.')

CHECKS = {
    'C01': dict(technique='exactly-once checker over event logs of controlled random schedules and sanitizer stress runs', rule=RULE_DET,
                jobs=[J('det', 'sched', 'once', 6000, 200000), J('tsan', 'sched', 'once', 100, 3000), J('asan', 'sched', 'once', 200, 6000)], assumptions=[SEQ, STRESS]),
    'C02': dict(technique='canary and live-count monitors on messages under controlled schedules and address sanitizer', rule=RULE_DET,
                jobs=[J('det', 'sched', 'data', 5000, 150000), J('asan', 'sched', 'data', 400, 8000)], assumptions=[SEQ, STRESS]),
    'C03': dict(technique='latest value and history oracle over event logs of controlled random schedules, AddressSanitizer and ThreadSanitizer stress', rule=RULE_DET,
                jobs=[J('det', 'data', 'data', 8000, 250000), J('tsan', 'data', 'data', 150, 4000)], assumptions=[SEQ, STRESS]),
    'C04': dict(technique='running-count monitor over controlled random and PCT schedules, ThreadSanitizer for visibility', rule=RULE_DET,
                jobs=[J('det', 'sched', 'group', 8000, 250000), J('tsan', 'sched', 'group', 150, 4000)], assumptions=[SEQ, STRESS]),
    'C05': dict(technique='deadlock and stranded task detection under a controlled scheduler', rule=RULE_DET,
                jobs=[J('det', 'sched', 'progress', 10000, 250000), J('plain', 'sched', 'progress', 200, 4000)], assumptions=[SEQ, STRESS]),
    'C06': dict(technique='order checker over event logs of controlled random schedules: priority levels and FIFO of tasks known to be queued', rule=RULE_DET,
                jobs=[J('det', 'prio', 'pool', 8000, 250000), J('det', 'prio', 'group', 8000, 250000)], assumptions=[SEQ, STRESS]),
    'C07': dict(technique='thread and concurrency monitor over event logs of controlled random schedules', rule=RULE_DET,
                jobs=[J('det', 'sched', 'pool', 7000, 200000), J('plain', 'sched', 'pool', 200, 4000)], assumptions=[SEQ, STRESS]),
    'C08': dict(technique='nesting and interval oracle for inline execution, current task and scopes over event logs of controlled random schedules', rule=RULE_DET,
                jobs=[J('det', 'inl', 'inl', 12000, 300000), J('plain', 'inl', 'inl', 400, 8000)], assumptions=[SEQ, STRESS]),
    'C09': dict(technique='limit and drop monitor over event logs of controlled random schedules and ThreadSanitizer stress', rule=RULE_DET,
                jobs=[J('det', 'lim', 'buffer', 8000, 250000), J('tsan', 'lim', 'buffer', 100, 3000)], assumptions=[SEQ, STRESS]),
    'C10': dict(technique='exactly-once and completeness monitor over event logs of controlled random schedules and ThreadSanitizer stress', rule=RULE_DET,
                jobs=[J('det', 'lim', 'once', 8000, 250000), J('tsan', 'lim', 'once', 100, 3000)], assumptions=[SEQ, STRESS]),
    'C11': dict(technique='interval oracle for enable, disable, unbind and late binding over event logs of controlled random schedules', rule=RULE_DET,
                jobs=[J('det', 'hand', 'handle', 6000, 200000), J('det', 'hand', 'bind', 4000, 100000), J('tsan', 'hand', 'handle', 80, 2000), J('tsan', 'hand', 'bind', 120, 3000)],
                assumptions=[SEQ, STRESS]),
    'C12': dict(technique='interval and counting oracle for idle starts over event logs of controlled random schedules; missed idle starts show as hangs', rule=RULE_DET,
                jobs=[J('det', 'idle', 'idle', 14000, 400000), J('plain', 'idle', 'idle', 300, 6000)], assumptions=[SEQ, STRESS]),
    'C13': dict(technique='exactly-once and order monitor for startup, initialise and shutdown over event logs of controlled random schedules', rule=RULE_DET,
                jobs=[J('det', 'life', 'life', 10000, 300000), J('tsan', 'life', 'life', 120, 3000)], assumptions=[SEQ, STRESS]),
    'C14': dict(technique='termination and delivery monitor with shutdown injected at random points of controlled schedules', rule=RULE_DET,
                jobs=[J('det', 'chrono', 'stop', 5000, 100000), J('det', 'sched', 'stop', 10000, 250000), J('tsan', 'sched', 'stop', 100, 3000)], assumptions=[SEQ, STRESS]),
    'C15': dict(technique='termination and discard monitor with forced shutdown injected at random points of controlled schedules', rule=RULE_DET,
                jobs=[J('det', 'sched', 'force', 10000, 250000), J('asan', 'sched', 'force', 200, 4000)], assumptions=[SEQ, STRESS]),
    'C16': dict(technique='completeness, limit and exception monitor with exceptions of many types injected into controlled random schedules', rule=RULE_DET,
                jobs=[J('det', 'stat', 'exc', 8000, 250000), J('det', 'lim', 'buffer', 2000, 50000), J('plain', 'stat', 'exc', 300, 6000)], assumptions=[SEQ, STRESS]),
    'C17': dict(technique='online and offline comparison of statistics messages with what the harness observed, under controlled random schedules', rule=RULE_DET,
                jobs=[J('det', 'stat', 'stats', 9000, 250000), J('plain', 'stat', 'stats', 300, 6000)], assumptions=[SEQ, STRESS]),
    'C22': dict(technique='event mask, exclusion and starvation monitor over pipes and sockets with interposed poll, read and write under controlled random schedules, ThreadSanitizer and AddressSanitizer stress', rule=RULE_DET,
                jobs=[J('det', 'io', 'io', 4000, 150000), J('tsan', 'io', 'io', 250, 8000), J('asan', 'io', 'io', 250, 8000)], assumptions=[SEQ, STRESS]),
    'C23': dict(technique='exactly-once, address and content oracle over TCP connections in a network namespace of its own under controlled random schedules, ThreadSanitizer stress', rule=RULE_DET,
                jobs=[J('det', 'io', 'tcp', 3000, 100000), J('tsan', 'io', 'tcp', 200, 6000), J('asan', 'io', 'tcp', 150, 6000)], assumptions=[SEQ, STRESS, NETNS]),
    'C24': dict(technique='exactly-once, address and content oracle over UDP datagrams in a network namespace of its own under controlled random schedules, ThreadSanitizer stress', rule=RULE_DET,
                jobs=[J('det', 'io', 'udp', 5000, 150000), J('tsan', 'io', 'udp', 200, 6000), J('asan', 'io', 'udp', 200, 6000)], assumptions=[SEQ, STRESS, NETNS]),
    'C25': dict(technique='exactly-once, content and obligation monitor over whole nodes on a simulated faulty network in simulated time, AddressSanitizer', rule=RULE_NET,
                jobs=[J('plain', 'net', 'rel', 8000, 300000, batch=200), J('asan', 'net', 'rel', 400, 10000)], assumptions=[SIM]),
    'C26': dict(technique='content, copy counting and delivery monitor over whole nodes on a simulated faulty network in simulated time, AddressSanitizer', rule=RULE_NET,
                jobs=[J('plain', 'net', 'unrel', 12000, 400000, batch=200), J('asan', 'net', 'unrel', 700, 20000)], assumptions=[SIM]),
    'C27': dict(technique='online comparison of join and leave reports with a model of what each node received, on a simulated faulty network in simulated time, AddressSanitizer', rule=RULE_NET,
                jobs=[J('plain', 'net', 'peers', 15000, 500000, batch=200), J('asan', 'net', 'peers', 1000, 25000)], assumptions=[SIM]),
    'C28': dict(technique='AddressSanitizer and UndefinedBehaviorSanitizer over whole nodes given hostile datagrams in a simulated network, with memory, exception and delivery monitors', rule=RULE_NET,
                jobs=[J('asan', 'net', 'bad', 1000, 30000), J('plain', 'net', 'bad', 8000, 300000, batch=200)], assumptions=[SIM]),
    'C29': dict(technique='exactly-once, equality and source oracle for network emits and reactions between a system and other nodes in a network namespace of its own, under controlled random schedules in virtual time, AddressSanitizer and ThreadSanitizer stress', rule=RULE_DET,
                jobs=[J('det', 'net_e2e', 'e2e', 4000, 150000), J('tsan', 'net_e2e', 'e2e', 80, 3000), J('asan', 'net_e2e', 'e2e', 80, 3000)], assumptions=[SEQ, STRESS, NETNS, VTIME]),
    'C30': dict(technique='round trip and reference model comparison on random values and byte strings, under address and undefined behaviour sanitizers',
                rule='A case is 40 random values, containers or byte strings. Distinct: the hashed lengths and alignments and the outcomes.',
                jobs=[J('plain', 'ser', 'ser', 3000, 100000), J('asan', 'ser', 'ser', 600, 20000)], assumptions=[]),
    'C31': dict(technique='offline linearizability checker for FIFO queues over histories from controlled schedules, address and thread sanitizer, memory monitor', rule=RULE_DET,
                jobs=[J('det', 'queue', 'mpmc', 12000, 400000), J('det', 'queue', 'mpsc', 10000, 300000), J('asan', 'queue', 'mpmc', 300, 6000), J('asan', 'queue', 'mpsc', 300, 6000),
                      J('tsan', 'queue', 'mpmc', 150, 4000), J('tsan', 'queue', 'mpsc', 150, 4000), J('tsan', 'queue', 'mem-mpmc', 60, 1000), J('tsan', 'queue', 'mem-mpsc', 60, 1000)], assumptions=[SEQ, STRESS]),
    'C34': dict(technique='ThreadSanitizer, AddressSanitizer with leak detection and UndefinedBehaviorSanitizer over all workloads', rule=RULE_DET,
                jobs=[J('tsan', 'sched', 'progress', 100, 4000), J('tsan', 'sched', 'force', 100, 4000), J('asan', 'sched', 'force', 150, 6000), J('asan', 'sched', 'stop', 150, 6000),
                      J('tsan', 'hand', 'bind', 250, 6000), J('asan', 'hand', 'bind', 150, 4000)], assumptions=[SEQ, STRESS]),
    'C33': dict(technique='exactly-once and content monitor for log messages over event logs of controlled random schedules, ThreadSanitizer and AddressSanitizer', rule=RULE_DET,
                jobs=[J('det', 'log', 'log', 6000, 200000), J('tsan', 'log', 'log', 80, 2000), J('asan', 'log', 'log', 200, 4000)], assumptions=[SEQ, STRESS]),
    'C35': dict(technique='reference model of fused words compared with observed tasks of generated reactions under controlled random schedules', rule=RULE_DET,
                jobs=[J('det', 'fusion', 'fusion', 14000, 400000), J('plain', 'fusion', 'fusion', 400, 8000)], assumptions=[SEQ, STRESS]),
    'C18': dict(technique='tick schedule oracle over event logs in virtual time under controlled random schedules, ThreadSanitizer stress in real time', rule=RULE_DET,
                jobs=[J('det', 'chrono', 'every', 6000, 150000), J('tsan', 'chrono', 'every', 100, 2000), J('asan', 'chrono', 'every', 100, 2000)], assumptions=[SEQ, STRESS, VTIME]),
    'C19': dict(technique='exactly-once, earliest time, lateness and order oracle over event logs in virtual time under controlled random schedules, ThreadSanitizer stress in real time', rule=RULE_DET,
                jobs=[J('det', 'chrono', 'delay', 6000, 150000), J('tsan', 'chrono', 'delay', 100, 2000), J('asan', 'chrono', 'delay', 100, 2000)], assumptions=[SEQ, STRESS, VTIME]),
    'C20': dict(technique='service and fire time oracle over event logs in virtual time under controlled random schedules, ThreadSanitizer stress in real time', rule=RULE_DET,
                jobs=[J('det', 'chrono', 'watchdog', 6000, 150000), J('tsan', 'chrono', 'watchdog', 100, 2000), J('asan', 'chrono', 'watchdog', 100, 2000)], assumptions=[SEQ, STRESS, VTIME]),
    'C21': dict(technique='interval oracle for clock readings and exact model of pending timers over time travel in virtual time under controlled random schedules, ThreadSanitizer stress', rule=RULE_DET,
                jobs=[J('det', 'chrono', 'clock', 12000, 300000), J('det', 'chrono', 'travel', 10000, 250000), J('tsan', 'chrono', 'clock', 100, 2000)], assumptions=[SEQ, STRESS, VTIME]),
}
