NA = {}
p('C01', 'Every message runs every reaction bound to its type exactly once',
  'While the system is running, every emitted message runs each reaction that triggers on its type exactly once, whatever pools, groups, priorities or inline settings the reactions have and whichever thread emits. No reaction ever runs for a message of another type or for one that was not emitted.',
  ['schedules', 'programs', 'histories'],
  'all thread interleavings of emits from reactions and external threads, over reaction graphs mixing pools, groups, priorities and inline execution',
  'The unit tests emit a handful of messages in one fixed graph and see one schedule; a lost wakeup, a lost queue entry or a duplicated task needs a particular interleaving.',
  ['src/dsl/word/emit/Local.hpp', 'src/dsl/word/emit/Inline.hpp', SCH + 'Scheduler.cpp', SCH + 'Pool.cpp', SCH + 'Group.cpp', SCH + 'queue/TaskQueue.hpp', SCH + 'queue/MPSCQueue.hpp'],
  [('task creation per bound reaction', 'emit::Local'), ('pool submission and dequeue', SCH + 'Pool.cpp'), ('group hand over', SCH + 'Group.cpp')],
  observe=[RUN])
p('C02', 'Messages reach reactions unaltered, stay alive while used and are then freed',
  'A reaction sees exactly the object that was emitted, and that object is neither altered nor destroyed until the reaction has finished with it. Once no task, stored latest value or history refers to a message it is destroyed, and each message is destroyed exactly once.',
  ['schedules', 'programs', 'histories'],
  'all interleavings of emission, execution, dropping at shutdown and destruction of the system',
  'Use after free and leaks of messages depend on which thread drops the last reference; tests do not run under sanitizers nor count live messages.',
  ['src/dsl/store/DataStore.hpp', 'src/dsl/store/ThreadStore.hpp', 'src/dsl/operation/CacheGet.hpp', 'src/util/CallbackGenerator.hpp', 'src/threading/ReactionTask.cpp'],
  [('shared ownership captured by the task', 'src/util/CallbackGenerator.hpp'), ('latest value store', 'src/dsl/store/DataStore.hpp')],
  observe=[RUN, 'constructor and destructor of the messages'])
p('C03', 'Reactions get the right data for trigger, with, last-n and optional inputs',
  'The triggering message a reaction gets is the one that caused it, and a With input is the latest value of its type published before that. A Last-n input holds the most recent at most n values up to and including the triggering one, oldest first and without gaps or repeats. A reaction whose required input has never been emitted does not run, and one where it is Optional runs with nothing there.',
  ['inputs', 'histories', 'schedules'],
  'all sequences of emits of several types, sequentially and from several threads, over reactions combining the input kinds',
  'The tests check one fixed sequence per word; races on the history and the latest value, and combinations of words, are not covered.',
  ['src/dsl/word/With.hpp', 'src/dsl/word/Last.hpp', 'src/dsl/word/Optional.hpp', 'src/dsl/word/Trigger.hpp', 'src/util/MergeTransient.hpp', 'src/util/CallbackGenerator.hpp', 'src/dsl/store/DataStore.hpp'],
  [('data binding when the task is created', 'src/util/CallbackGenerator.hpp'), ('history merging', 'src/dsl/word/Last.hpp')],
  observe=['arguments each reaction body receives'])
p('C04', 'Groups never run more tasks at once than their concurrency allows',
  'At any moment at most as many tasks of a group are running as the group allows, and at most one for a Sync group, for tasks that belong to one or several groups, on any pool, priority and inline setting. Everything one task of a Sync group did is visible to the next task of that group without further locking.',
  ['schedules', 'programs', 'histories'],
  'all interleavings of tasks in one or several overlapping groups, including inline execution on foreign threads and shutdown',
  'A violation needs a submit racing a release; the existing stress test only counts tokens afterwards and cannot see a momentary excess.',
  [SCH + 'Group.cpp', SCH + 'Group.hpp', SCH + 'CombinedLock.cpp', SCH + 'Scheduler.cpp', 'src/dsl/word/Sync.hpp', 'src/dsl/word/Group.hpp'],
  [('token accounting', SCH + 'Group.cpp'), ('combined locks', SCH + 'CombinedLock.cpp')],
  state=[('tokens', 'free places of the group, negative when tasks wait')], observe=[RUN])
p('C05', 'No runnable task is stranded: waiting for groups never deadlocks',
  'Every task that was accepted eventually runs as long as the tasks before it finish: it is never left waiting while its pool has a free thread and all its groups have free places. In particular tasks that need several groups at once can never wait for each other forever, whatever their priorities.',
  ['schedules', 'programs', 'histories'],
  'all interleavings and priority mixes of tasks over overlapping sets of groups and pools',
  'A lost wakeup or a lock order cycle needs a specific interleaving of release and wait; a test that hangs once in thousands of runs looks like a timeout.',
  [SCH + 'Group.cpp', SCH + 'Pool.cpp', SCH + 'CombinedLock.cpp'],
  [('waiter notification', SCH + 'Group.cpp'), ('blocked task handling', SCH + 'Pool.cpp')],
  observe=['quiescence of all threads while tasks are outstanding'])
p('C06', 'Higher priority tasks run first, equal ones in the order they were emitted',
  'Whenever a thread of a pool takes its next task, no queued runnable task of that pool has a higher priority level than the one taken, and tasks of the same level are taken in the order they were submitted. The same holds for tasks waiting for a Sync group: the highest priority level goes first and equal ones in order.',
  ['schedules', 'inputs', 'histories'],
  'all mixes of priorities, submitted from one or several threads while the pool or the group is busy',
  'The tests check one fixed batch; ordering across submissions racing with execution, and order within a busy group, are not covered.',
  [SCH + 'queue/Priority.hpp', SCH + 'Pool.cpp', SCH + 'Group.cpp', 'src/dsl/word/Priority.hpp', 'src/dsl/fusion/PriorityFusion.hpp'],
  [('priority buckets', SCH + 'queue/Priority.hpp'), ('FIFO queues', SCH + 'queue/TaskQueue.hpp')],
  observe=[RUN, 'completion of every emit'])
p('C07', 'Tasks run on the threads of their own pool, within its size',
  'A task that is not run inline runs on a thread of the pool its reaction names and never inside another task, and a pool never runs more tasks at once than it has threads. Main thread reactions run only on the thread that started the system, and an Always reaction runs again and again, one at a time, on a thread of its own until shutdown.',
  ['schedules', 'programs', 'configurations'],
  'all interleavings over pools of all sizes, including persistent pools, the main thread and always pools',
  'Tests check a single placement; concurrency limits and thread affinity hold for all schedules.',
  [SCH + 'Pool.cpp', SCH + 'Scheduler.cpp', 'src/dsl/word/Pool.hpp', 'src/dsl/word/MainThread.hpp', 'src/dsl/word/Always.hpp'],
  [('worker threads', SCH + 'Pool.cpp'), ('always re-submission', 'src/dsl/word/Always.hpp')], observe=[RUN])
p('C08', 'Inline execution happens inside the emit call, and only when asked for',
  'A reaction that is run inline has run to completion on the emitting thread before the emit returns, provided its groups are free. Inline emits run every reaction that does not forbid it inline, local emits only those that demand it, and a reaction that forbids it is never run inline. Nested inline emits leave the identity of the surrounding task and its task scopes as they were.',
  ['programs', 'schedules', 'histories'],
  'all nestings of inline and queued emits over reactions of the three inline settings, on reaction and foreign threads, with busy and free groups',
  'The tests check single level inline emission with one fixed reaction each.',
  ['src/dsl/word/emit/Inline.hpp', 'src/dsl/word/Inline.hpp', 'src/dsl/fusion/InlineFusion.hpp', SCH + 'Scheduler.cpp', 'src/threading/ReactionTask.cpp', 'src/dsl/word/TaskScope.hpp'],
  [('inline decision', SCH + 'Scheduler.cpp'), ('current task tracking', 'src/threading/ReactionTask.cpp')], observe=[RUN])
p('C09', 'Buffer and Single bound how many tasks of a reaction exist at once',
  'At no time are there more queued or running tasks of a reaction than its Buffer allows, one for Single. A message emitted while fewer tasks exist, with no other being created, is not dropped, and a message is dropped only if the limit was reached at that time.',
  ['schedules', 'histories'],
  'all interleavings of emits from several threads with execution, for several limits',
  'Exceeding the bound or leaking a place needs a creation racing a completion; tests emit sequentially.',
  ['src/dsl/word/Buffer.hpp', 'src/dsl/word/Single.hpp', 'src/threading/ReactionTask.cpp', 'src/threading/ReactionTask.hpp'],
  [('active task count', 'src/threading/ReactionTask.hpp')], observe=[RUN, 'start and end of every emit'])
p('C10', 'A Once reaction runs exactly once',
  'A reaction bound with Once runs for the first message that triggers it and never again, even when messages are emitted concurrently from several threads or its callback throws. Other reactions of the same type are unaffected.',
  ['schedules', 'histories'],
  'all interleavings of concurrent emits with the run that unbinds the reaction',
  'The test emits from one thread; the race between the unbind and another emit is never exercised.',
  ['src/dsl/word/Once.hpp', 'src/dsl/operation/TypeBind.hpp', 'src/util/TypeList.hpp', 'src/threading/Reaction.cpp'],
  [('unbind after the run', 'src/dsl/word/Once.hpp')], observe=[RUN])
p('C11', 'Disabled or unbound reactions do not run, enabled and new ones do',
  'A message emitted after a disable or unbind call returned does not run that reaction; after enable, or after a new reaction was bound, every later message runs it. Disabling, enabling, binding and unbinding from any thread or from within a reaction while messages of the type are emitted, leaves all other reactions getting every message exactly once.',
  ['schedules', 'histories', 'programs'],
  'all interleavings of handle operations and runtime binds with emits, including from the reaction itself and inside inline emits of the same type',
  'The tests call the handles from one thread between emits.',
  ['src/threading/ReactionHandle.cpp', 'src/threading/Reaction.cpp', 'src/dsl/operation/TypeBind.hpp', 'src/util/TypeList.hpp', 'src/Reactor.hpp'],
  [('list of reactions of a type', 'src/util/TypeList.hpp'), ('enabled flag', 'src/threading/Reaction.cpp')], observe=[RUN, 'start and end of every handle operation and emit'])
p('C12', 'Idle reactions run once per idle period, and only when really idle',
  'Whenever a pool, or for unqualified idle reactions the whole system, has run out of work, its idle reactions are started, and then not again before there has been work in it. They are never started while a task is running in that pool (for the whole system: in any pool that counts for idle) or is queued there, unless that task waits for its groups or was submitted by an idle pool.',
  ['schedules', 'programs', 'histories'],
  'all interleavings of work being submitted, finishing and waiting on groups with pools going idle',
  'Premature or missing idle needs a submit racing the last worker going to sleep.',
  [SCH + 'Pool.cpp', SCH + 'CountingLock.cpp', SCH + 'Scheduler.cpp', 'src/dsl/word/Idle.hpp'],
  [('idle counting locks', SCH + 'CountingLock.cpp'), ('idle detection', SCH + 'Pool.cpp')], observe=[RUN])
p('C13', 'Nothing runs before the start; startup and shutdown reactions run once',
  'While reactors are installed nothing runs except inline; when the system starts each startup reaction runs exactly once, inline in the starting thread before any queued task unless its groups are taken. Messages emitted with the initialise scope before the start reach every reaction bound by then exactly once. Each shutdown reaction bound when shutdown is first requested runs exactly once, no matter how often and from how many threads it is requested, unless it is forced.',
  ['schedules', 'programs', 'histories'],
  'all install-time emits (initialise, local, inline), interleavings of concurrent shutdown requests and reactions bound to startup or shutdown',
  'Tests look at one sequence with one shutdown caller.',
  ['src/PowerPlant.cpp', 'src/dsl/word/emit/Initialise.hpp', 'src/dsl/word/Startup.hpp', 'src/dsl/word/Shutdown.hpp', SCH + 'Scheduler.cpp'],
  [('power plant start and shutdown', 'src/PowerPlant.cpp')], observe=[RUN, 'return of start and shutdown'])
p('C14', 'Graceful shutdown finishes accepted work and always terminates',
  'After shutdown is requested the system always terminates: start returns once the running tasks have finished. Every message whose emit completed before the request is still fully processed, persistent pools also process what ordinary pools still send them, and no reaction starts after start has returned except inline within an emit by a foreign thread.',
  ['schedules', 'histories', 'fault_sequences'],
  'shutdown requested at any point of any schedule, from reactions or foreign threads, while tasks are queued, running, blocked on groups or being submitted',
  'Tests shut down when idle; hangs and lost tasks need a shutdown racing submits and group hand overs.',
  ['src/PowerPlant.cpp', SCH + 'Scheduler.cpp', SCH + 'Pool.cpp', SCH + 'Group.cpp'],
  [('stop and join of pools', SCH + 'Scheduler.cpp'), ('drain before exit', SCH + 'Pool.cpp')], observe=[RUN, 'return of start'])
p('C15', 'Forced shutdown discards queued work and always terminates',
  'After a forced shutdown is requested, from any thread and at any time, the system terminates as soon as the running tasks end: tasks that are queued on the pools or waiting for groups do not run anymore once the request returned, and neither they nor their messages are leaked. No task runs twice or is interrupted.',
  ['schedules', 'histories', 'fault_sequences'],
  'forced shutdown at any point of any schedule, from reactions on any pool or foreign threads, also several at once',
  'Only used by tests as a timeout; never exercised against concurrent submits or several callers.',
  ['src/PowerPlant.cpp', SCH + 'Scheduler.cpp', SCH + 'Pool.cpp'],
  [('force stop draining', SCH + 'Pool.cpp')], observe=[RUN, 'return of start', 'live message count'])
p('C16', 'Exceptions in reactions are contained',
  'A reaction that throws anything at all affects only its own run: its groups and places are released, the thread carries on with other tasks, other reactions and later runs of the same reaction are unaffected. If statistics are on, the exception is reported with them.',
  ['programs', 'schedules', 'fault_sequences'],
  'exceptions of any type thrown from any subset of runs of reactions over pools, groups, inline execution, limits and IO',
  'Tests hardly throw from reactions; a place or lock that leaks on the exceptional path shows up only later.',
  ['src/util/CallbackGenerator.hpp', 'src/threading/ReactionTask.cpp', SCH + 'Pool.cpp'],
  [('exception barrier', 'src/util/CallbackGenerator.hpp')], observe=[RUN, 'reaction statistics'])
p('C17', 'Reaction statistics tell the true story of every task',
  'Each task of an ordinary reaction reports exactly one of created, blocked or missing data, and every created task that runs reports one start and then one finish, in this order, followed by one statistics message. The identity of the reaction and task, of the task that caused it, and the thread, pool and groups it names are the true ones, and the times are ordered.',
  ['schedules', 'programs', 'histories'],
  'all reaction graphs and schedules with a statistics listener',
  'Tests check one chain of three reactions.',
  ['src/util/CallbackGenerator.hpp', 'src/threading/ReactionTask.cpp', 'src/message/ReactionStatistics.hpp'],
  [('event emission', 'src/util/CallbackGenerator.hpp')], observe=['reaction event and statistics messages compared with ' + RUN])
p('C18', 'Periodic reactions tick at the right times and never early',
  'A reaction bound to run every period runs once per period: the k-th tick is due at k periods after it was bound, is never run before it is due on the clock, and none is skipped or repeated while the handler keeps up. Unbinding or disabling one periodic reaction stops it and leaves the others on schedule.',
  ['schedules', 'inputs', 'configurations'],
  'all periods, numbers of periodic reactions, clock rates and interleavings of the timer thread',
  'Tests measure wall clock averages of a few periods with tolerance.',
  ['src/extension/ChronoController.cpp', 'src/extension/ChronoController.hpp', 'src/dsl/word/Every.hpp', 'src/dsl/operation/ChronoTask.hpp'],
  [('timer heap and waiting', 'src/extension/ChronoController.cpp')], observe=['clock time at the start of every tick'])
p('C19', 'Delayed messages are delivered once, never early and in time order',
  'A message emitted with a delay or for a time point is delivered exactly once, not before that time on the clock and promptly after it. Messages due at different times are delivered in the order of their times, whatever order they were emitted in, including those emitted while another is being delivered.',
  ['schedules', 'inputs', 'histories'],
  'all sets of delays, including zero, negative and equal ones, emitted from several threads, before and after start',
  'Tests use a few well separated delays.',
  ['src/dsl/word/emit/Delay.hpp', 'src/extension/ChronoController.cpp'],
  [('timer heap', 'src/extension/ChronoController.cpp')], observe=['clock time at delivery'])
p('C20', 'A watchdog fires if and only if it was not serviced in time',
  'A watchdog reaction runs when its timeout has passed since it was bound, last serviced or last fired, and never before. Servicing one watchdog group or runtime key postpones exactly that one.',
  ['schedules', 'inputs', 'histories'],
  'all sequences of service times for several watchdogs, keyed by type and by runtime value',
  'Tests use one fixed service pattern and wall clock tolerances.',
  ['src/dsl/word/Watchdog.hpp', 'src/dsl/word/emit/Watchdog.hpp', 'src/dsl/store/TypeCallbackStore.hpp', 'src/extension/ChronoController.cpp'],
  [('service time store', 'src/dsl/word/Watchdog.hpp')], observe=['clock time of every service and fire'])
p('C21', 'The clock never jumps except when it is adjusted, and time travel is exact',
  'At every rate the clock advances that many times as fast as real time and continues from its current value when only the rate changes; setting or adjusting it moves it by exactly that amount. A time travel request sets the clock and treats pending timers as asked for: relative keeps their distances, absolute runs what became due, nearest stops at the next due timer.',
  ['inputs', 'histories', 'schedules'],
  'all sequences of adjustments, rates (including zero) and time travel requests with pending timers, and concurrent readers',
  'Tests use a few values; concurrent reads during an adjustment are not exercised.',
  ['src/clock.cpp', 'src/clock.hpp', 'src/extension/ChronoController.cpp', 'src/message/TimeTravel.hpp'],
  [('clock base and rate', 'src/clock.cpp'), ('time travel', 'src/extension/ChronoController.cpp')], observe=['clock readings', 'timer runs'])
p('C22', 'IO reactions run when their descriptor is ready, and lose no event',
  'An IO reaction runs whenever one of the events it asked for is pending on its descriptor, with exactly those events, never twice at the same time, and runs again as long as the event stays pending. After it is unbound it does not run anymore, other descriptors are unaffected, and the end of the peer is reported as a close or readable event.',
  ['schedules', 'inputs', 'histories'],
  'all interleavings of data arriving, reactions reading part of it, unbinding, binding and closing over many descriptors',
  'Tests use a single pipe with a few writes.',
  ['src/extension/IOController_Posix.ipp', 'src/extension/IOController.hpp', 'src/dsl/word/IO.hpp'],
  [('poll loop', 'src/extension/IOController_Posix.ipp')], observe=['bytes written and read per descriptor', 'events reported'])
p('C23', 'Every TCP connection is handed to its listener exactly once',
  'Every connection made to a listening TCP port is handed to its reaction exactly once, as an open descriptor connected to that peer with the true local and remote addresses, and bytes sent are received in order. After unbinding the port no longer accepts and its descriptor is released.',
  ['inputs', 'schedules', 'histories'],
  'all numbers and interleavings of connects, aborted connects and unbinds over several listeners',
  'Tests make a few sequential connections.',
  ['src/dsl/word/TCP.hpp', 'src/extension/IOController_Posix.ipp'],
  [('accept in the get of the word', 'src/dsl/word/TCP.hpp')], observe=['accepted connections and their addresses'])
p('C24', 'Every UDP datagram reaches each listener once, intact and with its source',
  'Every datagram of any size (also an empty one) that reaches a bound port is handed to its reaction exactly once, unaltered, with the true sender and destination, whether sent by the UDP emit or another program. Broadcast and multicast datagrams reach every subscribed listener, other ports get nothing, and nothing is received after unbinding.',
  ['inputs', 'schedules', 'histories'],
  'all payload sizes and contents, unicast, broadcast and multicast, several listeners and senders',
  'Tests send one fixed short payload per kind.',
  ['src/dsl/word/UDP.hpp', 'src/dsl/word/emit/UDP.hpp', 'src/extension/IOController_Posix.ipp'],
  [('receive in the get of the word', 'src/dsl/word/UDP.hpp')], observe=['datagrams sent and received'])
p('C25', 'Reliable network messages arrive exactly once and intact despite a bad network',
  'A message sent reliably to connected peers is delivered to each addressed peer exactly once and unaltered, whatever its size, even if datagrams are lost, duplicated, delayed or reordered, as long as the peer stays connected. Delivered data carries the true type and sender, peers that were not addressed get nothing, and what every peer has acknowledged is neither sent again nor kept. Message numbers have 16 bits: a sender that reuses one within 30 s of its last use is excluded.',
  ['fault_sequences', 'inputs', 'schedules'],
  'all loss, duplication, delay and reordering patterns that eventually let datagrams through, message sizes from empty to many fragments, several peers',
  'Tests run on a loopback that loses nothing.',
  ['src/extension/network/NUClearNetwork.cpp', 'src/extension/network/wire_protocol.hpp'],
  [('fragmenting, acknowledgement and retransmission', 'src/extension/network/NUClearNetwork.cpp')], observe=['messages handed to the receive callback of every node'])
p('C26', 'Unreliable network messages are never corrupted, mixed up or repeated',
  'A message sent unreliably is delivered to an addressed peer at most once for every copy of it that the network delivers completely, and if delivered it is complete and unaltered: fragments of different messages or senders are never mixed, whatever is lost, duplicated or reordered. When all of it arrives it is delivered.',
  ['fault_sequences', 'inputs', 'schedules'],
  'all loss, duplication, delay and reordering patterns over single and multi fragment messages from several senders',
  'Tests run on a loopback that loses nothing.',
  ['src/extension/network/NUClearNetwork.cpp'],
  [('fragment assembly', 'src/extension/network/NUClearNetwork.cpp')], observe=['messages handed to the receive callback of every node'])
p('C27', 'Network peers are announced once when they join and once when they leave',
  'Two connected nodes on the same announce address each report the other exactly once as joined, with its true name and address, and report it exactly once as left when it shuts down or stays silent beyond the timeout. No data is delivered from a peer before its join or after its leave is reported, and a peer whose datagrams keep arriving is never reported as left. A connected node announces itself regularly for as long as it runs, also after sending failed.',
  ['fault_sequences', 'schedules', 'histories'],
  'all sequences of nodes starting, stopping, crashing and restarting, with loss, duplication and reordering of announces',
  'Tests start one or two nodes without loss.',
  ['src/extension/network/NUClearNetwork.cpp', 'src/extension/NetworkController.cpp'],
  [('announce handling and timeout', 'src/extension/network/NUClearNetwork.cpp')], observe=['join and leave callbacks of every node'])
p('C28', 'Malformed network datagrams are harmless',
  'No sequence of datagrams received from the network, however malformed, makes a node access memory outside the data, crash, hang, throw out of processing or keep more memory than a fixed multiple of what was received. Well formed messages of honest peers received in between are still delivered.',
  ['inputs', 'histories'],
  'all byte strings and sequences of datagrams, including mutated valid ones and truncated, oversized and inconsistent headers',
  'Tests never send a malformed datagram.',
  ['src/extension/network/NUClearNetwork.cpp', 'src/extension/network/wire_protocol.hpp'],
  [('packet parsing', 'src/extension/network/NUClearNetwork.cpp')], observe=['sanitizer reports', 'messages delivered'])
p('C29', 'Network emits between systems deliver equal data to matching listeners only',
  'A value emitted over the network by one system triggers the network reactions for that type in each targeted connected system exactly once with an equal value and the true source, and no reaction of another type. Reactions bound or unbound at any time start or stop receiving accordingly.',
  ['inputs', 'schedules', 'histories'],
  'all values of trivially copyable, vector and custom serialised types, targeted or broadcast, reliable or not, between several systems',
  'Tests send a few fixed values within one process.',
  ['src/extension/NetworkController.cpp', 'src/dsl/word/Network.hpp', 'src/dsl/word/emit/Network.hpp'],
  [('type hash lookup', 'src/extension/NetworkController.cpp')], observe=['values emitted and received'])
p('C30', 'Serialisation round trips and rejects wrong sizes',
  'Deserialising what was serialised gives an equal value for every supported type: trivial values, containers of trivial values and types with their own serialisation. Input whose size does not fit the type is rejected with an exception and never read out of bounds, and the identifying hash of a type is the same in every process and differs between types.',
  ['inputs'],
  'all values of scalar, struct, array and container types, and all byte strings as input',
  'Tests use a few fixed values.',
  ['src/util/serialise/Serialise.hpp', 'src/util/serialise/xxhash.cpp', 'src/util/serialise/xxhash.hpp'],
  [('serialisers', 'src/util/serialise/Serialise.hpp')], observe=['round trip results', 'reference hash'])
p('C31', 'The task queues are linearizable and neither lose, repeat nor leak elements',
  'Concurrent enqueues and dequeues on the task queues behave like operations on one FIFO queue: every element is dequeued at most once, none is lost, the order in which completed enqueues happened is kept, and a dequeue finds the queue empty only if it was. Elements left at destruction are destroyed exactly once, memory of elements that have gone through is given back, and none is accessed after it was freed.',
  ['schedules', 'histories'],
  'all interleavings of several producers and consumers (one consumer for the single consumer queue), over block boundaries and element counts',
  'Tests use a few threads on one machine, and memory reclamation races are very rare.',
  [SCH + 'queue/TaskQueue.hpp', SCH + 'queue/MPSCQueue.hpp', SCH + 'queue/Queue.hpp'],
  [('lock free lists', SCH + 'queue/TaskQueue.hpp')], observe=['operation histories of the queues', 'element constructors and destructors'])
p('C32', 'Trace files are well formed and tell what happened',
  'A trace file is a valid sequence of length delimited packets that a decoder for the published format reads to the end. Every slice that is begun is ended on the same track and properly nested, every task that ran appears once with its true name, thread and times, and everything referenced by number was described before.',
  ['programs', 'schedules', 'inputs'],
  'all reaction graphs, label contents and log messages, with tracing started and stopped at any time',
  'Tests only check that the file exists or has some size.',
  ['src/extension/TraceController.cpp', 'src/extension/trace/protobuf.cpp', 'src/extension/trace/StringInterner.hpp'],
  [('packet writer', 'src/extension/TraceController.cpp')], observe=['decoded trace file compared with ' + RUN])
p('C33', 'Log messages are delivered once, complete and only at enabled levels',
  'A log call produces exactly one log message, with the text of its arguments joined in order, its level, reactor and originating task, if its level is at or above the display or minimum level of the reactor, and none otherwise. Concurrent logging from several threads never mixes or loses messages.',
  ['inputs', 'schedules', 'configurations'],
  'all combinations of levels and display levels, argument lists, and threads inside and outside reactions',
  'Tests check a fixed list of levels from one thread.',
  ['src/util/Logger.cpp', 'src/util/Logger.hpp', 'src/PowerPlant.hpp', 'src/Reactor.hpp', 'src/LogLevel.hpp'],
  [('level filtering', 'src/util/Logger.cpp')], observe=['log messages received'])
p('C34', 'The runtime is free of data races and memory errors',
  'Any use of the public interface from any number of threads causes no data race inside the framework, no access to freed, uninitialised or out of bounds memory, no undefined behaviour and no memory leak. This includes starting and destroying systems repeatedly.',
  ['schedules', 'programs', 'histories'],
  'all workloads of the other properties, run under race and memory error detection',
  'Tests are not run under sanitizers and race detectors, and pass with races present.',
  ['src/threading', 'src/dsl', 'src/extension', 'src/util', 'src/PowerPlant.cpp'],
  [('synchronisation throughout', 'src/threading/scheduler')], observe=['sanitizer reports'])
p('C35', 'Pools, groups, limits and words combine as each says on its own',
  'A reaction made of several words has the properties of all of them: it belongs to all named groups, runs in its named pool with its named priority and inline setting, needs all preconditions and all data, and gets the data of all words in order as arguments. A callback may take any prefix selection of those arguments in order, by value, reference or shared pointer.',
  ['programs', 'inputs'],
  'all combinations and orders of words in a reaction and callback signatures',
  'Tests check a few hand picked combinations.',
  ['src/dsl/Parse.hpp', 'src/dsl/Fusion.hpp', 'src/dsl/fusion', 'src/util/apply.hpp', 'src/util/RelevantArguments.hpp', 'src/util/FunctionFusion.hpp'],
  [('word fusion', 'src/dsl/Fusion.hpp'), ('argument selection', 'src/util/apply.hpp')], observe=['behaviour and arguments of reactions generated from random word lists'])
