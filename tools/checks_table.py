# check(id, quick runs, what is varied (first sentence goes into "technique"), real code, level note)
check("C01", 300000,
 "Outcome kinds, waiters, timeouts, move histories, late takes. One producer thread sets, breaks, abandons, moves or overwrites a promise while up to three threads block, wait with deadlines on either clock, or poll; spurious and arbitrary wakeups, late timers, stalls and system clock steps are injected.",
 ["Future.h (Promise, Future, PackagedTask, SharedState)", "libstdc++ mutex, condition_variable, shared_ptr, thread"],
 "Sampled schedules of one future with up to 3 waiters; outcome, visibility, timeout and promptness oracles; deadlock, lost wakeup and livelock detection by the scheduler.")
check("C02", 300000,
 "Chains of continuations attached before, during and after setting. Random chains of up to four continuations (value, void, throwing, forwarding, returning ready, pending, broken or invalid futures) are attached while another thread sets the root and further threads set inner futures; a model computes what each step must receive.",
 ["Future.h (then, Continuation, ContinuationRun)"],
 "Sampled schedules of chains up to depth 4; exactly-once, per-step outcome and stuck-chain oracles.")
check("C03", 300000,
 "Ownership histories with throwing values and failing allocations. Promises, futures, continuations and packaged tasks are taken, moved, chained, overwritten, abandoned or dropped across two threads while value operations throw and any allocation may fail; the simulated heap accounts for every block and object.",
 ["Future.h"],
 "Lifetime oracle is the simulated heap (leaks, double frees, use after free, races with destruction) plus per-object accounting.")
check("C04", 300000,
 "Timeouts added, cancelled and re-armed while others fire. Several threads add timeouts with deadlines before, equal and after each other, cancel them, add from callbacks, and let simulated time pass with late timers, stalls and system clock steps.",
 ["TimeoutsThread.h"],
 "Never early, exactly once unless cancelled, promptness in runs with steady execution speed.")
check("C05", 300000,
 "Stop and destruction at any moment, construction that fails. The thread is stopped while timeouts are pending, firing or being added; allocations and thread creation fail.",
 ["TimeoutsThread.h", "NoStartThread.h (where used)"],
 "Termination, no callback after the stop, callables destroyed exactly once.")
check("C06", 200000,
 "One producer and one consumer over random buffer sizes. Random mixes of reads, writes, peeks, consumptions and callbacks of varying and failing lengths, with both locking and lock-free actors where available; payload objects are accounted for.",
 ["CircBufferSCSP.h"],
 "FIFO content, capacity, visibility and race oracles against the sequence written.")
check("C07", 300000,
 "Blocking waits against slow peers and throwing stop tests. Producer and consumer block for space and data with and without stop tests over loop intervals from 1 ns to hours while the peer stalls.",
 ["CircBufferSCSP.h", "Durations.h"],
 "Lost wakeups, promptness and stop-test cadence in steady runs.")
check("C08", 300000,
 "Tasks from several threads and from tasks onto one to three workers. Simple, self-resubmitting, reusable and mutually dependent tasks on both pool kinds.",
 ["ThreadPool.h", "SimpleThreadPool.h", "ParticipatoryThreadPool.h", "TicketSpinLock.h"],
 "Exactly-once, FIFO start order up to tasks in hand, progress and visibility oracles.")
check("C09", 300000,
 "Stops from every direction, failing workers and allocations. Pools are constructed with failing threads and allocations, fed, and stopped, joined and destroyed by several threads and by tasks.",
 ["ThreadPool.h", "SimpleThreadPool.h"],
 "Termination, nothing after a join, at most one task per worker after a stop, leak and error-kind oracles, bounded stack for many pending tasks.")
check("C10", 300000,
 "Participants with and without deadlines, stops and joins. Up to six participants mix unlimited, one-task and timed calls on both clocks while tasks come and go and the system clock is stepped.",
 ["ParticipatoryThreadPool.h", "ThreadPool.h"],
 "Status against tasks run, deadline and stop promptness in steady runs, join and destruction oracles.")
check("C11", 240000,
 "One to three strands over one to three workers of both pool kinds. Tasks submit to their own and other strands, resubmit themselves and wait across strands.",
 ["Strand.h", "ThreadPool.h", "SimpleThreadPool.h", "ParticipatoryThreadPool.h", "CallStack.h", "TicketSpinLock.h"],
 "Mutual exclusion (also by unsynchronised data), strict FIFO, exactly-once and progress oracles.")
check("C12", 300000,
 "Strands stopped from outside, from pool tasks, from other strands and from their own tasks. Several stops compete with submissions and the destructor; allocations fail.",
 ["Strand.h", "CallStack.h", "ThreadPool.h"],
 "No task during or after a returned stop, single hand-back of the pool, no deadlock, no leak, bounded stack for many pending tasks.")
check("C13", 300000,
 "Two to five threads contend for one or two locks. Critical sections of varying length over plain data; the number of own steps a waiter made inside lock() establishes who asked first.",
 ["TicketSpinLock.h", "Spinwait.h"],
 "Mutual exclusion, visibility (race detector with weak-memory loads), FIFO hand-over and counter wrap-around at 8 and 16 bits.")
check("C14", 300000,
 "One to four producers and one consumer that also pushes and recycles nodes. Nodes are reused, left behind and fail to allocate; half of the runs allow stale loads.",
 ["MpscWaitFreeSemiIntrusiveQueue.h", "AlignedAllocator.h"],
 "Per-producer order, exactly-once, content, emptiness and node lifetime oracles.")
check("C15", 300000,
 "Latches, simple waits and stop flags with racing release, wait and destruction. Objects are destroyed by the released waiter at once; stop tests throw at any poll.",
 ["Latch.h", "SimpleWait.h", "Stoppable.h", "Durations.h"],
 "Early release, lost wakeups, visibility, reported-last count and use after destruction.")
check("C16", 300000,
 "Threads started, not started, moved and destroyed. Construction with failing allocations and thread creation, start or not, join order.",
 ["NoStartThread.h"],
 "Runs exactly once if and only if started, errors reported, nothing leaked.")
check("C17", 300000,
 "Threads request, copy, drop, enumerate and await shared resources. Up to four threads race creation, release and revival of up to three keys, enumerate while others let go, wait for emptiness, and drop pointers to other resources from enumeration callbacks.",
 ["SharedResourceMap.h"],
 "At most one live instance per key, same instance for concurrent users, emptiness and termination oracles.")
check("C18", 300000,
 "Failing constructors and allocations, maps that die before their resources. Requests with throwing constructors, throwing key copies and failing allocations race releases; the map is destroyed before, after and during the release of its resources.",
 ["SharedResourceMap.h"],
 "Leak, double destruction, restored state after a failed request, error kind.")
check("C19", 300000,
 "Threads reserve, move, look up and return identifiers from pools of a few identifiers. Small pools run dry, holders outlive pools, are moved to themselves and onto each other, and allocations fail.",
 ["IdentifierPool.h", "StrongType.h"],
 "No identifier handed out twice, exhaustion and allocation failures reported, nothing lost or recycled twice.")
check("C20", 200000,
 "Event loops with descriptors that become ready, are re-armed and removed by handlers and other threads. System calls fail, are interrupted and return short counts; wake-ups come from any thread.",
 ["EventLoop.h", "SingleThreadEventLoop.h", "FileDescriptor.h", "Posix.h"],
 "Dispatch to the right handler once per arming, no dispatch after a removal, no lost readiness or wake-up; the kernel is simulated.")
check("C21", 200000,
 "Iteration barriers and stops from several threads at once. Threads wait for iterations and stop or rerun the loop while handlers run and wake-up writes fail or are delayed.",
 ["EventLoop.h", "SingleThreadEventLoop.h"],
 "A barrier returns only after the iteration in progress ended, and always returns; a stop ends the loop; no closed descriptor is used. The kernel is simulated.")
check("C22", 240000,
 "Descriptors, pipes and event loops built and used while any system call fails. Descriptors are moved, duplicated, swapped and closed; each call may be interrupted or fail with any of its errors.",
 ["FileDescriptor.h", "EventLoop.h", "Posix.h", "PosixFileErrors"],
 "Every descriptor closed exactly once, none leaked or used after close, each error reported with its number; the kernel is simulated.")
check("C23", 240000,
 "Files of many sizes loaded while reads are short, interrupted and fail. Files shrink and grow meanwhile, cannot be opened, and memory runs out.",
 ["Datum.h"],
 "Loaded content equals the file or the load fails with its cause; nothing leaks; the kernel is simulated.")
check("C24", 300000,
 "Messages written item by item and received intact, truncated, damaged or not at all. Readers follow or ignore the written types, move around and read past the end; allocations fail in writes and reads.",
 ["NetworkMessage.h", "EndianMacros.h"],
 "Byte-exact content against a second encoder, every read against a second decoder, position unchanged by failing operations, exact heap bounds.")
check("C25", 300000,
 "Histories of cache insertions, lookups and clears over small limits. Other threads hold and let go of values while entries are evicted, revived and replaced; values hold other values; allocations fail.",
 ["LRU.h"],
 "Every lookup against a model of the kept and still-held values, lifetime of each value, state after a failed insertion.")
check("C26", 300000,
 "Children created, destroyed and listed by several threads below one or two parents. Allocations fail in registration and listing, constructors throw after registering, parents are destroyed with and without children, nested trees included.",
 ["ObjectTree.h", "TicketSpinLock.h"],
 "Every listing against the recorded lives of the children, disposal exactly once, no race or use after destruction.")
check("C27", 300000,
 "Contexts opened and left on several threads, nested in each other's constructors and destructors. Constructors throw at any depth and threads start and end while others look up.",
 ["CallStack.h"],
 "The stack seen by each thread against a shadow stack after every step, including from constructors, destructors and during unwinding.")
check("C28", 200000,
 "Operation histories on optionals, maps (also of strings) and intrusive sets whose elements throw. Copies, moves, swaps, insertions, assignments and hash functions throw and allocations fail at any point.",
 ["Optional.h", "UnorderedMap.h", "SimpleUnorderedStringMap.h", "StringHasher.h", "StringHashTablePredicate.h", "IntrusiveUnorderedSharedItemSet.h"],
 "State after each success and each failure against a model (strings looked up by every representation), each element destroyed exactly once, nothing leaked.")
check("C29", 300000,
 "Concurrent operations of every kind on a few shared flags. Up to four threads load, set, clear, toggle and exchange; stale values are returned where the memory model permits, weak exchanges fail.",
 ["AtomicFlags.h", "Flags.h"],
 "Linearizability of each history against a flag word; publication checked by the race detector.")
check("C30", 300000,
 "Clock readings by several threads while the wall clock is stepped and fails. Seconds roll over and the clock jumps between and during readings.",
 ["MicrosecondTime.h"],
 "Returned time within the range the simulated clock showed, failure reported as chosen by the caller.")

check("C31", 300000,
 "Histories of three bit vectors of random block size. Every kind of operation in random order, lengths around block boundaries, allocations that fail, messages that are truncated or of another length.",
 ["BitVector.h", "NetworkMessage.h"],
 "Every bit, size and comparison against a model after each step, strong guarantee on failed allocations, exact heap bounds.")
check("C32", 300000,
 "Histories of containers, arrays and packed structures. Element sizes and alignments vary, allocations fail, constructors throw, impossible amounts are asked for.",
 ["AlignedAllocator.h", "UninitializedDynamicArray.h", "DynamicPackedStruct.h", "PackedStruct.h", "UnalignedReference.h", "UnalignedPointer.h", "ReferenceVector.h"],
 "Content, alignment and bounds of all storage against a model after each step, strong guarantee on failed allocations, no leak or double release.")
check("C33", 300000,
 "Views, splits, concatenations and streams of random texts compared to std::basic_string. Allocations fail, streams take a part only or throw, user code throws, threads share texts.",
 ["StringView.h", "Split.h", "Concat.h", "InputMemoryStream.h", "Uuid.h", "libstdc++ streams", "Boost.Uuid"],
 "Results against std::basic_string and std::istringstream, exact memory bounds, reported failures. Most of it is sequential: schedules matter only for sharing.")
check("C35", 300000,
 "Scopes left in every way, chains of exceptions, exceptions shared by threads. Allocations fail while guards, exceptions and messages are created and copied.",
 ["ScopeExit.h", "ThrowNested.h", "ThrowWithNested.h", "Exception.h", "ExceptionMacros.h", "detail/ExceptionMacros.h", "DebugVerboseHandlers.h", "libstdc++ exception_ptr and nested_exception"],
 "Order of scope exits against a state machine, chains against the exceptions given, no race, leak or early destruction of exceptions shared by threads.")
check("C36", 240000,
 "Owners of one object, its parts or a tuple's elements taken and dropped by several threads. Weak pointers are locked while the last owner goes; objects ask for themselves under construction and destruction.",
 ["EnableSharedFromThis.h", "SharedTupleElementPointers.h", "libstdc++ shared_ptr"],
 "Destroyed exactly once, not while an owner is counted, ordered after all uses; identity and ownership of every pointer.")
check("C37", 300000,
 "Ranges of all kinds and lengths compared, measured and reversed, tuples applied, strong types and byte orders of random values. Iterators, comparisons, copies and functions throw; another thread feeds single-pass ranges.",
 ["Range.h", "ReversedRange.h", "ReversionWrapper.h", "ApplyTuples.h", "NoNullTuple.h", "StrongType.h", "EndianMacros.h", "IntegralComparisons.h", "Min.h", "Max.h"],
 "Results against hand-written models, exact memory bounds, counts of objects. Most of it is sequential: schedules matter only for fed ranges.")
check("C38", 200000,
 "Random and extreme wide integers of 20 widths calculated with, converted and printed. Streams take a part or throw, random sources throw, allocations fail, threads share numbers.",
 ["uint_t.h", "uint128_t.h", "integer_demotion.h", "IsPowerOfTwo.h", "libstdc++ streams"],
 "Every result against a model of 2048 bits, written text against the model's. Most of it is sequential: schedules matter only for sharing.")
check("C39", 600000,
 "Walks of unaligned pointers over values of 8 types at any offset, overlapping assignments, hashes of bytes in parts; threads write neighbouring values at once under seeded schedules.",
 ["UnalignedPointer.h", "UnalignedReference.h", "PotentiallyVoidTypeInfo.h", "Hash.h"],
 "Every byte against a model, exact memory bounds, data race detection. Nothing here can fail, so no faults; schedules matter for neighbours.")
