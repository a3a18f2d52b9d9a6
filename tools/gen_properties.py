#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": ["src/" + f for f in files],
         "mechanism": [{"name": m, "where": "src/" + files[0]} for m in mechanism]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A promise's outcome reaches its future and every waiter exactly once",
 "For every interleaving of the producer with any number of threads waiting on or polling one future, the future becomes ready exactly once with the value, void or exception that was set, every blocked wait (timed or not) returns, and the outcome that is taken equals the one set, with everything the producer did before setting it visible. A promise that is abandoned, destroyed or overwritten by move assignment before being set makes its future ready with a broken-promise error. A timed wait returns true iff the future is ready and does not return false before its timeout has elapsed. Making a ready, exceptional or broken future yields exactly the given outcome and leaves an object that was passed as an lvalue unchanged.",
 ["schedules", "fault_sequences", "histories"],
 "Every interleaving of set/abandon/destroy/overwrite with wait, timed wait, poll and take from several threads, under spurious wakeups, system-clock jumps, late timers and stalled threads.",
 "TestFuture is single threaded except for trivial cases; it samples one schedule, never two waiters, never a spurious wakeup, never a clock jump.",
 ["Future.h"], ["SharedState mutex/cond/isSet protocol", "Promise ownership of the shared state (m_state)", "PackagedTask"])

prop("C02", "Continuations run exactly once and propagate results and exceptions",
 "A continuation attached with then() runs exactly once, after its future is ready, receiving that ready future, no matter whether it is attached before, during or after the outcome is set. The future returned by then() becomes ready exactly once with the continuation's return value (unwrapped if it is itself a future), with the exception it threw, or with a broken-promise error if it returned an invalid future. No step of a chain is ever lost or stuck.",
 ["schedules", "programs"],
 "Every interleaving of then() with setting the outcome on another thread, for chains of continuations returning values, void, futures, invalid futures or throwing.",
 "The attach-versus-set race has two outcomes that unit tests run sequentially never exercise concurrently.",
 ["Future.h"], ["SharedState::then", "ContinuationRun", "Continuation"])

prop("C03", "Future machinery neither leaks, double-destroys nor uses freed values",
 "For every interleaving and every combination of taken, untaken, moved, chained and abandoned promises, futures and packaged tasks, each value, exception, callable and shared state that was created is destroyed exactly once and never touched afterwards; a promise may be destroyed as soon as its future is seen ready. If constructing the value inside the promise throws, the promise remains unset (its future later becomes ready with an error, not with a value) and the process is not terminated.",
 ["schedules", "programs", "fault_sequences"],
 "All interleavings and ownership histories, with throwing value constructors and failing allocations injected at every allocation.",
 "Leaks and lifetime errors are invisible to assertion tests and depend on which thread drops the last reference.",
 ["Future.h"], ["SharedState<T>::m_data lifetime", "emplaceValue", "Continuation self-reference cycle"])

prop("C04", "Timeout tasks fire once, in deadline order, never early, promptly",
 "Every task added to a running timeouts thread before it is stopped runs exactly once on that thread, never before its deadline on the steady clock and, unless earlier tasks keep the thread busy, promptly after it; among tasks pending at the same time the one with the earlier deadline runs first. Adding a task with an earlier deadline while the thread sleeps, re-adding a task from its own callback, spurious wakeups and jumps of the system clock do not break this.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of adders with the timer thread, all deadline multisets (including equal and past deadlines), under spurious wakeups, late timers, system clock jumps and thread stalls.",
 "TestTimeoutsThread measures a few real sleeps; it can neither control the wakeup order nor the clock.",
 ["TimeoutsThread.h"], ["run() wait loop", "ordered multiset of tasks", "addTask notify"])

prop("C05", "Stopping a timeouts thread always terminates and releases every task",
 "Stopping or destroying a timeouts thread terminates it from any state, without waiting for deadlines that lie in the future and even if its tasks keep re-adding themselves, and no task runs after its destructor has returned. Every task object ever added is destroyed exactly once, whether or not it ran.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of stop/destruction with adders and with tasks that are running, pending or re-adding themselves, under spurious wakeups and stalls.",
 "Shutdown races with a sleeping or freshly woken timer thread are schedule dependent; the test only destroys an idle thread.",
 ["TimeoutsThread.h"], ["StopTask ordering", "destructor stop()+join()", "Tasks::~Tasks disposal"])

prop("C06", "The circular buffer is a lossless FIFO between one producer and one consumer",
 "For every interleaving of one producer and one consumer thread, the sequence of elements read equals the sequence of elements written (no loss, duplication, reordering or tearing) and each transfer's return value is the number of elements moved. The number of available elements is never above the capacity, and reader and writer never access the same slot concurrently.",
 ["schedules", "inputs", "histories"],
 "All interleavings of all read/write operation forms (bulk, actor based, pointer based) for all chunk sizes and capacities, including wrap-around, full and empty.",
 "TestCircBufferSCSP runs one uncontrolled two-thread schedule; it cannot steer the reader into the window between the two halves of a wrapping write.",
 ["CircBufferSCSP.h"], ["m_dataAvailable counter under the lock", "read/write offsets", "operate() loops"])

prop("C07", "Blocking circular buffer waits wake up, and stop tests stop them",
 "A thread blocked waiting for data (or space) in the circular buffer returns once the other side has made data (or space) available, and not before any is available. A wait with a stop test polls it before it blocks and at least once per loop interval and propagates its exception, leaving the buffer usable.",
 ["schedules", "fault_sequences"],
 "All interleavings of waits with the opposite side's transfers and stop requests, under spurious wakeups, late timers and stalls.",
 "Lost wakeups appear only when a notification lands in a particular window; the test cannot place it there.",
 ["CircBufferSCSP.h", "Stoppable.h"], ["waitAvailable loops", "notify in increase/decreaseDataAvailable"])

prop("C08", "A thread pool runs every submitted task exactly once, in FIFO order",
 "Every task submitted to a thread pool that keeps being served is started exactly once, task starts follow submission order, and at most one of the serving threads executes a given task object at a time. No submission is ever lost or left waiting while a serving thread is idle, including tasks that resubmit themselves, and submissions happen-before the execution of the task.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of several submitters with several workers, with reusable and one-shot tasks, under spurious wakeups, arbitrary wake order and stalls.",
 "There is no test for the pools in the suite; a lost notification or a torn queue tail needs one exact interleaving.",
 ["ThreadPool.h", "SimpleThreadPool.h"], ["head/tail mutex pair", "m_dataCond notify_one", "submit()", "waitAndPop()"])

prop("C09", "Stopping a simple thread pool terminates; failed construction is clean",
 "After a stop is requested every worker of a simple thread pool finishes its current task and exits, starting no task popped after it observed the stop, and stopping, joining or destroying the pool returns from any thread outside the pool. Tasks that never ran are destroyed exactly once. If creating the n-th worker thread fails the constructor reports the error with all started workers joined and nothing leaked.",
 ["schedules", "fault_sequences", "histories"],
 "All interleavings of stop/join/destroy with running, queued and self-resubmitting tasks, with thread creation or allocation failing at every point.",
 "Thread creation never fails in a test run and the stop races are schedule dependent.",
 ["SimpleThreadPool.h", "ThreadPool.h"], ["notifyStop", "constructor's cleanup", "stopAndJoin"])

prop("C10", "Participatory pool calls honour status, deadline, task count and join",
 "A participating call returns the status that describes what happened: it runs exactly one task and reports so, or none with a timeout or a stop status; an unlimited call returns only after a stop, and a call with a deadline does not report a timeout before its deadline nor, when no task is executing, stay blocked materially beyond it, whatever other participants do. Tasks are never lost or executed twice among participants. Joining returns only when no participant is inside the pool, and always returns after a stop.",
 ["schedules", "fault_sequences", "histories"],
 "All interleavings of several participants (bounded and unbounded calls), submitters and stoppers, with late timers, spurious wakeups, stalls and system clock jumps.",
 "No test exists; deadline handling under contention needs a controlled clock and schedule.",
 ["ParticipatoryThreadPool.h", "ThreadPool.h"], ["participant counting contexts", "waitAndPop(timepoint)"])

prop("C11", "Strand tasks never overlap, run in order and exactly once",
 "Tasks submitted to a strand on any pool with any number of workers execute one at a time in submission order, each exactly once while strand and pool keep running, with each task's effects visible to the next, and the strand never stalls while it has tasks. Different strands on one pool do not block each other's progress beyond pool fairness.",
 ["schedules", "histories"],
 "All interleavings of several submitters (including submission from within strand tasks) with several workers and other pool load.",
 "No test exists; overlap or a lost slice needs a submit to land between the end of a task and the emptiness check.",
 ["Strand.h", "ThreadPool.h", "TicketSpinLock.h"], ["slice task hand-off (m_sliceTask)", "run()", "submit()"])

prop("C12", "Stopping a strand waits for its running task and starts none afterwards",
 "When stopping and joining a strand returns (or the strand's destructor), no task of the strand is running and none will start, it returns as long as the pool keeps running (also if tasks keep resubmitting themselves), and the pool it was using is handed back exactly once. The may-be-inside variant called from one of the strand's own tasks returns without blocking. Tasks that never ran are destroyed exactly once.",
 ["schedules", "histories"],
 "All interleavings of stop with queued and running tasks and concurrent submitters, called from inside and outside strand tasks.",
 "The window between picking up a task and observing the stop cannot be hit deliberately by a test.",
 ["Strand.h", "CallStack.h"], ["stopAndJoin/stopAndMaybeJoin", "m_joinCond", "CallStack recursion check"])

prop("C13", "The ticket spin lock is a fair mutual exclusion lock",
 "At most one thread holds the ticket lock at any time, everything done inside one critical section is visible in the next, and threads acquire the lock in the order in which they asked for it, so that no thread starves.",
 ["schedules"],
 "All interleavings and all memory-model-permitted reorderings of any number of contending threads.",
 "No test exists; weak memory orderings do not manifest on x86 test machines.",
 ["TicketSpinLock.h", "Spinwait.h"], ["m_next fetch_add", "m_active acquire/release"])

prop("C14", "The MPSC queue delivers every node once, in order, to a single consumer",
 "With any number of producers and one consumer, each pushed item is popped exactly once with its content intact and visible, items of one producer are popped in their push order, and a pop that returns nothing happens only when the queue is empty or a push is still in progress. Every node is freed exactly once and never accessed afterwards.",
 ["schedules", "histories"],
 "All interleavings and all memory-model-permitted reorderings of several producers and one consumer.",
 "No test exists; the defects are memory-ordering and half-linked-push windows.",
 ["MpscWaitFreeSemiIntrusiveQueue.h", "AlignedAllocator.h"], ["tail exchange then link", "pop head/next hand-over"])

prop("C15", "Latches and simple waits release every waiter, and only when due",
 "A latch releases all waiters once exactly the specified number of count-downs happened and never earlier, and exactly one count-down reports having been the last. A simple wait releases every waiter after it has been notified and never earlier; its stop test is polled on every loop timeout while waiting. A stop request is seen by every later poll, and a reset withdraws it; exceptions given to be thrown on a stop are thrown as given and not changed if they are lvalues.",
 ["schedules", "fault_sequences"],
 "All interleavings of waiters, count-downs, notifications and stop requests under spurious wakeups, late timers and stalls.",
 "No test exists; premature or lost wakeups depend on spurious wakeups and notification placement.",
 ["Latch.h", "SimpleWait.h", "Stoppable.h", "Durations.h"], ["counter under mutex", "predicate loops", "atomic stop flag"])

prop("C16", "A no-start thread runs its function at most once and only after start",
 "The function of a no-start thread runs exactly once if it is started, after everything the starter did before starting it, and never otherwise. Stopping or destroying it (started or not) returns only after the thread has ended and never hangs.",
 ["schedules", "fault_sequences"],
 "All interleavings of construct, set function, start, stop, join and destroy with the new thread's own start-up, including late thread start and failing thread creation.",
 "No test exists; the new thread may start running at any point of its creator's construction.",
 ["NoStartThread.h", "Future.h"], ["start promise", "member initialization order", "run_"])

prop("C17", "A shared resource map hands out one live instance per key",
 "While any pointer to a key's resource is alive, every request for that key returns that same instance, and the constructor for a key is never run while an instance is alive or being constructed. An entry disappears once its last pointer is gone, waiting for emptiness returns iff the map gets empty, and enumeration visits each live resource exactly once and may drop the references it is given.",
 ["schedules", "histories"],
 "All interleavings of requests, releases, enumeration, waits and map destruction from several threads over few keys.",
 "TestSharedResourceMap is single threaded; the re-acquire-while-releasing window needs a controlled schedule.",
 ["SharedResourceMap.h"], ["custom deleter re-locking the map", "weakPtr.expired() check", "m_cond"])

prop("C18", "Shared resources are never leaked, even when construction fails",
 "Every resource object obtained through a shared resource map is destroyed exactly once after its last user pointer is gone, whatever the order in which pointers and the map itself die. If a resource constructor throws or memory runs out the error reaches the caller, the map is left as before the call, and no lock stays held.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of releases, re-acquisitions and map destruction, with throwing constructors and allocation failures at every allocation.",
 "Leaks, deadlocks and terminations on these paths need a failing allocation or a particular release race.",
 ["SharedResourceMap.h"], ["ValueObj_ ownership", "getResource cleanup", "deleter captures"])

prop("C19", "Identifiers are unique while held, recycled once, and exhaustion is reported",
 "No two live identifier holders of one pool ever have the same identifier, a reservation succeeds whenever fewer identifiers than the type can represent are held, and otherwise fails with the pool's reservation error leaving the pool usable. An identifier becomes available again exactly once, when its (possibly moved) holder is released, overwritten or destroyed, even after the pool object itself is gone.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of reserve, move, release and destroy from several threads on small identifier types up to exhaustion, with failing allocations.",
 "TestIdentifierPool is single threaded and never lets an allocation fail.",
 ["IdentifierPool.h", "StrongType.h"], ["State::reserve/recycle under mutex", "IdHolder ownership"])

prop("C20", "The event loop delivers ready events once per arming, to the right handler",
 "Whenever a registered and armed descriptor is ready for events it was armed for, its own handler is called from the running loop with those events, exactly once per arming; disabled or removed descriptors get no call from later loop iterations. Handlers created from functions own them and release them exactly once. Interrupted system calls, more ready descriptors than one batch and concurrent insert, modify, disable and remove from other threads or from handlers do not change that.",
 ["schedules", "fault_sequences", "histories"],
 "All interleavings of registration changes, readiness changes and loop iterations, with EINTR/EAGAIN from the system calls, partial event batches and stalls.",
 "No test exists; it needs a controllable kernel and schedule.",
 ["EventLoop.h", "SingleThreadEventLoop.h", "Posix.h"], ["run()", "epoll ONESHOT arming", "epollInsertOrModify"])

prop("C21", "The event loop's iteration barrier and stop are safe and always terminate",
 "When the iteration barrier returns, every handler call that was in progress or already fetched when it was invoked has finished, so a handler removed before it can be destroyed; the barrier returns even if the loop is idle, not running or ending, with any number of concurrent callers. Barrier and stop wake up an idle loop at once, also if its wake-up pipe is full, without waiting out a poll timeout. Stopping makes the running loop return after the events already fetched (events not fetched by then stay pending), and returns only once the loop is no longer running; what was done before requesting the stop is visible when the loop returns. A wait for events that fails ends the run with an exception, which a single-thread event loop hands exactly once to its exception handler; after stopping such a loop none of its handlers is called any more.",
 ["schedules", "fault_sequences"],
 "All interleavings of barrier callers, stop and the loop, with a full wake-up pipe, interrupted or short system calls, hard epoll failures and stalls.",
 "No test exists; use-after-free and hangs need the barrier to land in specific loop states.",
 ["EventLoop.h", "SingleThreadEventLoop.h"], ["m_loopCounter", "wake-up pipe", "m_stopMutex"])

prop("C22", "Descriptors are closed exactly once and system call failures are reported",
 "Every descriptor opened by a descriptor owner, event loop, pipe or file load is closed exactly once on every path, including failed construction, and never used afterwards; none of them is inherited by programs the process executes. A failing system call is retried only for transient errors and otherwise surfaces as the documented exception carrying the original error code.",
 ["fault_sequences", "histories"],
 "All sequences of moves, resets, duplicates, releases and closes, with each system call failing at each point with transient and permanent errors.",
 "Real system calls practically never fail in tests and leaks or double closes are not asserted.",
 ["FileDescriptor.h", "Posix.h", "EventLoop.h", "ThrowNested.h", "ThrowWithNested.h"], ["RAII of fds", "syscallLoop", "nested exceptions"])

prop("C23", "Loading a file into a datum yields the exact content or a clean error",
 "Loading a file yields exactly the file's bytes or fails with a load error whose nested cause tells why (error code, unsupported type, size change); short reads and interruptions are not visible in the result. A failed load leaves an existing object's previous content unchanged and leaks neither descriptor nor memory; a read that keeps failing is reported, not retried for ever. A datum is a value: copies, moves, assignments, resizing and comparison (==, !=, equal hashes for equal content) behave as those of a sequence of bytes, and one that fails for lack of memory changes nothing.",
 ["fault_sequences", "inputs"],
 "All file sizes, all splits into short reads, EINTR at any point, I/O errors, concurrent truncation, unsupported file types, descriptor exhaustion and failing allocations.",
 "No test exists; short, interrupted and failing reads do not occur on a healthy disk.",
 ["Datum.h"], ["loadFileToContainer read loop", "fstat type check"])

prop("C24", "Network messages survive truncation, corruption and memory exhaustion",
 "Whatever bytes arrive, reading a message never accesses memory outside it, never invents data, and a read that fails leaves the read position and the output unchanged; messages that arrive intact read back exactly the values that were written, in order. A write that fails for lack of memory or excessive size reports the error and leaves the message exactly as it was.",
 ["inputs", "fault_sequences"],
 "All write sequences, all truncation points and byte corruptions in transit, and allocation failures at every growth step.",
 "No test exists; hostile lengths and failing reallocations are outside any sampled input.",
 ["NetworkMessage.h"], ["bounds checks", "offset rollback", "addBytes/pokeBytes"])

prop("C25", "The LRU cache keeps the most recent entries and never returns a wrong value",
 "A lookup returns the value most recently inserted for that key or nothing; the most recently used entries up to the limit are always found and are the only ones kept alive by the cache, and an evicted entry is found again exactly as long as someone else still holds its value; entries whose values are gone are forgotten by the next insertion. A failing allocation during insertion leaves the previously cached mapping intact, and nothing is leaked or destroyed early.",
 ["histories", "fault_sequences", "schedules"],
 "All histories of inserts, lookups, external acquires and releases (also from other threads) and clears over small limits, with allocation failures at each insertion step.",
 "TestLRU checks a few fixed sequences, never releases a value from another thread and never fails an allocation.",
 ["LRU.h"], ["strong list / weak list / map", "grow()", "insert() rollback"])

prop("C26", "Object tree nodes stay consistent under concurrent registration",
 "A child is listed by its parent exactly while it is alive and attached, concurrent creation, destruction and listing of children neither corrupts nor misses entries, and destroying the parent disposes of each remaining child exactly once and detaches it. A failing registration leaves no trace in the parent.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of child creation, destruction and enumeration from several threads followed by parent destruction, with failing allocations.",
 "No test exists; set corruption needs overlapping unlocked mutations.",
 ["ObjectTree.h"], ["registerChild/unregisterChild under mutex", "ParentNode destructor"])

prop("C27", "Call stack contexts are per-thread and strictly nested",
 "On every thread the context stack shows exactly the contexts currently open on that thread, innermost first, with their own keys and values, and lookups find the innermost matching one. Contexts of other threads are never visible, and leaving a scope normally or by exception restores the previous state exactly.",
 ["schedules", "programs"],
 "All interleavings of nested context creation, lookups and exceptional unwinding on several threads.",
 "TestCallStack is single threaded, so a shared instead of thread-local stack would pass.",
 ["CallStack.h"], ["thread_local top pointer", "Context chaining"])

prop("C28", "Optionals and maps stay consistent when element operations throw",
 "If constructing, copying or moving an element throws or memory runs out, the error reaches the caller and every object involved remains valid: an optional either holds its complete old or new value or is empty as it claims (and one made from an empty one is empty), a map contains exactly the elements whose insertion succeeded, and copies of a map are independent of it. Every lookup finds exactly the elements that are there, whatever represents the key: in maps of strings any string, C string, range of characters, or predicate made from one. Each element constructed is destroyed exactly once.",
 ["fault_sequences", "histories"],
 "All operation histories with a throw injected at any element operation and an allocation failure at any allocation.",
 "No test exists; throwing element operations and failing allocations are never sampled.",
 ["Optional.h", "UnorderedMap.h", "SimpleUnorderedStringMap.h", "StringHasher.h", "StringHashTablePredicate.h", "IntrusiveUnorderedSharedItemSet.h"], ["engaged flag versus construction order", "map node ownership"])

prop("C29", "Atomic flag operations are atomic read-modify-write steps",
 "Every flag operation takes effect at one instant between its call and return and returns the flags as they were right before it, so concurrent sets, clears, toggles, exchanges and compare-exchanges never lose or invent a bit. A release operation publishes the caller's earlier writes to whoever observes its flags with acquire.",
 ["schedules"],
 "All interleavings and memory-model-permitted reorderings of flag operations from several threads; histories are checked for linearizability against a sequential flag word.",
 "No test exists; lost updates need an interleaving inside one operation.",
 ["AtomicFlags.h", "Flags.h"], ["std::atomic fetch_or/fetch_and/fetch_xor/exchange", "memory order forwarding"])

prop("C30", "Wall-clock microsecond time is exact or reports failure",
 "The microsecond time returned is exactly seconds times one million plus microseconds of one reading of the wall clock, across clock jumps and sub-second roll-over, and a failing clock is reported by the caller's chosen failure value or exception.",
 ["fault_sequences", "inputs"],
 "All clock values and jumps and clock read failures.",
 "No test exists; the clock does not roll over or fail on demand.",
 ["MicrosecondTime.h"], ["getUsTime", "getUsTimeOrThrow"])

prop("C31", "Bit vectors hold exactly the bits put into them, even when memory runs out",
 "Through any history of constructing (from sizes, ranges, copies, moves), assigning, swapping, appending (also to itself), pushing and popping bits, resizing, clearing, setting, flipping, combining, randomising and changing single bits through references, a bit vector of any block size has exactly the size and the bits that its history gives it, two vectors compare equal exactly when they have the same size and bits, and at() reports exactly the indices out of range. A bit whose vector shrank does not come back into bits appended later. An operation which fails because memory ran out reports bad_alloc and leaves all vectors as they were. A vector serialised into a message and deserialised into one of the same number of bits equals the original; a truncated message and one with another number of bits are rejected, and nothing outside of the message is read.",
 ["histories", "fault_sequences", "inputs"],
 "All operation histories over several vectors and block sizes, all allocations that may fail, all truncations of messages.",
 "No test covers bit vectors; the defects are in growth after shrinking, appending across block boundaries and failing allocations.",
 ["BitVector.h", "NetworkMessage.h"], ["excess bits of the last block", "append across blocks", "serialize/deserialize"])
prop("C32", "Dynamic storage is big enough, aligned, owned once; failures change nothing",
 "AlignedAllocator and classes with the aligned allocation operators return storage which is aligned for the type (or to the alignment asked for), big enough for all elements and shared with nothing else that lives, or report failure with bad_alloc (a null pointer from the nothrow forms), also for amounts which overflow; storage of objects whose constructor throws is freed. An UninitializedDynamicArray owns exactly the elements it was made with until it is moved from, and its ranges and indices cover exactly these. A packed structure, dynamic or static, keeps each field at its packed offset; a field reads back what was last written to it (converted to its type when it was a value of another type or another field), changing one field changes no other, pointers into a vector field move, differ and compare by whole elements, copies are independent, moved and released storage has exactly one owner, comparison compares the contents, and copies or assignments which fail for lack of memory change nothing. A typed view of raw memory shows exactly the whole elements of that memory, in place, and randomizing it fills exactly these.",
 ["histories", "fault_sequences", "programs"],
 "All histories of containers, arrays and structures over several element sizes and alignments, with any allocation failing and constructors throwing.",
 "Tests create one structure of fixed sizes and no allocation of theirs ever fails; allocators, arrays and assignments are not tested at all.",
 ["AlignedAllocator.h", "UninitializedDynamicArray.h", "DynamicPackedStruct.h", "DynamicPackingInfo.h", "UnalignedReference.h", "PackedStruct.h", "GlobalDeleter.h", "ReferenceVector.h"], ["allocateAlignedStorage", "moves of UninitializedDynamicArray", "accumulated field offsets"])
prop("C33", "Text utilities agree with strings, and survive failing memory and streams",
 "Every operation of a string view (access, parts, comparing, searching in both directions, trimming, copying, hashing, making a string) gives the result of the same operation on a string of the referred characters under the same traits and default positions; it throws std::out_of_range exactly for positions out of range, reads nothing outside the view and its arguments, and changes none of them. Writing a view to a stream writes what writing the string would (width, fill, adjustment), and clears the width; when the stream takes only a part, the start of it has been written and the failure is reported. split() and splitNoAllowEmpty() report exactly the pieces between delimiters, in order and staying in the range, up to an exception of user code, which reaches the caller. concat() gives the text of all of its arguments or throws, never a part of it, and leaves lvalue arguments unchanged. An input memory stream gives exactly its bytes like a stream over a string of them. UUIDs survive the conversion to text and back; other text is refused. Any number of threads may do all of this with one text at once.",
 ["inputs", "fault_sequences", "schedules"],
 "All texts, positions and sequences of operations, all allocations which may fail, all amounts a stream may take before it fails, all points at which user code throws, all interleavings of threads using one text.",
 "Tests use a few fixed strings, never run out of memory, and write to streams which never fail.",
 ["StringView.h", "Split.h", "Concat.h", "InputMemoryStream.h", "Uuid.h"], ["stream insertion of string views", "substring bounds", "reporting of failures in concat"])
prop("C34", "Compile-time utilities compute the documented types and constants",
 "The type-list, literal and traits utilities yield the documented types and values for all arguments.",
 ["programs"], "All template arguments.",
 "Only sampled instantiations are compiled.",
 ["TemplateFilter.h", "IntegerLiterals.h", "FunctionTraits.h"], ["template metaprograms"])

prop("C35", "Scope exits run exactly once, and exceptions keep their causes and messages",
 "The action of a scope exit guard runs exactly once, when its scope is left in whatever way (end, return, exception), after everything created later in the scope is destroyed and before anything created earlier, with the values captured when the guard was created; an exception it throws while no other is under way reaches the caller, and it does not run when creating the guard failed. throwNested() and throwWithNested() throw the last exception given, with the ones before it nested in it in order, down to the first one or the exception being handled; when copying one of them fails, the failure takes the place of that one and of what it would have nested. Exceptions with messages report exactly their message (and error number), as do all copies, also when several threads use, copy, assign and destroy copies of one exception at once; copying them never fails, and exceptions which were not moved into a call are left as they were. Printing an exception prints each exception of its chain in order and ends. Scoped verbose handlers are in force exactly inside their scope.",
 ["schedules", "fault_sequences", "programs"],
 "All ways out of nested scopes, all chains of exceptions, all allocations which may fail, all interleavings of threads which look into, copy and drop the same exceptions.",
 "Tests throw fixed chains on one thread, never run out of memory and never leave scopes by exceptions.",
 ["ScopeExit.h", "ThrowNested.h", "ThrowWithNested.h", "Exception.h", "ExceptionMacros.h", "detail/ExceptionMacros.h", "DebugVerboseHandlers.h"], ["ScopeExit destructor", "throwWithNested recursion", "shared message of exceptions"])

prop("C36", "Pointers shared from an object or to its parts keep all of it alive",
 "sharedFromThis(), its forms for parts of the object (or for anything else that lives as long), weakFromThis() and the pointers to elements of a shared tuple give pointers to exactly the requested object, part or element which share ownership with every other owner of the object. The object or tuple is destroyed exactly once, by whichever thread lets go of the last owner, never while any of them exists, and after everything other owners did with it. A weak pointer can be locked exactly while an owner exists. An object without an owner, such as one under construction or destruction, gives out no owner: the shared forms throw std::bad_weak_ptr and the weak forms give an empty pointer.",
 ["schedules", "histories"],
 "All interleavings of threads which obtain, copy, convert, lock and drop pointers to one object, its parts or the elements of one tuple.",
 "TestSharedTupleElementPointers is single threaded; EnableSharedFromThis has no test.",
 ["EnableSharedFromThis.h", "SharedTupleElementPointers.h"], ["aliasing shared pointers", "weakFromThis without C++17"])

prop("C37", "Range, tuple, strong type and endian utilities treat every value exactly",
 "rangeEqual() says whether two ranges have equal elements in the same order and number, whatever kinds of ranges they are (containers, lists, built-in arrays, string literals, reversed or single-pass ranges, ranges without a size or with sizes of different types); it reads no element beyond the end of either range and consumes single-pass ranges only as far as needed. measureRange() gives the number of elements, and reversed ranges and reversion wrappers visit exactly the elements of the range (which they keep when it is a temporary) in reverse order. applyTuples() calls the function once with all elements of all tuples in order and with their value categories, and passes on its result or exception; makeNoNullTuple() leaves out exactly the null pointer constants. Strong types compare, calculate, hash, swap and stream exactly like their values. The conversions to and from little and big endian give the bytes in that order and are inverses of each other, and comparisons of integers of any two types follow their mathematical values. Exceptions of elements, iterators, comparisons and functions reach the caller, and nothing is copied or destroyed more often than created.",
 ["inputs", "schedules", "fault_sequences"],
 "All contents and kinds of ranges and tuples, all values of integers, all points at which an iterator, comparison, copy or function throws, all interleavings with a thread which feeds a range.",
 "TestRange, TestApplyTuples and TestStrongType check a few constant values of common kinds; no test throws, exceeds the size type of a range or uses single-pass ranges.",
 ["Range.h", "Size.h", "Iterator.h", "ReversedRange.h", "ReversionWrapper.h", "ApplyTuples.h", "NoNullTuple.h", "StrongType.h", "EndianMacros.h", "IntegralComparisons.h", "Min.h", "Max.h"], ["rangeEqual() overloads", "reverseRange()", "applyTuples()", "endian conversion functions"])

prop("C38", "Wide integers calculate modulo 2^n, convert and print exactly",
 "uint_t of every number of bits and type of blocks and uint128_t behave as unsigned integers modulo 2^n: all operators (arithmetic, bitwise, shifts by less than the width, increments, comparisons, references to single bits) give exactly the mathematical result modulo 2^n and leave their operands alone; divisions give quotient and remainder exactly and report a zero divisor with division_by_zero_error, changing nothing. Conversions between widths, block types and built-in integers keep exactly the bits both have; numbers made from a random source take only the bits they have from exactly the blocks they have, and an exception of the source reaches the caller. Printing writes the number in base 8, 10 or 16 in full as the flags of the stream ask, and when the stream takes only a part, throws, or memory runs out, what was written is the start of the right text, the failure is reported and nothing leaks. Numbers can be used by several threads at once as long as none changes them. isPowerOfTwo() and multHiLo() are exact.",
 ["inputs", "fault_sequences", "schedules"],
 "All values and pairs of values of all widths, all points at which a random source, a stream or an allocation fails.",
 "TestUint samples random values of some widths, compares with identities and never lets the stream or memory fail.",
 ["uint_t.h", "uint128_t.h", "integer_demotion.h", "IsPowerOfTwo.h"], ["divMod()", "operator<< of uint_t", "conversion constructors", "multHiLo()"])

prop("C39", "Unaligned pointers, references and byte hashes treat exactly the right bytes",
 "Unaligned references read and write exactly the bytes of the value they refer to, wherever it begins: no neighbouring byte is read, changed or written back, so that threads may use neighbouring values at once, and a value assigned from one it overlaps becomes the value the other one had. Unaligned pointers step, index, compare and subtract by whole values like pointers to an array of them, also when they point to constants or are not a whole number of values apart. Adding to, subtracting from, measuring and copying pointers to void counts bytes, and for other pointers objects. Hashes of raw bytes depend on the seed and every byte and on nothing else (not on the address), parts hash like one after the other, and objects hash like their bytes or as their own hash() says.",
 ["inputs", "schedules"],
 "All types, offsets and contents of values, all sequences of pointer operations, all ways to divide bytes into parts, all interleavings of threads which use neighbouring values.",
 "UnalignedPointer, UnalignedReference, Hash and PotentiallyVoidTypeInfo have no tests of their own.",
 ["UnalignedPointer.h", "UnalignedReference.h", "ConstUnalignedReference.h", "PotentiallyVoidTypeInfo.h", "Hash.h"], ["UnalignedReference::operator=", "operator- of UnalignedPointer", "hashCombineRawData()"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
