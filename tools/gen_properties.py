#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/"+f for f in files],
                     mechanism=[dict(name=m[0], where=m[1]) for m in mech],
                     observe_at=observe or [], hook_needed=hook)))
S, H, I, F, C, PR = "schedules", "histories", "inputs", "fault_sequences", "configurations", "programs"

p("C01", "SPSC circular buffer is a race-free FIFO under every interleaving",
  "With one writer thread and one reader thread using a circular buffer, the elements read are exactly the elements written, each once and in order, with every element fully visible to the reader. The amounts reported available or free never exceed what is really there, the writer never overwrites unread data, and neither side ever touches the other side's part of the storage without synchronisation.",
  [S], "all interleavings of one writer and one reader, for all small buffer sizes and transfer sizes",
  "The unit test runs a few single-threaded calls; a wrong memory order or a check-then-act slip shows only in particular interleavings.",
  ["CircBufferSCSP.h"], [("available data / space counters and the locking policies", "CircBufferSCSP.h: CircBufferScspLocking, CircBufferNoLocking, CircBufferBase_")],
  ["values returned by read/write/dataAvailable/spaceAvailable"])
p("C02", "Blocking circular-buffer waits never miss a wake-up",
  "A reader waiting for data returns once data has been written, and a writer waiting for space returns once data has been consumed, whatever the timing of the two threads; the amount reported by a wait is really available. A wait with a stop condition also returns, reporting nothing available, once its stop condition holds.",
  [S], "all interleavings of waiting and notifying threads, including spurious wake-ups and wait timeouts",
  "A lost wake-up needs the notification to fall between the predicate check and the sleep.",
  ["CircBufferSCSP.h", "Durations.h"], [("waitDataAvailable / waitSpaceAvailable", "CircBufferSCSP.h: CircBufferScspLocking")])
p("C03", "Circular buffer obeys bounded-queue semantics for every operation history",
  "For every sequence of reads and writes (whole arrays, single elements, or through caller-supplied actors that may transfer less than offered) the buffer behaves as a bounded FIFO: transfer counts, contiguous and total availability, emptiness and fullness, and the data itself agree with a plain queue, including across wrap-around and capacity one. The region offered to an actor is always inside the storage and contains exactly the free or filled elements it claims.",
  [H, I], "all operation sequences up to a depth over all small capacities and transfer sizes",
  "The test exercises one buffer size and one order of calls; wrap-around arithmetic errs only for particular offsets.",
  ["CircBufferSCSP.h"], [("read/write cursor arithmetic", "CircBufferSCSP.h")])
p("C04", "A future's result is delivered exactly once, whatever the timing",
  "Whichever of setting the result, waiting, taking, attaching a continuation or destroying the promise or future comes first, a waiter always wakes, a continuation runs exactly once, and the value or exception received is the one set; a promise destroyed without a result delivers a broken-promise error. No access to the shared result is unsynchronised.",
  [S], "all interleavings of a promise-side thread with future-side threads",
  "Tests use sequential promise/future calls or one lucky thread timing.",
  ["Future.h"], [("shared state with mutex, condition and continuation", "Future.h: SharedState, Promise, Future")])
p("C05", "Futures and continuations obey their sequential semantics in every history",
  "In every sequence of promise and future operations, validity and readiness are reported truthfully, a value or exception comes out unchanged and once, continuations (returning values, nothing, or futures) receive the completed future and pass on their result or exception. Every value, continuation and shared state is destroyed exactly once.",
  [H, I], "all operation sequences up to a depth over promises, futures, packaged tasks and continuations",
  "Tests check a handful of hand-picked histories.",
  ["Future.h"], [("state machine of promise/future/packaged task", "Future.h")])
p("C06", "At most one live shared resource exists per key",
  "At any time at most one live resource exists for a key, every concurrent acquirer of the key gets that same resource, the resource is destroyed exactly once when its last handle goes away and is then recreated on the next request. A failed construction is reported to the requester and leaves the map usable, and no interleaving of acquirers, releasers and visitors deadlocks or leaks.",
  [S, F], "all interleavings of threads acquiring, releasing and visiting one or two keys, with construction succeeding or throwing",
  "Creation/destruction races need two or three threads at exact points.",
  ["SharedResourceMap.h"], [("lock, per-key placeholder and custom deleter", "SharedResourceMap.h")])
p("C07", "Reserved identifiers are unique and are recycled only after release",
  "Between its reservation and its release an identifier is never handed out again, in any interleaving and any history; released identifiers become available again, and a request is refused only when every identifier is in use. Moving an identifier holder transfers the reservation, and destroying it releases exactly once.",
  [S, H], "all interleavings of reserving and recycling threads and all histories up to a depth on small identifier types",
  "Tests reserve sequentially from one thread.",
  ["IdentifierPool.h"], [("counter and recycle list under a lock", "IdentifierPool.h")])
p("C08", "Timers fire once, on time, in order, and never after cancellation or stop",
  "A scheduled task runs exactly once and not before its due time (however far off that is), never after the timer thread has been stopped, and tasks run in due-time order (those due at the same time in the order they were added); a reusable task can be scheduled again. Stopping the timer thread never deadlocks, and an earlier-due task added while it sleeps wakes it in time.",
  [S, H], "all interleavings of the timer thread with scheduling, cancelling and stopping threads under a controlled clock",
  "The existing test uses real sleeps with one thread order.",
  ["TimeoutsThread.h"], [("ordered task set, mutex and timed wait", "TimeoutsThread.h")])
p("C09", "Thread pool runs every submitted task exactly once and stops cleanly",
  "Every task submitted before the pool is asked to stop is run by exactly one worker, in submission order, with what the submitter wrote before visible to it; a worker sleeping on an empty pool is always woken by a submission or by stop. After stop every worker returns and a later submission is refused or left unrun, never run twice or lost while the pool runs; destroying the pool releases every pending task once, however many there are.",
  [S], "all interleavings of submitting, working and stopping threads",
  "The thread pool has no test; lost wake-ups and double runs need exact timing.",
  ["ThreadPool.h"], [("two-lock task queue with condition variable", "ThreadPool.h")])
p("C10", "Strand executes its tasks serially and in order",
  "While its pool runs, tasks submitted to a strand are each run exactly once, never two at a time, in the order of submission by each thread, even when the pool has several workers; each task sees the effects of the previous one. Stopping the strand waits for the running task and lets no further task run; pending tasks are released once, however many there are.",
  [S], "all interleavings of submitters, pool workers and a stopping thread",
  "No test exists; violations need two workers inside the strand at once.",
  ["Strand.h", "ThreadPool.h"], [("strand queue and slice task", "Strand.h")])
p("C11", "Simple thread pool owns its workers for exactly its lifetime",
  "A thread pool that owns its threads starts the requested number of workers, runs the submitted tasks on them, and when stopped or destroyed joins every worker without deadlock, under every interleaving. No worker touches the pool after it is gone.",
  [S], "all interleavings of construction, submission, stop and destruction",
  "No test exists for it.",
  ["SimpleThreadPool.h", "ThreadPool.h"], [("owned worker threads", "SimpleThreadPool.h")])
p("C12", "Participatory pool runs each task once among whichever threads participate",
  "Threads that lend themselves to a pool (for good, until a condition, for a time, or once) run the submitted tasks, each exactly once and only while participating, and return when told to. Per-participant context is created and destroyed exactly once per participation.",
  [S], "all interleavings of participants, submitters and a stopping thread",
  "No test exists for it.",
  ["ParticipatoryThreadPool.h"], [("participation functions and participator context", "ParticipatoryThreadPool.h")])
p("C13", "Multi-producer queue loses, duplicates and reorders nothing",
  "With any number of producers and one consumer, every pushed element is popped exactly once, elements of one producer come out in their push order, a pop reports an empty queue only if no completed push was pending or another push was just in progress, and the payload written before a push is visible after the matching pop. No operation blocks.",
  [S], "all interleavings and allowed memory reorderings of two or three producers with one consumer",
  "No test exists; errors need exact interleavings or weak memory behaviour.",
  ["MpscWaitFreeSemiIntrusiveQueue.h"], [("atomic tail exchange and link", "MpscWaitFreeSemiIntrusiveQueue.h")])
p("C14", "Ticket lock gives mutual exclusion in arrival order",
  "At most one thread holds the lock, what it wrote is visible to the next holder, and threads acquire it in the order in which they took their turn. Counter wrap-around changes none of this.",
  [S], "all interleavings and allowed memory reorderings of up to three threads",
  "No test exists for it.",
  ["TicketSpinLock.h"], [("ticket and serving counters", "TicketSpinLock.h")])
p("C15", "Latches and wait flags release every waiter exactly when due",
  "No thread passes a latch before its count has reached zero and every waiter passes once it has; a wait flag releases its waiters once notified, before or after they begin to wait. What was written before the count-down or notification is visible after the wait. Once no thread is waiting any more or about to count down or notify, the object may be destroyed, even by the thread just released.",
  [S], "all interleavings of waiters and notifiers, including spurious wake-ups",
  "No test exists; lost wake-ups need exact timing.",
  ["Latch.h", "SimpleWait.h"], [("counter or flag under mutex with condition", "Latch.h, SimpleWait.h")])
p("C16", "Stop and start gates act once, for all threads",
  "Once stop has been requested every later check reports it, and it stays requested until it is reset; a body guarded by a stop gate is not entered again after stop. A start gate releases its thread's body exactly when started, and a thread never started ends without running its body.",
  [S, H], "all interleavings of stopping, starting and running threads",
  "No test exists for it.",
  ["Stoppable.h", "NoStartThread.h"], [("atomic stop flag, start gate", "Stoppable.h, NoStartThread.h")])
p("C17", "Event loop dispatches ready events and always reacts to stop and wake-up",
  "A running event loop calls the handler of every ready registered descriptor with its events, never that of one whose removal or disabling was followed by waiting for the current iteration's end, and returns once asked to stop by any thread at any time. A thread waiting for the current loop iteration to end is released only after a handler call that was running has finished, waking the loop up if it is idle; interrupted or would-block system calls never make the loop fail or spin, any other failing call is reported with its reason, and destroying the loop waits until it has stopped.",
  [S, F, H], "all interleavings of the loop with controlling threads over a simulated kernel, and all short sequences of interrupted, partial and failing system calls",
  "No test exists; the faults cannot be provoked from a unit test.",
  ["EventLoop.h", "SingleThreadEventLoop.h", "FileDescriptor.h", "Posix.h"], [("epoll loop, self-pipe, iteration counter", "EventLoop.h")])
p("C18", "System-call wrappers retry interruptions, report errors, and close once",
  "A wrapped system call is repeated while it is interrupted and otherwise its result is returned or its failure raised with the right error code. An owned descriptor is closed exactly once, by its last owner, and never another descriptor.",
  [F, H], "all short sequences of system-call outcomes and of ownership operations",
  "Tests cannot make the kernel interrupt or fail calls at chosen points.",
  ["Posix.h", "FileDescriptor.h", "Exception.h"], [("syscallLoop, FileDescriptor", "Posix.h, FileDescriptor.h")])
p("C19", "Object trees keep parents and children consistent",
  "In every history and interleaving a child is attached to exactly the parent it was given, a parent lists exactly its attached children, and a destroyed child disappears from its parent. Operations from several threads neither race nor deadlock.",
  [S, H], "all interleavings of two or three threads and all histories up to a depth",
  "No test exists for it.",
  ["ObjectTree.h"], [("mutex-protected child set", "ObjectTree.h")])
p("C20", "Call stacks mirror exactly the active scopes of their own thread",
  "At every point a thread's call stack lists exactly the contexts it has entered and not left, innermost first, and lookups find the innermost entry for a key. Leaving a scope, normally or by exception, restores the previous view, and other threads' scopes are never visible.",
  [H, S], "all nestings of scopes up to a depth on up to two threads",
  "The test uses one nesting.",
  ["CallStack.h"], [("thread-local intrusive stack", "CallStack.h")])
p("C21", "Atomic flag operations lose no updates",
  "Concurrent setting, clearing, toggling and exchanging of flags acts as if one after another: no update is lost and every operation reports the true previous or resulting value. Plain flag sets obey the algebra of sets.",
  [S, I], "all interleavings of two or three threads on a shared flag word; all values of a small flag set",
  "Lost updates need exact interleavings.",
  ["AtomicFlags.h", "Flags.h"], [("atomic read-modify-write", "AtomicFlags.h")])
p("C22", "LRU cache keeps exactly the most recently used entries",
  "For every history of insertions and lookups the cache holds at most its limit, retains exactly the most recently used entries, and returns the value last stored for a key. Evicted entries are released as soon as nobody else holds their value, and until then are found (and made recent) again instead of being created twice; what remains of entries whose values are gone does not pile up.",
  [H], "all operation sequences up to a depth over small key sets and capacities",
  "The test covers a few sequences; list/map disagreement needs specific orders.",
  ["LRU.h"], [("recency list and index", "LRU.h")])
p("C23", "Intrusive shared-item sets own their items exactly while they contain them",
  "For every history, a set contains exactly the items inserted and not removed, lookups agree, and an item is kept alive by the set while contained and released when removed or when the set dies. A refused duplicate insertion changes nothing.",
  [H], "all operation sequences up to a depth over a small item domain",
  "No test exists for it.",
  ["IntrusiveUnorderedSharedItemSet.h"], [("intrusive hash set with owning hooks", "IntrusiveUnorderedSharedItemSet.h")])
p("C24", "Hash maps with custom lookup behave as maps for every history",
  "For every sequence of operations, and whatever collisions the hash function has, the map behaves as a finite map: insertion keeps an existing entry, assignment replaces it, removal removes it alone, every form of lookup (by key, by equivalent key, by hash and predicate) agrees, and iteration visits each entry once. Copies are independent of the original.",
  [H, I], "all operation sequences up to a depth over small key sets with colliding and distinct hashes",
  "Tests use a few string keys without collisions.",
  ["UnorderedMap.h", "SimpleUnorderedStringMap.h", "HashTablePredicate.h"], [("multimap by hash plus predicate", "UnorderedMap.h")])
p("C25", "Optional values keep value-or-nothing semantics and exact lifetimes",
  "For every sequence of constructions, assignments, swaps, resets and emplacements an optional holds exactly the value a reference model holds, and comparisons order empty before any value. Every contained object is constructed and destroyed exactly once, also when a contained operation throws.",
  [H, F], "all operation sequences up to a depth over two or three optionals, with every contained operation throwing or not",
  "Tests check fixed sequences without failures.",
  ["Optional.h"], [("storage plus engaged flag", "Optional.h")])
p("C26", "Bit vectors behave as sequences of booleans",
  "For every history of pushes, pops, resizes, appends, bit writes and bitwise operations the bit vector equals a plain sequence of booleans (bits added by growing are unspecified until written), at every length around block boundaries. No operation reads or writes outside its storage.",
  [H, I], "all operation sequences up to a depth at lengths around block boundaries",
  "No test exists for it.",
  ["BitVector.h"], [("block array with bit count", "BitVector.h")])
p("C27", "Fixed-width integers implement arithmetic modulo two to their width",
  "For all operands, addition, subtraction, multiplication, division, remainder, shifts, bit access, comparison, increments, conversions (of non-negative values) and text output of fixed-width unsigned integers equal exact integer arithmetic reduced modulo two to the width. Division by zero is reported and unused bits never become visible. Threads which use unrelated objects at the same time do not affect each other.",
  [I, C], "all operand pairs for small widths, and all carry/borrow patterns over boundary blocks for larger ones, for every block type",
  "No test exists; carries between blocks err for rare operands only.",
  ["uint_t.h", "integer_demotion.h"], [("block-wise carry propagation", "uint_t.h")])
p("C28", "128-bit integers implement arithmetic modulo two to the 128",
  "For all operands the 128-bit unsigned integer's arithmetic, shifts, comparisons, conversions (of non-negative values) and text output equal exact arithmetic modulo two to the 128, and division by zero is reported. Threads which use unrelated objects at the same time do not affect each other.",
  [I], "all pairs over a lattice of boundary values of the two halves and their sub-words, all shifts",
  "No test exists; cross-word carries err for rare operands only.",
  ["uint128_t.h", "integer_demotion.h"], [("two-word arithmetic", "uint128_t.h")])
p("C29", "String views compare, search and slice as strings do",
  "For all contents and positions, comparing, searching (forwards, backwards, by character or set), slicing, trimming, hashing and printing a string view give the same answer as on an owned string with the same characters, and no operation looks outside the viewed range. Out-of-range positions are reported. Threads which use unrelated objects at the same time do not affect each other.",
  [I], "all pairs of short strings over a small alphabet including the terminator and negative characters, with all positions",
  "Tests check selected strings.",
  ["StringView.h", "Hash.h"], [("pointer-and-length search loops", "StringView.h")])
p("C30", "Splitting and joining preserve every piece",
  "Splitting a sequence at separators visits exactly the maximal pieces between separators, in order and without loss, stopping early only when the callback or the separator predicate throws; concatenation yields exactly its arguments' text in order. Threads which use unrelated objects at the same time do not affect each other.",
  [I], "all short inputs over a small alphabet with every separator choice and stop position",
  "Tests do not cover them.",
  ["Split.h", "Concat.h"], [("split loop", "Split.h"), ("recursive streaming", "Concat.h")])
p("C31", "Range views expose exactly the underlying elements",
  "Range comparison, measurement and reversal views agree with the underlying sequences for every content and length, forwards and backwards.",
  [I], "all pairs of short sequences over a small alphabet and all supported range kinds",
  "Tests check selected ranges.",
  ["Range.h", "ReversedRange.h", "ReversionWrapper.h", "Iterator.h", "Size.h"], [("range algorithms", "Range.h")])
p("C32", "All forms of one string hash and match alike",
  "A string hashes to the same value and matches the same entries however it is presented: owned, terminated (constant character arrays included), ranged (non-constant character arrays, with their terminator) or as a prepared predicate of these; two presentations match if and only if their characters are equal. Threads which use unrelated objects at the same time do not affect each other.",
  [I], "all pairs of short strings over a small alphabet in every presentation",
  "Tests check a few strings.",
  ["StringHasher.h", "StringHashTablePredicate.h", "HashTablePredicate.h"], [("hash combine and equality overloads", "StringHasher.h")])
p("C33", "Strong types behave exactly as the value they wrap",
  "Every enabled operation on a strong type (comparison, arithmetic assignment, increment, hashing, streaming, swapping) has exactly the effect and result of the same operation on the wrapped value.",
  [I], "all pairs of values of an 8-bit wrapped type for every operation",
  "Tests check a few values.",
  ["StrongType.h"], [("mixins", "StrongType.h")])
p("C34", "Mixed-sign integer comparisons are mathematically exact",
  "For all values of all pairs of integer types, comparisons and sign tests give the mathematically correct answer, and conversions between signed and unsigned counterparts preserve representable values. Minimum and maximum, power-of-two tests, conversions of enumerations and integer demotion are exact likewise.",
  [I], "all value pairs of 8-bit types and boundary-value lattices of all wider type pairs",
  "Tests check selected constants.",
  ["IntegralComparisons.h", "SignedToUnsigned.h", "ToSigned.h", "ToUnsigned.h"], [("sign-aware comparison", "IntegralComparisons.h")])
p("C35", "Packed structures place fields contiguously and independently",
  "In a packed structure every field lies right after the previous one, what is written to a field is read back unchanged, and writing one field changes no other byte. Offsets, sizes and both read-only and writable access agree.",
  [I, H, C], "all write histories up to a depth over representative layouts",
  "Tests check a few layouts.",
  ["PackedStruct.h", "PackingInfo.h", "PackedStructAccessor.h", "ConstPackedStructAccessor.h", "PackedRawData.h"], [("compile-time offsets and memcpy access", "PackedStruct.h, PackingInfo.h")])
p("C36", "Dynamic packed structures place runtime-sized fields correctly",
  "For every choice of run-time element counts, fields of a dynamic packed structure are contiguous, non-overlapping and inside the allocation, sizes and offsets are computed exactly (counts whose size is not representable are refused), values round-trip, and copies and moves preserve contents and ownership.",
  [I, H, C], "all small run-time element counts for representative layouts, all copy/move histories up to a depth",
  "Tests check a few size vectors.",
  ["DynamicPackedStruct.h", "DynamicPackingInfo.h", "MaybeDynamicPackedStruct.h", "MaybeDynamicPackingInfo.h"], [("prefix sums of run-time sizes", "DynamicPackingInfo.h")])
p("C37", "Unaligned references and pointers access exactly their object",
  "Reading and writing through unaligned references at any byte offset transfers exactly the object's bytes (assigned values are converted as in an ordinary assignment), and unaligned pointer arithmetic, comparison and distance agree with ordinary element pointers.",
  [I], "all offsets, all element distances in a small array, several element types",
  "No direct test exists.",
  ["UnalignedPointer.h", "UnalignedReference.h", "ConstUnalignedReference.h"], [("memcpy access", "UnalignedReference.h")])
p("C38", "Raw arrays and aligned allocations have exact size, alignment and ownership",
  "An uninitialised array has the requested number of elements, keeps its contents through moves, and frees its storage exactly once; an aligned allocator returns storage of at least the requested size at the requested alignment, or reports failure, without leaking.",
  [H, F], "all operation sequences up to a depth, with every allocation failing or succeeding",
  "No test exists for them.",
  ["UninitializedDynamicArray.h", "AlignedAllocator.h", "GlobalDeleter.h"], [("owning pointer", "UninitializedDynamicArray.h")])
p("C39", "Network messages round-trip and failed reads consume nothing",
  "Whatever sequence of values is written to an outgoing message is read back equal from the incoming message, in order. On every truncated or malformed message a read fails cleanly, looks at no byte outside the message, and leaves the read position where it was; positioning succeeds exactly for positions inside the message. Threads which use unrelated objects at the same time do not affect each other.",
  [I, H, F], "all short sequences of field types and all truncations and length-field values",
  "No test exists for it.",
  ["NetworkMessage.h", "InputMemoryStream.h", "EndianMacros.h"], [("bounds check before advance", "NetworkMessage.h")])
p("C40", "File contents load completely or not at all",
  "Loading data from a file gives exactly the file's bytes however the system splits or interrupts the reads, and on any failure raises an error and releases every resource. Copies, moves and assignments of data buffers preserve contents and ownership. Threads which use unrelated objects at the same time do not affect each other.",
  [F, H], "all short sequences of read results (short, interrupted, failing, end of file) and all buffer operation histories up to a depth",
  "Short reads and failures cannot be provoked from a unit test.",
  ["Datum.h"], [("read loop", "Datum.h")])
p("C41", "Byte-order conversions are exact inverses of each other",
  "Converting an integer to little- or big-endian order yields exactly the bytes of that order, converting back restores it, for every value and width.",
  [I], "all 8- and 16-bit values and a boundary lattice of wider ones",
  "No test exists for them.",
  ["EndianMacros.h"], [("conversion functions", "EndianMacros.h")])
p("C42", "UUIDs parse, print, compare and hash consistently",
  "Every UUID text accepted yields the bytes it denotes and prints back as the same identifier, malformed text is rejected, and ordering, equality and hashing agree with the bytes. Threads which use unrelated objects at the same time do not affect each other.",
  [I], "all single-position variations of valid texts and all pairs over a small byte set",
  "Tests check a few identifiers.",
  ["Uuid.h"], [("literal parsing", "Uuid.h")])
p("C43", "Exceptions, nesting and scope guards keep their information and run once",
  "An exception's message and cause survive copying and nesting unchanged, error-number exceptions carry the number given, nested throwing exposes the original as the cause, and verbose handlers print the whole chain, outermost first, and give the previous handlers back. A scope guard runs its action exactly once at scope end on every exit path. Threads which use unrelated objects at the same time do not affect each other.",
  [F, H], "all exit paths, nesting depths up to a bound, and every allocation failing or succeeding while the exception is made",
  "Tests check the success path only.",
  ["Exception.h", "ExceptionMacros.h", "ThrowNested.h", "ThrowWithNested.h", "ScopeExit.h"], [("shared message storage; nested throwing; destructor action", "Exception.h, ThrowNested.h, ScopeExit.h")])
p("C44", "Tuple utilities keep every element and share ownership correctly",
  "Applying a function to (non-empty) tuples passes every element in order, removing null entries keeps the others in order, and pointers to elements of a shared tuple keep the whole tuple alive until the last is dropped and no longer.",
  [I, H], "all small tuple shapes and all orders of dropping the element pointers",
  "Tests check one shape.",
  ["SharedTupleElementPointers.h", "NoNullTuple.h", "ApplyTuples.h", "EnableSharedFromThis.h"], [("aliasing shared pointers, index arithmetic", "SharedTupleElementPointers.h, NoNullTuple.h, ApplyTuples.h")])
p("C45", "Reference vectors are exact views of the memory they are given",
  "A reference vector is a view of the memory it is given: it has as many elements as fit, refers to exactly those objects in order, and writes through it reach them and nothing behind the last whole element. Constant views never allow writes, and randomizing fills every element from the generator.",
  [H], "all sizes in bytes up to several elements, element sizes and access histories up to a depth",
  "No test exists for it.",
  ["ReferenceVector.h"], [("pointer and size in bytes", "ReferenceVector.h")])
p("C46", "Compile-time type-list utilities compute the specified lists",
  "The template metaprogramming utilities (appending, filtering, prefixing, counting, selecting types and deriving function traits) compute exactly the lists and values their names say for every argument list.",
  [PR], "all instantiations",
  "Static assertions in the tests check selected instantiations.",
  ["TemplateAppend.h", "TemplateFilter.h", "TemplateCommonPrefixTypes.h", "TemplateGetTypeParam.h", "FunctionTraits.h"], [("template recursion", "Template*.h")])
p("C47", "Integer literals denote exactly their digits or are refused",
  "Every octal, decimal and hexadecimal literal text denotes exactly the number it spells (modulo the width where the literal's name allows overflow), has the literal's integer type, and is recognised as overflowing if and only if it exceeds the type's maximum. Texts which are not integers are refused by the compiler, and so are overflowing texts unless the literal's name allows them.",
  [I, PR], "all literal texts of up to three characters and all boundary and power texts around the maxima of all widths, up to 46 characters",
  "No test exists; overflow detection errs only for particular lengths and leading digits.",
  ["IntegerLiterals.h", "CstdintLiterals.h", "CstddefLiterals.h"], [("digit recursion with value, rank and overflow", "IntegerLiterals.h: LiteralStep")])
p("C48", "Concept checks and traits answer exactly what types can do",
  "A concept check accepts exactly the types which have the operations the concept names, whatever single operations a type lacks; combinations of concepts by and, or, not, any and all obey Boolean algebra; overloads constrained by concepts are chosen accordingly; and the swappability and referenceability traits agree with whether swapping or referring to such values is possible and cannot throw, for every type.",
  [PR, I], "all pairs of probe types, all concept formulas up to a depth, and all iterator types lacking up to two operations",
  "Static assertions in the tests check selected types.",
  ["Concepts.h", "Iterator.h", "IsSwappable.h", "IsReferenceable.h"], [("detection of expressions", "Concepts.h, Iterator.h, IsSwappable.h")])
p("C49", "Clock readings, durations, pointer arithmetic and checked returns are exact",
  "A clock reading in microseconds is the clock's value exactly and a failing clock is reported; duration conversions denote the length they name; element arithmetic and copying for typed and untyped memory move by exactly the number of elements or bytes; and a checked pass-through returns the very object it was given or aborts.",
  [I, F], "all boundary clock values and clock failures, all small distances, sizes and value categories",
  "The clock cannot be set from a unit test, and no test checks the others.",
  ["MicrosecondTime.h", "Durations.h", "PotentiallyVoidTypeInfo.h", "AssertReturn.h"], [("microsecond arithmetic", "MicrosecondTime.h"), ("typed and void memory helpers", "PotentiallyVoidTypeInfo.h")])
p("C50", "Test assertions fail exactly when the tested expression fails",
  "The test macros evaluate the tested expression once and abort the program exactly if it does not give what the macro requires (true, no exception, an exception), whatever is thrown; a failure prints its place and the expression, and an unexpected exception is printed with its whole chain of causes, numbered in order.",
  [I, F], "all macros with all outcomes of the tested expression, all kinds of exceptions and chains up to a depth",
  "A test framework cannot check its own failures: aborting is what it never does in a passing test.",
  ["TestAssert.h"], [("abort and printing of the exception chain", "TestAssert.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
