"""Per property: what is specified, enumerated and monitored, and against which oracle."""
P = {
'C01': "One writer and one reader thread move numbered elements through buffers of capacity 1-3 by whole-array, actor (taking less than offered) and raw interfaces. Every element carries its number and is written by plain stores, so that any use of storage without synchronisation is a data race; oracle: the sequence of numbers, `available <= really there` and `free <= really free` judged with ghost counters.",
'C02': "Both sides block in waits (plain, timed intervals, with stop conditions, on a caller's mutex), with spurious wake-ups and early timeouts as choices. Oracle: no deadlock (= missed wake-up), reported amounts really available, stop conditions end the wait and only then report nothing.",
'C03': "All histories of reads, writes, partial actors, peeks and queries for element types int, char, void (bytes) and a struct at capacities 1-4, with and without locking; oracle: `std::deque` plus exact contiguous-amount arithmetic, and the regions given to actors are checked to lie in the buffer (also by ASan).",
'C04': "Promise side against future side: set value/exception, wait, timed wait, take, `then` (values, void, futures), drop either end, overwrite, hand over, packaged tasks; two waiters on a future. Oracle: each waiter returns (deadlock monitor), continuation count is exactly one, the value is the one set, broken promise otherwise; timed waits end at or after their deadline but never miss a result which came before.",
'C05': "All histories of one thread over two promises, futures, packaged tasks and continuations against a model of the shared states; tracked values and continuations (exactly-once destruction), every allocation failing once.",
'C06': "Two or three threads acquire, release (also each other's handles) and visit one or two keys; the map may die first; constructors fail; each allocation fails. Oracle: ghost count of live resources per key is at most 1, same resource for concurrent acquirers, one destruction each, waitUntilEmpty returns exactly when empty, no leak.",
'C07': "mc: threads reserve, release, hand over and destroy pools; pools close to exhaustion. seq: every history over uint8_t identifiers with all but a few identifiers taken, moves, self-moves, allocation faults. Oracle: the set of identifiers in use.",
'C08': "One or two threads schedule tasks against the timer thread on the virtual clock, incl. earlier tasks added while it sleeps, equal due times, past due times, reusable tasks, tasks adding tasks, stop at any moment. Oracle: per task run count, virtual time at the run is not before the due time and (when nothing else can run) exactly the due time, order by (due, sequence).",
'C09': "Workers, submitters, stop, timed and one-task workers. Oracle: run counts, submission order at the single dequeue point, submitter's writes race-free for the task, every sleeper wakes (deadlock monitor) on submission and stop, timed calls end in time with the right status, functors destroyed exactly once.",
'C10': "Strands over a real `ThreadPool` with one or two workers, several submitters, several strands, stopping and destroying from all sides. Oracle: a ghost 'running' flag per strand (mutual exclusion), per-submitter order, race detector between consecutive tasks, nothing runs after stop returned, independent strands do not block each other.",
'C11': "Construction, submission, stop from several threads and from tasks, destruction, construction with failing allocations / thread creation; oracle: each task once, all requested workers work concurrently, live thread count is back after destruction, no use of a destroyed pool.",
'C12': "All participation functions with submitters, stop, `join()` from several threads, timeouts as choices, throwing tasks. Oracle: tasks only run by threads inside a participation, `join()` returns exactly when the last participant has left (deadlock monitor in one direction, ghost flags in the other), statuses agree with what was run.",
'C13': "One to three producers and the consumer on weak memory. Oracle: per-producer order, exactly once, an empty answer only if no completed push is pending, payload race-free, producers finish while the others are suspended at any point (wait-freedom), recycled nodes.",
'C14': "Up to three threads on weak memory; counters starting just below wrap-around. Oracle: plain shared data under the lock is race-free and counts right, entry order equals ticket order.",
'C15': "Latch and SimpleWait with several waiters and notifiers, barrier use, spurious wake-ups, stop conditions and visibility on weak memory. Oracle: ghost count at the release, deadlock monitor, last-arrival reported to exactly one thread.",
'C16': "Stop requests against checks and guarded loops (also on weak memory); start gates started, stopped, destroyed, never started, given their function later, from other threads, with failing thread creation. Oracle: ghost flags around the body, deadlock monitor.",
'C17': "The real `EventLoop` over a simulated kernel (`epoll`, pipes, fcntl, all with interrupted, would-block, partial and failing results as choices) with controlling threads: dispatch, re-arm, remove + wait, stop by several threads and handlers, waiters, full pipes, creation failures, registration histories. Oracle: simulated readiness and descriptor tables (double close, use after close), ghost flags for running handlers, deadlock and livelock monitors.",
'C18': "All sequences of answers (success, EINTR, other errors) of wrapped calls up to length 6/9; all histories of two descriptors with open/close/move/release/duplicate over a simulated descriptor table which also hands out 0. Oracle: table of open descriptors and owners.",
'C19': "mc: threads create, destroy and list children of shared parents, also while parents are destroyed. seq: all histories over a small forest, with allocation faults. Oracle: parent/children relation.",
'C20': "seq: all nestings of scopes (left normally or by exception) with several keys; mc: two or three threads with scopes of their own. Oracle: list of entered contexts per thread.",
'C21': "mc: all pairs and triples of operations by different threads; every result vector must be explained by some sequential order (linearizability), plus visibility on weak memory and spurious CAS failures. seq: all values of an 8 bit flag set against integer arithmetic.",
'C22': "All histories of insertion, lookup, dropping and retaining values, for capacities 1-3, next to a list in recency order with weak references; allocation faults; internal containers do not grow with the number of dead entries (counted allocations).",
'C23': "All histories of two sets over two pairs of equal items: insert (by pointer, refused duplicates), erase by key/iterator/range, find, clear, iterate (const, mutable), set destruction. Oracle: sets and expected `use_count()` of each item.",
'C24': "All histories of two maps (insert, emplace, operator[], assign, erase in all forms, copies, moves, swaps) with hash functions distinct, partly colliding and constant; heterogenous lookups and predicates; allocation and element faults. Oracle: `std::map`.",
'C25': "All histories of three optionals with every contained operation throwing or not; oracle: value-or-nothing model and object tracking.",
'C26': "All short histories of two vectors started at every length around block boundaries, for blocks of 8, 16 and 64 bits; oracle: `std::vector<bool>` with 'unspecified' marks for grown bits; serialization both ways; allocation faults; ASan for storage bounds.",
'C27': "For 1-130+ bit widths and 8/16/32/64 bit blocks: all operands (tiny widths) or a lattice of blocks in {0,1,max-1,max,sign bit,...}; oracle: exact arithmetic in `unsigned __int128` or on digit vectors; printing in all bases and widths. Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C28': "All pairs over a lattice of halves {0,1,2,2^31,2^32-1,2^32,2^63,...}, all shifts 0-127, all conversions and stream flags; oracle: `unsigned __int128`. Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C29': "All pairs (triples) of strings of length up to 3-4 over {a, b, NUL, negative char} with all positions and counts, for char, wchar_t, char16_t and custom traits; oracle: `std::basic_string`; views over exact heap blocks so that ASan sees reads outside of the view. Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C30': "All inputs of length up to 6/8 over two letters and two separators, four separator sets, both functions, pointer and forward iterators, exception by callback or predicate at every call, iterators each of whose operations throws; `concat` with every kind of argument; oracle: naive splitting. Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C31': "All pairs of sequences up to length 3 in every kind of range (array, vector, list, forward list, single pass, counted, reversed ...), oracle `std::vector`.",
'C32': "All pairs of strings up to length 3 with embedded NULs and negative characters, in every presentation; oracle: `std::string` equality and hash of the owned form. Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C33': "All 8 bit values (pairs) for every operator; boundary values of wider, floating and pointer types; oracle: the same operation on the plain value.",
'C34': "All 8 and 16 bit value pairs, boundary pairs for all pairs of integer types; oracle: `__int128`.",
'C35': "All write histories over several layouts (nested ones too); oracle: byte vector with offsets computed independently.",
'C36': "All element counts 0-3 per dynamic field over several shapes, all copy/move/assign histories, overflowing counts, bounded fields; oracle: byte offsets computed independently, ASan.",
'C37': "Every byte offset 0-8, every element pair and all walks of pointers of several element types; oracle: `memcpy` and ordinary element arithmetic.",
'C38': "All histories of arrays (create, move, swap, reset, write) with every allocation failing or succeeding; all alignments and sizes (incl. overflowing ones); oracle: sizes, contents, live block count.",
'C39': "All sequences of up to 2-3 fields of every type; each written message read back entirely, truncated at each length and with each length field corrupted; oracle: list of fields, position before a failed read; messages in exact heap blocks (ASan). Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C40': "All sequences of answers of open/fstat/read/close (full, short, EINTR, error, EOF early, file grows) up to 4-6 calls, with allocation faults; oracle: file contents and descriptor table. Buffer histories against `std::string`. Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C41': "All 8/16 bit values and all byte patterns from {00,01,7f,80,ff,...} per byte of 32/64 bit ones, against byte-wise construction.",
'C42': "Texts: each position of a valid text replaced by each character class, all lengths around the valid one, all bracket/hyphen placements; values differing in single bytes; name-based generation. Oracle: independent parser/printer. Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C43': "Copy/assign/throw/nest histories of exceptions of both kinds, every errno, long messages, printing of chains, handler installation and restoration, scope guards on every exit path, every allocation failing. Oracle: expected message chain and counts. Two threads using unrelated objects, in every interleaving, with race detection: no hidden shared state.",
'C44': "All shapes of up to three tuples of up to three elements; all null patterns; all orders of dropping element pointers; shared-from-this histories. Oracle: expected element lists, tracking.",
'C45': "All byte sizes 0-4 elements plus remainder, access histories for several element types, const views, randomizing. Oracle: the bytes.",
'C46': "All lists of up to three types/values of three kinds instantiated for each utility (the 'state space' is that of instantiations), compared at run time with string models; compile failure is a violation.",
'C47': "All literal texts of up to three characters and boundary texts of up to 46 characters for several maxima evaluated through the public templates, and texts which must be refused given to the compiler one by one (bounded number per tier).",
'C48': "Every concept on every probe type and pair, all formulas of the combinators up to depth 2, callables by signature, comparison concepts by operator and result type, and iterator types generated with every set of at most two operations missing; swap traits over types whose swap is absent, throwing, ADL-found or deleted. Oracle: tables written from the definitions, truth tables and a model of each iterator category's requirements. Compile failure is a violation.",
'C49': "Every boundary clock value, failing or not, with the clock call replaced at link time; all element offsets for typed and void pointers of every constness; pass-through of every value category, the aborting branch in a forked child. Oracle: 128-bit arithmetic, byte offsets, object identity.",
'C50': "Every macro, every outcome of the tested expression, every kind of exception at the bottom of chains up to depth 5 (12 thorough), each in a forked child; oracle: abort or not, number of evaluations, exact text of the printed chain, place and expression.",
}
