# per property: how it is decided, bounds, cost (seconds quick on 8 cores), decisions taken on the way
D = {}
D["C01"] = """Spec `specs/either/EitherOr.tla`: two containers of one type and one of a convertible type, payload identities, moved-from state, live-object count. All transitions (copy/move/convert/assign/self-assign/take out/assign own part) are replayed for up to six type combinations with counted objects. *Decision*: assigning a container a part of the value it holds must work (fixed in 8ea1ba7). Quick ≈ 13 s."""
D["C02"] = """Spec `specs/latch/Latch.tla` (blocked waiters, count, spurious wake-ups; invariant: nobody blocked at zero in a quiescent state; liveness under fairness in the MC). Code: `Latch.cpp` instrumented for the controlled scheduler; 2–4 threads, programs chosen from the specification's actions; each recorded history (invocations, responses, blocked states) is validated as a behaviour. Quick ≈ 12 s."""
D["C03"] = """Spec `specs/barrier/Barrier.tla` (rounds, arrivals, completions, releases). As C02; also hundreds of rounds for counter wrap-around. Throwing completions are excluded (they leave the barrier's parties waiting – a limitation of the interface noted here, not claimed). Quick ≈ 25 s."""
D["C04"] = """Spec `specs/threads/ThreadsTrace.tla`: names and nominator stacks per thread; random histories over real threads, all threads looked at from inside after every operation. Quick ≈ 10 s."""
D["C05"] = """Spec `specs/files/Files.tla` (a tree of files, directories, links, pipes with modes) as oracle, temporary objects on top of it. Runs as uid 65534 in a scratch directory under /tmp, made and removed by the check. Quick ≈ 25 s."""
D["C06"] = """Spec `specs/cord/Cord.tla`: a cord is a sequence of bytes; block sizes are an input that must not show. `CordGen` enumerates operation sequences, long random ones are validated by `CordTrace`. Two defects repaired (8b19a49, 7d90818). Implicit copies of Cord/ICord are excluded: they alias blocks and the class does not offer copying in its documentation. Quick ≈ 12 s."""
D["C08"] = """Spec `specs/clock/Clock.tla` (StopWatch part): time as a rational number of ticks. The driver interposes the tick counter/clock functions, so months of running are replayed in microseconds. Quick ≈ 6 s."""
D["C09"] = """Spec `specs/calendar/Calendar.tla`: the proleptic Gregorian calendar by days and seconds of day; TLC proves its own laws on a window of years, the code is compared with it over all month/year/century boundaries and random instants of the whole range. Quick ≈ 10 s."""
D["C10"] = """Spec `specs/clock/Clock.tla` (wall clock and slow-operation tracker). Same interposed time sources. Quick ≈ 6 s."""
D["C11"] = """Spec `specs/response/Response.tla`: a record is a function from fields to abstract values; every pair of records differing in every subset of ≤2 fields is replayed (graph), for all seven record kinds; `CodesTrace` for the error codes. Quick ≈ 27 s."""
D["C13"] = """Specs `specs/status/StatusTrace.tla` and `specs/either` (StatusOr = status ∪ value). The overload taking a C string is a printf format, as its declaration says. Quick ≈ 27 s."""
D["C14"] = """Specs `specs/lru/LRU.tla` (bucketed map with recency order and counters; graph replay) and `LRUTrace` (linearizability of concurrent histories under the controlled scheduler: TLC searches a linearization order). Reading the counters concurrently with other operations is outside (they are read without the lock). Quick ≈ 34 s."""
D["C15"] = """Spec `specs/pool/Pool.tla`. Concurrent histories under the controlled scheduler; destruction observed through counted objects. An earlier version of the harness read an object after its pool was cleared by another thread – a false alarm of the harness, corrected. `empty()` is unlocked but benign under sequential consistency. Quick ≈ 15 s."""
D["C16"] = """Spec `specs/calendar` (`Date` part): day numbers, text, hash. *Known finding*: `Date` makes 1900 (and most centuries) leap; DateTest fixes the day numbers, so it is recorded, not repaired. DateTime's text prints microseconds unpadded because FunctionManagerTest fixes that. Quick ≈ 10 s."""
D["C28"] = """Spec `specs/files/Files.tla`: tree with links; each operation's result and *effect on the whole tree*. Decisions: the non-recursive `remove` of a directory deletes plain files in it and fails only on sub-directories – the header says “not empty” but FileUtilsTest fixes the former. Four defects repaired. Scratch directory, uid 65534; readdir/statfs overridden to vary d_type and the file-system. Quick ≈ 27 s."""
D["C17"] = """Spec `specs/value/Value.tla` over `lib/BigInt.tla` (integers as base-1000 limbs, since TLC has 32-bit integers; floats as dyadic rationals *n*·2^-*k*), so that overflow, quotient (checked as *a = q·b + r*), remainder and rounding are decided exactly and not by another machine's arithmetic. The driver builds operands from a prefix text, runs the operator under UBSan/ASan, prints the result; TLC accepts or rejects every result (`ValueTrace`). *Decisions*: extreme products and quotients of floats, NaN and infinities are outside; texts with leading blanks are outside; float → integer saturates (as `toInt` of a float is written), float text → integer overflows (as the code for texts is written). Three defects repaired. Quick ≈ 21 s."""
D["C18"] = """Spec `specs/value/Order.tla`; `OrderMC` checks irreflexivity, asymmetry, transitivity and connectedness on all triples of the universe (so the oracle itself is a consistent order), `ValueTrace` compares the code with it on all pairs. *Excluded from the laws* (not from the comparison with the code): floats closer than 1e-8 and integers beyond 2^53 against floats, where == is not transitive by construction; edges against their reverse (equal, but ordered). One defect repaired (steps). Quick ≈ 33 s."""
D["C07"] = """Spec `specs/value/Holder.tla`: slots with a kind and a variant; 13 actions; TLC emits the graph, every transition is executed. What compounds hold inside is itself a content, so that “assign a part of yourself” is an action. Accessors of the wrong type are tried in a forked child (they end the process by CHECK). Three defects repaired (type name of a null; assignment of own parts; setters with own parts). Quick ≈ 28 s."""
D["C35"] = """Spec `specs/value/Shape.tla` (operations as functions on the value records, texts as *sets* of texts because maps and sets print in any order), `ShapeTrace` the events. New objects are made in memory filled with a pattern (`-flifetime-dse=0`), so that an uninitialized field shows. Three defects repaired (append, merge, uninitialized fields). Quick ≈ 15 s."""

D["C40"] = """Spec `specs/wire/Wire.tla` (`Schema`, `Enc`, `Dec`, `Bad`, `Arrives`), `WireTrace` the events. The thrift library is not installed: `shim/thrift` holds stand-ins for its field-level protocol interface (a binary, a compact and a by-name protocol), over which the real `*Ops.inl` are compiled; the driver prints the tree of fields that was written. The schema in the specification is compared with the `.thrift` files themselves. Trees are mutated (order, missing, unknown, mistyped fields; one more field of every type behind every struct) and read by all protocols. Three defects repaired. Quick ≈ 25 s."""

D["C19"] = """Specs `specs/expr/Expr.tla` (the evaluator `Eval`: value and variables afterwards; lazy and strict operators), `Ops.tla` (operators over values, on top of `specs/value`), `Words.tla` (fixed texts). `lib/exprs.py` generates expressions biased to well-typed ones with nulls, empties and bad values strewn in; the driver builds the real objects, evaluates original, copy and decoded copy, several times over different contexts in between, and prints the value and the log of what variables were set to; `ExprTrace` compares. `Free` marks what the specification leaves open and propagates. Six defects repaired, among them a column that went through a decode as a value and dates that looped for ever. Quick ≈ 85 s."""
D["C36"] = """Specs `specs/expr/Expr.tla` (`Text`, `Encoded`, `Alike`). For each expression the driver prints text, encoding, and text and encoding of the copy and of the decoded one; equality of pairs both ways. Families enumerate every field of every kind. *Decision*: type names of casts, texts of sets and maps in the constant's own order; floats' texts open. Five defects repaired (text search, versioned variable, aggregates, labels in attributes, uuid). Quick ≈ 55 s."""
D["C37"] = """Specs `specs/expr/Fun.tla` (each function as an operator on values), `Names.tla` (names, aliases, arities, purity), `FunTrace` the recorded calls; `specs/lib/Real.tla` encloses exp, log, sin, atan … between rationals on limbs of `BigInt`, so that results of the C library are decided without using it. The driver calls through the function manager, and also prints: whether lookup succeeds in the three ways the interface offers, the announced type, purity, the time zone, the clock before and after, whether the arguments were left alone and whether a second call gives the same. The source of chance is a stand-in set to its lowest, highest or free draw. *Decisions*: real functions must lie in the enclosure widened by 1e-9; `time()` of now is only required to be a time. Twelve defects repaired. *Known finding*: the announced type of strcasecmp, fixed by a test. Quick ≈ 55 s."""
D["C20"] = """Spec `specs/expr/Agg.tla`: the result after every prefix as a function of the prefix; the driver applies value by value and prints the result each time. Quick ≈ 50 s."""
D["C21"] = """Two specs. `specs/worker/Worker.tla` models the hand-over (lists under a lock, eventfd, stop flag, the loop\'s steps) and is model-checked: FIFO, nothing waits while the worker sleeps, a purge is not lost, what was pushed before stop is drained; with timers and purges taken in two steps (`Together = FALSE`, as the code was) TLC finds the lost purge. `WorkerTrace.tla` is the contract (queue and thread per worker, due times of timers, owed tasks, turn of the pool) that explains recorded histories: calls, returns, begin and end of tasks, the loop falling asleep, virtual time moving on, outcomes of futures. The real code runs under `harness/vsched` with `harness/evfake` in the place of libevent (time moves only when somebody\'s wait times out). Three defects repaired. Quick ≈ 32 s."""
D["C34"] = """Spec `specs/times/Zone.tla` (texts of zones, regions) and `TimesTrace` (state: the zone of the process, a zone read again and again, whether the table is loaded), on the calendar and date functions of `specs/expr/Fun.tla`. One process per trace. *Decisions*: the offset in a zone's text counts eastwards (“EST-05” is five hours behind), as TimezoneInfoTest fixes, not as POSIX has it; after a region that is unknown the zone is not asked for, since the service does not start then. Two defects repaired. Quick ≈ 28 s."""
D["C22"] = """Specs `specs/client/Placement.tla` (MurmurHash2 over bytes, parts) and `specs/client/Storage.tla` (spaces, believed leaders, hosts tried last, operations, calls, connections), model-checked as `StorageMC` (one space, two parts, two hosts, two operations, loads, failures: every item in exactly one call to its part's leader; calls add up; connections belong to one key), and `StorageTrace` explaining recorded histories. Same driver and played cluster as C24; `lib/cluster.py: Metad` answers the loads. With `preempt` the driver hands over between the calls of one request, so that answers come before the last call is sent. The trace gives ids as their bytes, so the conversion of integer ids and every placement are computed in TLA+. Quick ≈ 50 s + 80 s compiling."""
D["C23"] = """Specs `specs/client/Cache.tla` (what is known; the calls a load needs, given those answered; taking over; the difference told to the listener with its order; heartbeats, readiness, waiting; what every query answers) and `Schema.tla`, model-checked as `CacheMC` (one space with two versions of its parts and listeners: what is known is always one of the states metad had, the listener's view follows what is known), and `CacheTrace` explaining recorded histories. The same driver and played cluster as C24 and C22; the check changes metad's state between any two answers, fails calls, moves time, and asks any of 75 queries at idle and in the middle of loads. Found six defects, all repaired. Quick ≈ 35 s + 80 s compiling."""
D["C25"] = """Spec `specs/client/Schema.tla` (widths, offsets, flag positions, lookup, time-to-live) through the `Cache` specification with `Full = TRUE` (`SchemaTrace.cfg`): the histories of C23 with wider schemas, mostly asking for schemas, all versions and the newest, directly and through the managers. Quick ≈ 25 s + 80 s compiling."""
D["C26"] = """Spec `specs/stats/Stats.tla` (texts cut, trimmed and read byte by byte; windows; percentiles; the list), model-checked as `StatsMC` (wider ranges see more, ids stable, percentiles within the samples), `StatsTrace` for recorded histories with the clock in the driver's hands; `Shared.tla`/`SharedTrace` for threads: the stand-in time series lets others go on in the middle of every operation, so a missing lock shows. Quick ≈ 30 s."""
D["C27"] = """Spec `specs/lib/JsonText.tla` (JSON parsed from bytes; comments left out by a small automaton) and `Conf.tla` (typed items, conversions of array entries, writing), `ConfTrace` for recorded histories; what a text means is decided in TLA+, not by the generator. Three defects repaired (fde0c13, 8c23762, 1c9ca5f). Quick ≈ 20 s."""
D["C29"] = """Spec `specs/client/Settings.tla` (what is declared, when a load happens, what each setting becomes, what the listener is owed), `SettingsMC` (loads failing at any step; caught up implies in force, the immutable stays, nothing before registration), `SettingsTrace` for recorded runs: the real MetaClient and GflagsManager with real gflags, the meta service played by the check through the client world's stand-ins. Map settings are read from the flag's text by `JsonText`. Quick ≈ 40 s plus the build of the client."""
D["C24"] = """Spec `specs/client/MetaCalls.tla` (who may be the leader, the operations, their pauses and tries; the table of operations → call and place of the result; the table of codes → texts), model-checked as `MetaCallsMC` (two operations, adverse answers: every operation in at most one call, at most limit + 1 calls), and `MetaCallsTrace` explaining recorded histories. The driver (`harness/client_driver.cpp`) is interactive: the check plays the cluster, decides when a call is answered, with what, or fails, and when virtual time moves. `lib/minithrift.py` stands in for the thrift compiler: C++ types and asynchronous clients from the repository's own `.thrift` files. Arguments and fields are compared as canonical text; keys of default values are composed in TLA+. Quick ≈ 100 s, most of it compiling."""
