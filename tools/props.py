PROPS = []
NOT_APPLICABLE = []
HOOKS = None
def P(id, title, statement, over, text, why, files, mech, state, technique, note, level="model_checking"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                 "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]},
        technique=technique, note=note, level=level))

P("C01", "Either-or and error-or containers hold exactly one live value",
  "At every moment an either-or (or error-or) container is either empty or holds exactly one live value of exactly one of its two alternatives, and its state queries and accessors report just that. Copying yields an equal container and leaves the source alone, moving (by construction, by assignment, from a container of convertible types, or by taking the value out) transfers the value and leaves the source empty, and self-assignment or assigning a container a value it already holds changes nothing. Every value put into a container is destroyed exactly once, and no value is used after it was destroyed or moved away.",
  ["histories", "inputs"], "every sequence of constructions, copies, moves, conversions, assignments, accesses and destructions over any number of containers, for any pair of alternative types",
  "The unit tests run some twenty fixed straight-line snippets on int and string alternatives; they never mix long histories of copies, moves and conversions, never count live objects across both alternatives, and never assign a container its own value.",
  ["src/common/base/EitherOr.h", "src/common/base/ErrorOr.h"],
  [("tagged union with explicit destruction before every state change", "src/common/base/EitherOr.h: destruct/reset, constructors, operator="), ("rvalue accessors empty the container", "src/common/base/EitherOr.h: left()&&/right()&&"), ("free accessors over the container", "src/common/base/ErrorOr.h")],
  [("state_", "which alternative is alive", "src/common/base/EitherOr.h"), ("val_", "storage of the live alternative", "src/common/base/EitherOr.h")],
  "TLA+ specification checked with TLC; every transition and long random walks replayed into the real templates under ASan/UBSan",
  "TLC enumerates every state of two containers of one type and one of a convertible type with two payloads; each of the transitions is executed on the real code for up to six type combinations with object-lifetime instrumentation. Assumes the alternatives' own operations do not throw and that other type combinations behave like the instantiated ones.")

P("C02", "A latch releases all its waiters exactly when its count reaches zero",
  "A latch built for n events releases waiters (wait, down-and-wait, and the readiness query) only once n count-downs have happened, releases every one of them then, and stays released for good. No wake-up is lost: in no interleaving does a waiter stay blocked after the count reached zero, whatever spurious wake-ups happen. Constructing a latch with zero, and counting down a latch that is already at zero, are rejected with an exception and change nothing. Counts of any size up to the full width of the parameter are kept exactly.",
  ["interleavings", "histories", "inputs"], "every interleaving, including spurious wake-ups, of any number of threads calling down, downWait, wait and isReady on a latch of any initial count",
  "A unit test runs a handful of schedules the operating system happens to choose; a lost wake-up or a release one event too early needs one particular preemption between the counter and the condition variable.",
  ["src/common/concurrent/Latch.h", "src/common/concurrent/Latch.cpp"],
  [("count under the mutex, condition variable broadcast at zero", "src/common/concurrent/Latch.cpp: down, downWait, wait"), ("rejection of over-counting", "src/common/concurrent/Latch.cpp: constructor, down, downWait")],
  [("counter_", "events still to come", "src/common/concurrent/Latch.h")],
  "TLA+ specification checked with TLC; histories of the real code under a controlled scheduler (bounded-preemption search plus random schedules) validated against it by TLC",
  "All schedules of each small program (up to 4 threads) within two preemptions/spurious wake-ups (three in the thorough tier) subject to a run cap, plus random and starvation schedules; a preemption is possible at every memory access of Latch.cpp. Sequentially consistent memory is assumed.")

P("C03", "A barrier releases its parties round by round, completion first",
  "A barrier for n parties lets nobody through until n parties have arrived in the current round; then the completion function runs exactly once, before anybody of that round is released, and all n are released. The barrier is then ready for the next round, and a party that arrives for the next round before others have left the previous one neither releases them early, nor is released by them, nor is lost. No wake-up is lost in any interleaving, over any number of rounds. Building a barrier for zero parties is rejected.",
  ["interleavings", "histories"], "every interleaving, including spurious wake-ups, of any number of parties over any number of rounds, with any completion function that returns",
  "Reuse races (a fast party re-entering while slow ones of the previous round are still waking) and generation-counter wrap-around need schedules and round counts that a test with real threads practically never produces.",
  ["src/common/concurrent/Barrier.h", "src/common/concurrent/Barrier.cpp"],
  [("generation counter under the mutex", "src/common/concurrent/Barrier.cpp: wait"), ("completion run by the last party inside the critical section", "src/common/concurrent/Barrier.cpp: wait")],
  [("counter_", "parties still to come in this round", "src/common/concurrent/Barrier.h"), ("generation_", "round number", "src/common/concurrent/Barrier.h"), ("completion_", "what to run at the end of a round", "src/common/concurrent/Barrier.h")],
  "TLA+ specification checked with TLC; histories of the real code under a controlled scheduler (bounded-preemption search plus random schedules) validated against it by TLC",
  "Programs of up to 4 threads and several rounds (and a few with hundreds of rounds for counter wrap-around), within two preemptions/spurious wake-ups (three in the thorough tier) subject to a run cap, plus random and starvation schedules. Completion functions that throw are outside the property. Sequentially consistent memory is assumed.")

P("C04", "Named threads keep, nest and restore their names; thread ids are the kernel's",
  "A thread started with a name runs under that name (cut to the 15 bytes the kernel keeps), one started without a name under its creator's; the function gets exactly the arguments given, and moving the thread object changes nothing about the thread. A nominator gives the calling thread (and no other) a name and restores the previous one when it goes, to any nesting depth; setting and getting names acts on the calling thread only. The thread id is the kernel's id of the calling thread, constant in a thread and distinct between live threads.",
  ["histories", "inputs"], "every history of starting, naming, nesting nominators, moving and joining over any number of threads and any names",
  "The unit tests name one or two threads once; nesting, names at the kernel's limit, the naming of one thread observed from the others, and ids across threads that come and go are not exercised.",
  ["src/common/thread/NamedThread.h", "src/common/thread/NamedThread.cpp"],
  [("name set before the function runs", "src/common/thread/NamedThread.h: hook"), ("previous name restored by the destructor", "src/common/thread/NamedThread.h: Nominator"), ("thread-local cache of the id", "src/common/thread/NamedThread.cpp: gettid")],
  [("prevName_", "name to restore", "src/common/thread/NamedThread.h"), ("tid_", "cached id", "src/common/thread/NamedThread.cpp")],
  "TLA+ specification as oracle for recorded random histories of real threads, validated by TLC",
  "Histories of up to eight live threads, after every operation all of them looked at from inside. A process that forks after asking for an id is outside the property.")

P("C05", "Temporary files and directories are fresh, private and cleaned up exactly",
  "A temporary file or directory is made under a name that did not exist, that differs from the template only in the six X's; a file is an empty regular file only its owner may read and write, a directory an empty one only its owner may enter. If it cannot be made, a file throws and a directory has no path, and nothing is left behind. When the object goes, exactly what is at its path is removed (a file by unlinking, never following links; a directory with everything in it, never anything outside it), and only if deletion was asked for; otherwise it is left as it is.",
  ["histories", "inputs"], "every history of making and dropping temporary objects interleaved with other changes of the tree (files replaced, renamed, linked, directories filled), for any template",
  "The unit test makes one file and checks that it is gone afterwards; deletion flags, objects whose path changed meanwhile, links inside temporary directories and failing templates are not covered.",
  ["src/common/fs/TempFile.h", "src/common/fs/TempFile.cpp", "src/common/fs/TempDir.h", "src/common/fs/TempDir.cpp"],
  [("mkstemp and unlink", "src/common/fs/TempFile.cpp"), ("mkdtemp and recursive removal", "src/common/fs/TempDir.cpp")],
  [("path_, autoDelete_", "what to remove", "src/common/fs/TempFile.h"), ("dirPath_, deleteOnDestroy_", "what to remove", "src/common/fs/TempDir.h")],
  "TLA+ specification of a file tree checked with TLC, as oracle for recorded random histories in a scratch directory (unprivileged user), validated by TLC",
  "Random histories over trees of up to four levels with files, directories, symbolic links and pipes; after each operation the whole tree is compared with the specification. Nothing else changes the tree during an operation.")

P("C06", "A cord reads back exactly what was appended to it, in order",
  "Whatever sequence of raw bytes, numbers, characters, booleans, strings and other cords (including itself) is appended to a cord, and whatever its block size, the cord's size, emptiness, string form, append-to-string form and block-by-block visits show exactly the concatenation of those bytes (numbers as their memory image) since it was created or last cleared. Appending one cord to another leaves the appended one unchanged, a visitor that refuses a block stops the visit at that block and makes it report false, clearing empties a cord and leaves it usable, and no byte outside the written blocks is ever read or written and no block leaks or is freed twice.",
  ["histories", "inputs"], "every sequence of writes of any lengths, appends, clears and visits over any number of cords, for every block size (heap and inline cords)",
  "The unit tests write a few fixed sequences at the default block size; the interesting cases are writes that end exactly on, one before or several blocks beyond a block boundary, empty appends, self-appends and reuse after clear, for every combination of sizes.",
  ["src/common/base/Cord.h", "src/common/base/Cord.cpp", "src/common/base/ICord.h"],
  [("linked blocks written in pieces", "src/common/base/Cord.cpp: write, allocateBlock"), ("inline first block then heap blocks", "src/common/base/ICord.h: write, allocateBlock"), ("visitor over blocks", "src/common/base/Cord.cpp, ICord.h: applyTo")],
  [("head_/tail_", "chain of blocks", "src/common/base/Cord.h"), ("len_", "bytes written", "src/common/base/Cord.h"), ("lengthMod_", "fill of the last block", "src/common/base/ICord.h")],
  "TLA+ specification checked with TLC; every transition of the bounded model replayed at block sizes from one byte up, and random histories with all writers validated against it, under ASan/UBSan and with counted blocks",
  "Every history of the model up to 4 bytes per cord (6 in the thorough tier) at seven block sizes where every write crosses a block boundary, plus random histories at sizes up to 1024. Cords are not copied; allocation succeeds.")

P("C08", "A stop-watch reports the time it ran, for any pauses, resets and tick rate",
  "At any moment a stop-watch reports (in seconds, milliseconds and microseconds) exactly the time that passed while it was running since it was made or last reset: starting paused, pausing twice, resuming twice, resetting in either state, copying and reading any number of times never lose, add or double-count time. Readings never go backwards while it only runs. This holds for every tick rate and tick-counter start value and over spans from microseconds to weeks, to within the unit of the reading and the precision of the tick calibration.",
  ["histories", "inputs"], "every sequence of pause, resume, reset, copy and read at any instants, any tick rate, any start value of the tick counter, any process age",
  "The unit test sleeps for real seconds on the one machine it runs on; long spans, tick counters beyond 2^32 or 2^63, other tick rates, and histories of pauses and resets are out of its reach.",
  ["src/common/time/Duration.h", "src/common/time/Duration.cpp", "src/common/time/detail/TscHelper.h", "src/common/time/detail/TscHelper.cpp"],
  [("accumulated ticks and running start", "src/common/time/Duration.cpp: reset, pause, resume, elapsed*"), ("calibration of the tick rate against the clock", "src/common/time/detail/TscHelper.cpp")],
  [("isPaused_, accumulated_, startTick_", "watch state", "src/common/time/Duration.h"), ("ticksPerUSFactor_, firstTick_, startTime", "tick calibration", "src/common/time/detail/TscHelper.cpp")],
  "TLA+ specification checked with TLC; histories of the real code run over virtual time (emulated tick counter and clock) validated against it by TLC",
  "Random histories of three watches over six tick rates/start values, with steps placed around every rounding edge and jumps of days; tolerance is the calibration error one clock microsecond allows. The tick counter is assumed to run at a constant rate.")

P("C09", "Calendar conversions agree with the Gregorian calendar for every date and time",
  "For every date-time of the representable years, conversion to seconds since the epoch and back is the identity and agrees with the proleptic Gregorian calendar (every fourth year leap, centuries only every fourth); so the day number of consecutive days differs by one across every month and year end, before and after 1970. Shifting a date, time or date-time by an offset moves it by exactly that many seconds (times wrap round midnight, results are always valid calendar values, microseconds are kept), differences between two date-times are the seconds between them, and comparison of dates, times and date-times is the order of the instants they denote.",
  ["inputs"], "every date of the years -32768 to 32767, every time of day, every offset",
  "The unit tests convert a dozen instants near the present; errors hide in single days of single years (29 February, century years, negative years, year ends combined with negative offsets).",
  ["src/common/time/TimeConversion.h", "src/common/time/TimeConversion.cpp", "src/common/datatypes/Date.h"],
  [("table-driven conversion by leap and common years", "src/common/time/TimeConversion.cpp: unixSecondsToDateTime, dateTimeToUnixSeconds"), ("shift by seconds", "src/common/time/TimeConversion.h: *Shift"), ("field-wise comparison", "src/common/datatypes/Date.h: operator<, operator==")],
  [("kDaysSoFar, kLeapDaysSoFar", "day-of-year tables", "src/common/time/TimeConversion.cpp")],
  "TLA+ specification (closed forms proved equal to a day-by-day calendar by TLC) as oracle for every day of every covered year and random date-times, shifts, differences and comparisons run on the real code",
  "Every day of some 4300 years (all 65536 in the thorough tier) plus thousands of random date-times, offsets up to +-30 years and pairs that differ in one field.")

P("C10", "Wall clocks tell the time to their unit; slow operations are reported",
  "The slow wall clock readings in seconds, milliseconds and microseconds are the system time cut to that unit, and the fast ones are within one unit (and the tick calibration) of it, whatever the tick rate, start value and age of the process; neither ever mixes units or drifts beyond that. A slow-operation tracker reports an operation as slow exactly when it took longer than the given threshold (or the configured default when none is given), reports the duration it took, and never reports a negative or huge duration when the tick counter fell back.",
  ["histories", "inputs"], "every sequence of readings at any instants, tick rates, start values and system times; trackers with any threshold and default",
  "The tests compare two readings taken at once on one machine with a wide margin; drift, calibration at other rates and old processes, and rounding edges are not visible to them.",
  ["src/common/time/WallClock.h", "src/common/time/WallClock.cpp", "src/common/time/detail/TscHelper.cpp", "src/common/base/SlowOpTracker.h", "src/common/base/SlowOpTracker.cpp"],
  [("tick to time conversion plus start time", "src/common/time/WallClock.cpp: fastNow*"), ("clock_gettime", "src/common/time/WallClock.cpp: slowNow*"), ("threshold test", "src/common/base/SlowOpTracker.h: slow")],
  [("startTime, firstTick_", "calibration", "src/common/time/detail/TscHelper.cpp"), ("startMs_, durationInMs_", "tracked operation", "src/common/base/SlowOpTracker.h")],
  "TLA+ specification checked with TLC; histories of the real code run over virtual time (emulated tick counter and clock) validated against it by TLC",
  "Random histories over six tick rates/start values and several system times. The wall clock is assumed not to be stepped and the tick counter to run at a constant rate.")

P("C11", "Graph responses compare equal exactly when all fields do and clear fully",
  "Two response records of the same kind (authentication, execution, plan description, plan node, profiling statistics, branch info, pair) are equal exactly if every field of theirs is equal, an absent optional or shared part being equal only to an absent one; setting one field of one record changes nothing else. Clearing a record, by whatever name, leaves it equal to a freshly made one. Every error code has exactly one number and one name, the ones of the interface definition.",
  ["histories", "inputs"], "every pair of records over all combinations of field values, present and absent parts, and every sequence of field settings and clears",
  "Equality over fourteen optional, shared and nested fields fails on single combinations (one side absent, deep difference behind equal pointers, a forgotten field); the tests compare a few hand-made records at most.",
  ["src/common/graph/Response.h", "src/common/graph/Response.cpp", "src/common/interface/common.thrift"],
  [("field-wise comparison through smart pointers", "src/common/graph/Response.h: operator==, checkPointer"), ("field-wise clear", "src/common/graph/Response.h: clear, __clear")],
  [("fields of the records", "contents", "src/common/graph/Response.h"), ("ErrorCode", "number of each code", "src/common/graph/Response.h: ErrorCodeEnums")],
  "TLA+ specification checked with TLC; every transition of the bounded model replayed into the real records; recorded error codes validated against the interface definition",
  "Three values per field (fresh, two others, with absent, shared and nested parts), every pair of records reachable by a bounded number of field settings plus random walks.")

P("C13", "A status keeps its code and whole message; a status-or holds a status or a value",
  "A status is either OK or carries exactly one error code and the whole message it was made with, of any length and any bytes (formatted messages as printf would format them): the code, the is-queries, the text (the code's name and the message), the stream form and equality (equality of codes) show just that. Copying gives an equal status and leaves the source alone, moving leaves the source OK, self-assignment changes nothing, and the early-return macros return just the statuses that are not OK. A status-or is empty, or holds one non-OK status, or one value: its queries and accessors report just that, copies and moves (also from convertible types and out of the container) transfer it exactly, and every value put in is destroyed exactly once.",
  ["histories", "inputs"], "every sequence of constructions (with any code, way of building and message), copies, moves and accesses over any number of statuses and status-ors",
  "The unit tests use short literal messages and straight-line copies; messages at the edges of internal buffers and size fields, embedded NULs, and long histories of moves between statuses and status-ors of different value types are not sampled.",
  ["src/common/base/Status.h", "src/common/base/Status.cpp", "src/common/base/StatusOr.h"],
  [("code, length and message in one heap block", "src/common/base/Status.h: Status(Code, StringPiece), copyState"), ("formatting", "src/common/base/Status.h: format"), ("tagged union with explicit destruction", "src/common/base/StatusOr.h: destruct, reset, operator=")],
  [("state_", "header and message", "src/common/base/Status.h"), ("state_, variant_", "which alternative is alive and its storage", "src/common/base/StatusOr.h")],
  "TLA+ specification checked with TLC; random histories of statuses validated against it, every transition of the status-or model replayed into the real templates under ASan/UBSan",
  "Messages from none to 128 kB through every way of building; each transition of two status-ors of one type and one of a convertible type over three value types with object-lifetime instrumentation. Assumes the values' own operations do not throw.")

P("C14", "The LRU cache keeps the most recently used entries and counts exactly",
  "The cache maps keys to the values last put under them. Each bucket holds at most its room (the capacity is divided evenly, the last bucket takes the rest), and only when a new key meets a full bucket does an entry go: the least recently used one (inserting, overwriting, getting and a put-if-absent that finds the key count as use; asking whether it contains a key does not). Put-if-absent stores and says so only if the key is absent, and otherwise returns the stored value. A key is looked up in the bucket its hint, or else its hash, selects. The counters of lookups, hits and evictions count exactly those since the last clear. All this holds as if operations of different threads happened one after the other.",
  ["histories", "inputs", "interleavings"], "every sequence, and every interleaving between threads, of operations on caches of any capacity and number of buckets, with any hints",
  "The unit tests check a few fixed sequences and one stress run without an oracle; recency order, eviction choice, counters and hints interact over long histories, and a missing lock shows only under particular preemptions.",
  ["src/common/base/ConcurrentLRUCache.h"],
  [("list of recency and map with iterators into it", "src/common/base/ConcurrentLRUCache.h: LRU"), ("bucket by hint or hash, a lock per bucket", "src/common/base/ConcurrentLRUCache.h: bucketIndex, Bucket")],
  [("list_, map_", "order of use and entries", "src/common/base/ConcurrentLRUCache.h: LRU"), ("total_, hits_, evicts_", "counters", "src/common/base/ConcurrentLRUCache.h: LRU")],
  "TLA+ specification checked with TLC; every transition replayed into the real cache for several types; histories under a controlled scheduler validated against it (linearizability) by TLC",
  "All states of a bucket of three over four keys and two values, and of two buckets of two and three over four keys with hints; controlled schedules of 2-3 threads within two preemptions, plus random ones; long random histories of larger caches.")

P("C15", "An object pool destroys each of its objects exactly once, at clear or at its end",
  "An object added to a pool (or made in it) is returned unchanged, stays alive and at its address until the pool is cleared or goes away, and is then destroyed exactly once, as an object of the type it was added with. A clear destroys everything that was in the pool at one moment and nothing else; objects whose construction throws are not kept. The pool says it is empty exactly if nothing is in it. All this holds for any interleaving of adds, clears and queries of different threads, none of which is lost.",
  ["histories", "interleavings"], "every sequence and every interleaving of adds, makes, clears and queries by any number of threads, with objects of any types",
  "The unit tests add a few objects in one thread; losing an object or destroying it twice under concurrent adds and clears needs particular preemptions, and deleting through the wrong type is silent for simple types.",
  ["src/common/base/ObjectPool.h"],
  [("list of type-erased owners under a spin lock", "src/common/base/ObjectPool.h: add, clear, OwnershipHolder")],
  [("objects_", "what the pool owns", "src/common/base/ObjectPool.h")],
  "TLA+ specification checked with TLC; histories of the real pool under a controlled scheduler validated against it by TLC",
  "Programs of up to 3 threads within two preemptions subject to a run cap (three in the thorough tier) plus random schedules, objects of four kinds that report their own destruction. Destructors do not use the pool.")

P("C16", "Date arithmetic, text and hash agree with the calendar of days",
  "Dates are numbered by days: converting a date to its day number and back is the identity, consecutive days have consecutive numbers across every month and year end, and adding or subtracting n days moves a date by exactly n days and undoes itself. The text of dates, times and date-times shows exactly their fields (zero padded, except the microseconds of a date-time), and equal values hash equally.",
  ["inputs"], "every date of the years -32768 to 32767 and every shift that stays within them",
  "The unit tests add a few days to a few dates; errors hide in single days of single years and in shifts that cross a leap day backwards.",
  ["src/common/datatypes/Date.h", "src/common/datatypes/Date.cpp"],
  [("day number tables", "src/common/datatypes/Date.cpp: toInt, fromInt"), ("shift through day numbers", "src/common/datatypes/Date.cpp: operator+, operator-"), ("text", "src/common/datatypes/Date.cpp: toString"), ("hash", "src/common/datatypes/Date.h: std::hash")],
  [("kDaysSoFar, kLeapDaysSoFar", "day-of-year tables", "src/common/datatypes/Date.cpp")],
  "TLA+ specification as oracle for every day of every covered year and random shifts, texts and hashes run on the real code",
  "Every day of some 3700 years (all years in the thorough tier) plus thousands of random dates and shifts. The leap rule is the one DateTest fixes (every fourth year), recorded as a known finding where it differs from the calendar.")

P("C28", "File utilities see and change exactly the part of the tree they are asked to",
  "Removing a path removes exactly it (a symbolic link itself, never what it leads to; a directory with all its content when asked to recurse, and otherwise only if it has no sub-directory), reports success exactly if it is gone afterwards, treats an absent path as success, and never touches anything else, even when it fails half-way; other kinds of files are refused. Making a directory makes it and its missing parents with the given mode and succeeds exactly if the path then leads to a directory. Types, sizes, times, existence, links, canonical paths, free space, the listing of entries by kind and shell pattern and the iteration over lines or visible entries (with a regular expression) tell what the tree holds, whatever the file system says about entry types. Splitting and joining of paths follow the documented rules for every path.",
  ["histories", "inputs"], "every history of operations on every tree of directories, files, links (also dangling and circular) and pipes, with any names and spellings of paths",
  "The unit tests use a few trees without links that dangle, loop or lead to pipes, without failing removals and without odd names; entry types are always known on the file system they run on.",
  ["src/common/fs/FileUtils.h", "src/common/fs/FileUtils.cpp"],
  [("recursive removal by lstat type", "src/common/fs/FileUtils.cpp: remove, removeDir"), ("creation of parents", "src/common/fs/FileUtils.cpp: makeDir, dividePath"), ("listing by entry type", "src/common/fs/FileUtils.h: CHECK_TYPE; FileUtils.cpp: listAllTypedEntitiesInDir"), ("iteration", "src/common/fs/FileUtils.cpp: Iterator")],
  [("the file tree", "what is changed and observed", "the file system")],
  "TLA+ specification of a file tree checked with TLC, as oracle for recorded random histories in a scratch directory (unprivileged user), validated by TLC",
  "Random histories over trees of up to four levels; after each operation the whole tree is compared with the specification; entry types both as the file system reports them and unreported. Paths have no doubled slashes (except when joined); nothing else changes the tree during an operation.")

P("C17", "Value operators and conversions give the mathematical result or the right null",
  "For any two values every operator (+ - * / % & | ^ && ||, unary minus and not) gives the result the language defines: a missing operand (a null on the left first, then an empty value unless the other is null) decides the result; integers give the exact result, or the overflow null exactly when it does not fit 64 bits; divisions and remainders by zero give the division null; floats give the correctly rounded result; bit operations work on the two's complement; a text with anything printable is joined to exactly both texts, whatever bytes they contain; dates shift by days and differ in days; lists join and take elements at either end; everything else is the bad-type null. Conversions to bool, float and int of any value give the value the operand denotes, the null for texts that denote none, and never a trap or undefined behaviour. Operands are unchanged.",
  ["inputs"], "every pair of values of all types, including the limits of the integers, mixed integer and float operands, nulls of every kind, and strings of any bytes",
  "The unit tests sample a dozen operand pairs; errors sit at single values (the smallest integer by -1, a text cut at an embedded zero, a float just beyond the integers) or single pairs of types out of 256.",
  ["src/common/datatypes/Value.h", "src/common/datatypes/Value.cpp", "src/common/datatypes/Date.cpp"],
  [("operators by pairs of types", "src/common/datatypes/Value.cpp: operator+ ... operator||"), ("overflow tests", "src/common/datatypes/Value.cpp: operator+, -, *, /, %, unary -"), ("conversions", "src/common/datatypes/Value.cpp: toBool, toFloat, toInt")],
  [("type_, value_", "the operand", "src/common/datatypes/Value.h")],
  "TLA+ specification (exact integer and rational arithmetic) as oracle for results of the real operators, validated by TLC",
  "All pairs of some 45 representatives of the 17 types with each operator (half of them in the quick tier), all pairs of nine integers at the edges, and hundreds of random number pairs and texts. Float results are compared to 2^-50 relative to the operands; infinities and NaN are outside.")

P("C18", "Comparison of values is one consistent order that agrees with equality and hash",
  "Comparing any two values gives the result the language defines: equality ignores the difference between integers and floats that are the same number, sees an edge and its reverse as one, and looks into lists, maps, sets, vertices, paths and data sets; the three-valued comparison gives a null exactly when an operand is missing or the types cannot be compared. Less-than is a strict weak order over all values (irreflexive, transitive, and incomparability is transitive), empty first and nulls last, numbers by their value, texts bytewise, times and dates chronologically, lists and paths element by element, vertices by id, edges by ends, type and ranking; equality is symmetric and transitive. Equal values that can be hashed hash equally, so hash containers find them.",
  ["inputs"], "every pair (and for the laws every triple) of values of all types, nested to any depth",
  "The unit tests compare a few pairs of each simple type; an order that forgets one field (steps of a path by ranking, properties of edges) or is not transitive shows only for particular pairs and triples.",
  ["src/common/datatypes/Value.h", "src/common/datatypes/Value.cpp", "src/common/datatypes/Edge.cpp", "src/common/datatypes/Path.h", "src/common/datatypes/Vertex.cpp", "src/common/datatypes/List.h"],
  [("comparison by type", "src/common/datatypes/Value.cpp: operator<, operator==, lessThan, equal"), ("order of steps, paths, edges, vertices", "src/common/datatypes/Path.h, Edge.cpp, Vertex.cpp"), ("hash by type", "src/common/datatypes/Value.cpp: std::hash<Value>; the other types' std::hash")],
  [("type_, value_", "what is compared", "src/common/datatypes/Value.h")],
  "TLA+ specification whose order laws TLC checks for all triples of a universe, as oracle for the real comparisons and hashes of all its pairs",
  "A universe of some 150 values (random details by seed), laws over all triples by TLC, all pairs through operator< and ==, the three-valued comparisons and the hashes. Known finding: numbers that compare equal across types hash differently. Hashes of maps, sets and data sets are declared not implemented.")

P("C07", "A value holds exactly one content; assignment, setters and moves keep it intact",
  "A value is empty or holds one content of one of the fifteen types; its type, type name, predicates and accessors all tell just that, and an accessor of another type refuses to answer. Whichever way a content is put into it (construction, assignment or setter, by copy, move or ownership), exactly that content is in it afterwards and the previous one is destroyed once; copying leaves the source alone, moving (by construction, assignment or the move accessors) empties it, exchanging exchanges. All this also holds when the source is the value itself or a part of what it holds.",
  ["histories", "inputs"], "every history of constructions, assignments, setters, moves, exchanges, in-place changes and clears over any values of all types",
  "The unit tests make a value of each type once; the second content put over a first of another type, moves out of parts, and self-assignment through the content need histories over pairs of the sixteen states and a sanitizer.",
  ["src/common/datatypes/Value.h", "src/common/datatypes/Value.cpp"],
  [("tagged union with placement new and explicit destruction", "src/common/datatypes/Value.cpp: constructors, operator=, set*, clear"), ("move accessors empty the value", "src/common/datatypes/Value.cpp: move*"), ("checked accessors", "src/common/datatypes/Value.cpp: get*, mutable*"), ("type names", "src/common/datatypes/Value.cpp: typeName")],
  [("type_", "which content is alive", "src/common/datatypes/Value.h"), ("value_", "its storage", "src/common/datatypes/Value.h")],
  "TLA+ specification checked with TLC; every transition and random walks replayed into the real class under ASan/UBSan",
  "One value with all contents and all 24 ways of filling it, two values over all pairs of contents (a sample of six kinds at a time in the quick tier), each kind in two variants (nulls in eight). Compounds have one element of each sort.")

P("C35", "Paths, edges, collections and data sets combine, answer and print as defined",
  "Reversing a path gives the same vertices backwards with every edge turned round and otherwise unchanged; a path is appended exactly if it starts where the other ends, and refused without a trace otherwise; repeated vertices and repeated edges (an edge walked against its direction being the same edge) are found exactly. Reversing an edge swaps its ends and the sign of its type; bringing it into form does so only if needed. Looking up a property, key or element answers what is there, the defined null or no. Rows are added to a data set exactly if they have its width; stacking needs the same header, joining the same number of rows and puts columns and their values behind the existing ones in the same order; reading by row, column, key or iteration gives what was put in. Host addresses are ordered by host and port. The text of every value shows exactly its content in the documented form, and new and cleared objects are empty in every field.",
  ["inputs"], "every path, edge, vertex, collection and data set (and pair of them) with any contents and sizes, including empty ones",
  "The unit tests append and reverse three paths and build two data sets; empty operands, refused operations, repeated edges walked both ways, joins of unlike widths and uninitialized fields are not covered.",
  ["src/common/datatypes/Path.h", "src/common/datatypes/Path.cpp", "src/common/datatypes/Edge.cpp", "src/common/datatypes/Vertex.cpp", "src/common/datatypes/DataSet.h", "src/common/datatypes/List.h", "src/common/datatypes/Map.h", "src/common/datatypes/Set.h", "src/common/datatypes/HostAddr.cpp"],
  [("path operations", "src/common/datatypes/Path.cpp: reverse, append, hasDuplicateVertices, hasDuplicateEdges"), ("edge operations", "src/common/datatypes/Edge.cpp: reverse; Edge.h: format"), ("lookups", "src/common/datatypes/{Edge,Vertex}.cpp, Map.h, List.h, Set.h: contains, value, at"), ("data set operations", "src/common/datatypes/DataSet.h: emplace_back, append, merge, colValues"), ("texts", "src/common/datatypes: toString of each type")],
  [("src, steps", "a path", "src/common/datatypes/Path.h"), ("colNames, rows", "a data set", "src/common/datatypes/DataSet.h")],
  "TLA+ specification as oracle for results of the real operations on generated operands, validated by TLC",
  "Some 4000 operations a run (16000 in the thorough tier) on generated paths of up to six steps, collections of up to four elements and data sets of up to three columns and rows; texts of maps and sets may list their entries in any order. Texts of floats are not covered.")

P("C40", "What peers send is what the interface defines and is read back whole",
  "Every value, host address, key-value pair and graph response is written as exactly the tree of fields (numbers, names and types) the interface definition gives, with every protocol, optional fields only if they are set, and the announced number of bytes is never less than what is written. Reading it back gives the same object (of the type of edges and steps only the direction travels). Whatever an older or newer peer sends - fields in another order, missing, unknown, appended behind the last or of another type - the reader takes what it knows, leaves the rest at its initial value, and fails exactly if a required field is missing or a union holds more than one.",
  ["inputs"], "every value nested to any depth, every response, every field order, every subset of fields and every unknown field of any type at any place",
  "The unit tests write and read a few values with one protocol; a wrong number or name, a reader that stumbles over the next field of a newer peer or a size that forgets a field shows only for particular fields, orders and protocols.",
  ["src/common/datatypes/ValueOps.inl", "src/common/datatypes/DateOps.inl", "src/common/datatypes/EdgeOps.inl", "src/common/datatypes/PathOps.inl", "src/common/datatypes/DataSetOps.inl", "src/common/graph/ExecutionResponseOps.inl", "src/common/graph/AuthResponseOps.inl", "src/common/graph/PlanDescriptionOps.inl", "src/common/interface/common.thrift", "src/common/interface/graph.thrift"],
  [("writers", "src/common/datatypes/*Ops.inl, src/common/graph/*Ops.inl: Cpp2Ops::write"), ("readers", "the same files: Cpp2Ops::read, translateFieldName"), ("sizes", "the same files: Cpp2Ops::serializedSize")],
  [("field numbers, names, types", "the schema", "src/common/interface/common.thrift, graph.thrift")],
  "TLA+ specification of the schema, writing and reading, as oracle for the trees the real code writes and for what it reads from generated trees, validated by TLC",
  "Some 450 objects (thousands in the thorough tier) written and read with a binary, a compact and a by-name protocol, and some 1200 mutated trees, among them one more field of every type behind every struct. The protocols are stand-ins written for the check (the thrift library is not installed); fields sent twice and reading into used objects are outside.")

P("C19", "Evaluating an expression gives the value the language defines",
  "Evaluating an expression over a row, vertex, edge and variables gives exactly what the query language defines for its operator, operands and nesting: three-valued logic with nulls and empties, comparison and membership, text tests, arithmetic with overflow, subscripts, ranges and attributes of every kind of value, casts, case, list comprehension, quantifiers, reduce, path building, versions of variables. Operands not needed are not evaluated, side effects on variables happen once, in order, and nowhere else. Evaluating again, evaluating a copy or evaluating what was decoded from its encoding gives the same; no expression and no input makes evaluation crash, hang or behave undefined.",
  ["inputs"], "every expression of every kind nested to any depth, over every context, evaluated any number of times",
  "The unit tests evaluate some hundred hand-made expressions; stale results of an earlier evaluation, nulls and empties meeting in one operator, extreme indices and unusual operand types need systematic generation against a definition of the language.",
  ["src/common/expression/*.cpp", "src/common/expression/*.h", "src/common/context/ExpressionContext.h"],
  [("evaluation", "src/common/expression/*.cpp: eval"), ("logic", "src/common/expression/LogicalExpression.cpp"), ("loops over lists", "src/common/expression/{Predicate,ListComprehension,Reduce}Expression.cpp"), ("access to properties", "src/common/expression/PropertyExpression.cpp, AttributeExpression.cpp, SubscriptExpression.cpp")],
  [("result_", "the last result of a node", "src/common/expression/*.h")],
  "TLA+ specification of the language as an evaluator that TLC runs as oracle on every generated expression, context and history of evaluations",
  "Some 3500 expressions (9000 in the thorough tier), four evaluations each over several contexts: of the original, a copy, and what was decoded from its encoding. Left open (1.4 % of evaluations): regular expressions beyond simple ones, texts of floats, joins of paths at the first step. Functions and aggregates are C37's and C20's.")

P("C36", "Expressions survive encoding and copying; text and equality are exact",
  "Every expression that is encoded and decoded again, or copied, is the same expression: equal to the original, with the same kind, text and encoding. Encoding follows the documented format, decoding of anything not an expression is refused. Two expressions are equal exactly if they have the same shape, names, options and equal constants, and equality is symmetric. The text of an expression is the query text it stands for, with every part in its place. The table of which type converts to which is as documented.",
  ["inputs"], "every expression of every kind with any names, options and parts, and every pair of expressions",
  "The unit tests encode one or two expressions of most kinds; a field forgotten in one of encode, decode, clone, == or toString of one of some sixty kinds shows only for expressions that differ in just this field.",
  ["src/common/expression/*.cpp", "src/common/expression/*.h", "src/common/expression/Expression.cpp"],
  [("encoding", "src/common/expression/Expression.cpp: Encoder, Decoder; each kind's writeTo, resetFrom"), ("copies", "each kind's clone"), ("equality", "each kind's operator=="), ("texts", "each kind's toString")],
  [("kind_ and each kind's fields", "the expression", "src/common/expression/*.h")],
  "TLA+ specification of text, encoding and equality as oracle on generated expressions and pairs, validated by TLC",
  "Some 1500 expressions (6000 in the thorough tier) of all kinds, each with variants differing in one respect, plus families that vary each field of each kind; all pairs in a family. Texts of floats are left open. Malformed encodings are outside (they end the process by CHECK).")

P("C37", "Functions of the query language answer as defined for every argument",
  "Every function of the query language, called under any spelling of its name with any number and type of arguments, either is refused when it is looked up (unknown name, wrong number of arguments) or answers exactly what the language defines: the defined number, text, list, part of a graph, date or time (in the configured time zone), a null for a null and a bad type for what it does not take. Whatever the arguments (empty texts and lists, extreme integers, embedded zero bytes) it neither crashes nor hangs nor changes its arguments, and the type announced for arguments is the type of the result. A function called pure gives the same for the same; random numbers lie within the bounds asked for, whatever chance gives.",
  ["inputs"], "every function with every number, type and value of arguments, every time zone and every random draw",
  "The unit tests call each function with two or three ordinary arguments; extreme lengths and indices, empty texts and lists, overflowing results, unusual types and the ends of the random ranges are not sampled.",
  ["src/common/function/FunctionManager.cpp", "src/common/function/FunctionManager.h", "src/common/time/TimeUtils.h", "src/common/time/TimeUtils.cpp"],
  [("table of functions", "src/common/function/FunctionManager.cpp: FunctionManager()"), ("lookup by name and arity", "src/common/function/FunctionManager.cpp: getInternal, find"), ("announced types", "src/common/function/FunctionManager.cpp: typeSignature_, getReturnType"), ("purity", "src/common/function/FunctionManager.cpp: getIsPure")],
  [("functions_", "what is defined", "src/common/function/FunctionManager.h")],
  "TLA+ specification of all functions over values (exact integers, rational enclosures of real functions) as oracle for recorded calls, validated by TLC",
  "Some 5600 calls (25000 in the thorough tier) of all 80-odd functions in three time zones. Real functions are decided within an enclosure of 1e-9 relative for moderate arguments. Left open: hexadecimal float texts, powers whose result has more than some 1200 digits, hashes of lists that hold maps or sets, the 60th second, date texts that end early (refused, or a valid date). Paddings beyond 1000 characters and ranges beyond 60 elements are not asked for.")

P("C20", "Aggregates over any stream of values give the defined result",
  "Every aggregate function (COUNT, SUM, AVG, MAX, MIN, STD, the bitwise ones, COLLECT, COLLECT_SET and none), plain or over distinct values, gives after every value of the stream exactly the aggregate of the values so far: nulls and empties leave the result alone, a value of a wrong type makes it a bad type for good, a null that is an error stays, and an empty stream gives the defined initial value. Names are taken in any case; unknown names are refused.",
  ["histories", "inputs"], "every stream of values of all types, of any length and order, for each aggregate with and without DISTINCT",
  "The unit tests feed one or two short streams of numbers into each aggregate; nulls in the middle, a first value of a wrong type, repeated values and the running result after every step are not sampled.",
  ["src/common/function/AggFunctionManager.cpp", "src/common/function/AggFunctionManager.h", "src/common/expression/AggregateExpression.cpp"],
  [("the functions", "src/common/function/AggFunctionManager.cpp: AggFunctionManager()"), ("running state", "src/common/function/AggFunctionManager.h: AggData"), ("DISTINCT", "src/common/function/AggFunctionManager.h, src/common/expression/AggregateExpression.cpp: apply")],
  [("cnt_, sum_, avg_, deviation_, result_, uniques_", "the aggregate so far", "src/common/function/AggFunctionManager.h")],
  "TLA+ specification of the running aggregates as oracle for every step of generated streams, validated by TLC",
  "Some 1800 streams (7200 in the thorough tier) of up to twelve values. Averages and deviations within 1e-9 relative.")

P("C21", "Worker threads and pools run every task once, in order, and drain on stop",
  "The tasks of a GenericWorker never overlap, run on its one thread, each once and in the order they were added, with exactly the arguments given; what a task returns or throws arrives in its future. Every task added before stop() has run when wait() returns or the object is destroyed, under every schedule, and a worker never sleeps while a task waits for it. A delayed task runs once and not before its delay; a repeated task runs for the k-th time not before k periods; a worker with nothing else to do is not late. After a purged timer\'s worker took note, it never fires again, wherever the purge falls. start, stop and wait succeed exactly once. A pool gives tasks to its workers in turn; its timer ids are unique and purge what they name. Destroying a worker with timers left is safe and breaks their promises.",
  ["schedules", "histories", "timings"], "every interleaving of adders, purgers, the stopping thread and the workers, every virtual timing",
  "The unit tests sleep for real and add from one thread at a time; the hand-over between pushing a task and ringing the loop, a purge that falls between two lists being taken, and a stop among adds depend on the schedule.",
  ["src/common/thread/GenericWorker.h", "src/common/thread/GenericWorker.cpp", "src/common/thread/GenericThreadPool.h", "src/common/thread/GenericThreadPool.cpp"],
  [("hand-over", "src/common/thread/GenericWorker.cpp: notify, onNotify"), ("adding", "src/common/thread/GenericWorker.h: addTask, addDelayTask, addRepeatTask, addTimerTask"), ("life cycle", "src/common/thread/GenericWorker.cpp: start, stop, wait, ~GenericWorker"), ("pool", "src/common/thread/GenericThreadPool.{h,cpp}")],
  [("pendingTasks_, pendingTimers_, purgingingTimers_", "what was handed over", "src/common/thread/GenericWorker.h"), ("activeTimers_", "timers of the loop", "src/common/thread/GenericWorker.h"), ("stopped_", "stop flag", "src/common/thread/GenericWorker.h"), ("nextThread_", "whose turn it is", "src/common/thread/GenericThreadPool.h")],
  "TLA+ specification model-checked (hand-over protocol) and, as contract, validating every distinct history of the real code under a controlled scheduler with virtual time",
  "50 programs (220 thorough) of up to 4 calling threads, 3 workers and some 8 tasks: depth-first schedules with 2 deviations plus random ones. libevent is a stand-in with virtual time, folly futures likewise. What is added after stop() is open. Two concurrent stops, restarting a worker object, periods of 0 and repeated tasks that throw are excluded, as is addTimerTask with a delay other than its period.")
P("C34", "Dates and times are read, taken apart and moved between time zones as defined",
  "A date, time or date and time is read from a text or a map exactly if it denotes one of the calendar (missing fields of a map being the first or zero), with exactly the fields given; anything else is refused. The named part of a date or time is answered whatever the case of its name, and unknown parts give the defined null. What is moved to UTC or to local time is moved by exactly the offset of the configured time zone, across the ends of days, months and years; local now is UTC now moved by the offset. A timestamp is taken exactly from integers in range and texts denoting one. A time zone is read from its text or from a region of the table with exactly its name and offset; a text that is refused leaves the zone as it was, and an unknown region, an unreadable table or no zone at all is an error.",
  ["inputs", "histories"], "every text, map and part name, every date and time, every time zone and order of configurations",
  "The unit tests read some ten texts and maps and shift by one or two zones; texts that end early, fields at and beyond their bounds, offsets crossing a leap day or a year and refused configurations after good ones are not sampled.",
  ["src/common/time/TimeUtils.h", "src/common/time/TimeUtils.cpp", "src/common/time/TimezoneInfo.h", "src/common/time/TimezoneInfo.cpp"],
  [("texts", "src/common/time/TimeUtils.h: parseDate, parseTime, parseDateTime"), ("maps", "src/common/time/TimeUtils.cpp: dateFromMap, timeFromMap, dateTimeFromMap"), ("moves", "src/common/time/TimeUtils.h: dateTimeToUTC, utcToDateTime, timeToUTC, utcToTime, local*"), ("zones", "src/common/time/TimezoneInfo.{h,cpp}")],
  [("globalTimezone", "the zone in force", "src/common/time/TimezoneInfo.h"), ("tzdb", "the regions read", "src/common/time/TimezoneInfo.h")],
  "TLA+ specification with the zones as state and the calendar as functions, as oracle for recorded calls, validated by TLC",
  "Some 4100 calls (16400 in the thorough tier) in traces of 40 under changing zones. The 60th second and texts with more or less than the full form are left open (refused, or something valid). Zones: the rules of summer time are not used by the code and not checked. Now is bracketed by the system clock with a tolerance of 3 s.")

P("C22", "Storage requests reach the leader of each item's part and their results add up",
  "A request of a storage client for many items is split so that every item is in exactly one call, under the part it belongs to, sent to the host the client believes to lead that part, items of a part in their given order; integer ids travel as their 8 bytes; the other arguments go unchanged into every call. The part of a key depends on the key's bytes and the number of parts alone (8 bytes as a number, else a 64-bit MurmurHash2), the same in every client and release. The leader is the one metad's hosts named at the last load or a storage host named since; unknown after a failure, a missing part or space, or a 'not the leader' that names nobody, the part's hosts are tried in turn. The future completes exactly once, after the last answer: with all answers, the failed parts and their codes, and the share of calls that succeeded; a single-part request with its answer or the cause of the RPC failure. A connection serves one service, host and event base, is used again while it is good and never after it broke. Forwarded transactions and value requests of storage hosts go to the leader's internal port and are repeated, after a pause, while told of another leader.",
  ["inputs", "histories", "faults"], "every request with every argument, every placement of parts and leaders, every order of answers, failures, loads and broken connections",
  "The unit tests only construct storage clients against live servers in other repositories; what is sent where after which answer, and how several answers add up, depends on histories they do not play.",
  ["src/common/clients/storage/StorageClientBase.h", "src/common/clients/storage/StorageClientBase.inl", "src/common/clients/storage/GraphStorageClient.cpp", "src/common/clients/storage/GeneralStorageClient.cpp", "src/common/clients/storage/InternalStorageClient.cpp", "src/common/clients/meta/MetaClient.cpp", "src/common/thrift/ThriftClientManager.inl", "src/common/base/MurmurHash2.h"],
  [("split", "src/common/clients/storage/StorageClientBase.inl: clusterIdsToHosts"), ("collect", "src/common/clients/storage/StorageClientBase.inl: collectResponse"), ("leaders", "src/common/clients/meta/MetaClient.cpp: getStorageLeaderFromCache"), ("placement", "src/common/clients/meta/MetaClient.cpp: partId"), ("connections", "src/common/thrift/ThriftClientManager.inl: client")],
  [("leadersInfo_", "the believed leaders and the host tried last", "src/common/clients/meta/MetaClient.h"), ("ongoingRequests_", "calls not yet answered", "src/common/clients/storage/StorageClientBase.inl")],
  "TLA+ specification of placement, leaders, calls and connections, model-checked on a small cluster, and validating recorded histories of the real clients against a played cluster",
  "Some 600 requests (3000 in the thorough tier) of all 19 kinds in clusters of up to four hosts and spaces of 1 to 40 parts, up to several at once, answers also while a request is still being sent; two operations in a model of two parts and two hosts. The RPC library, futures and event bases are stand-ins. The key's bytes after a zero byte do not count for its part (as in the code). A request reads leaders part by part, not at one instant: loads happen between requests, not during one.")
P("C23", "The meta client takes over metad's state at once and tells its listener",
  "A load asks metad for everything and takes it over at one instant, when its last call is answered; until then and after a failed load every query answers from the load before (accounts with their roles, full-text clients and full-text indexes are taken over as soon as their own calls are answered). Every query, directly or through the schema and index managers, answers as the taken-over state has it: spaces, parts, peers, terms, tags, edges with their versions, indexes, listeners, accounts, hosts, leaders; what metad does not know is not found, with the code for it, and before the first load nothing is. Schemas handed out stay as they are for as long as they are held. The listener of a host is told exactly the difference between two loads for that host: spaces and parts added (a space before its parts), parts whose peers changed, parts and spaces removed (parts before their space), the same for listeners (those removed first), and then of each part's remote listeners. The client is ready after a heartbeat and a load; waiting tries as often as asked. Heartbeats name the host, its role, its cluster (kept in a file once told) and the parts it leads; they reload when metad's state is newer than the one taken over, and come again after the configured interval.",
  ["inputs", "histories", "faults"], "every state of metad and every sequence of its changes, every call of every load answered or failed at any moment, every query at any moment",
  "The unit tests of the repository have no metad; which of a dozen maps is stale after a failed or interrupted load, and what a listener is told in which order for which difference, depends on histories no sample holds.",
  ["src/common/clients/meta/MetaClient.cpp", "src/common/clients/meta/MetaClient.h", "src/common/clients/meta/FileBasedClusterIdMan.cpp", "src/common/meta/ServerBasedSchemaManager.cpp", "src/common/meta/ServerBasedIndexManager.cpp"],
  [("load", "src/common/clients/meta/MetaClient.cpp: loadData"), ("listener", "src/common/clients/meta/MetaClient.cpp: diff, listenerDiff, loadRemoteListeners"), ("heartbeat", "src/common/clients/meta/MetaClient.cpp: heartBeatThreadFunc, heartbeat"), ("ready", "src/common/clients/meta/MetaClient.cpp: isMetadReady, waitForMetadReady")],
  [("localCache_", "what was taken over, by space", "src/common/clients/meta/MetaClient.h"), ("localLastUpdateTime_", "the age of what was taken over", "src/common/clients/meta/MetaClient.h")],
  "TLA+ specification of loads, queries, heartbeats and the listener, model-checked, and validating recorded histories of the real client against a played metad",
  "60 worlds (400 in the thorough tier) of up to four spaces, some 25 000 events; the model has one space and two hosts. RPC, futures, threads and time are stand-ins; queries run between the steps of a load, not within the take-over itself (its locks are not explored). Metad lists the versions of an element one after another, new to old, and no leader twice. Settings (loadCfg) are outside.")
P("C25", "A schema lays out its fields as defined, for every version",
  "The schema of a tag or an edge at a version (given, or the newest) has the fields of that version in their order with their names, types, nullability and default values; field sizes follow the types (the declared length for fixed strings), offsets add up the sizes before, nullable fields have consecutive flag positions, the schema's size and number of nullable fields are their sums. Fields are found by index and by name alike, and what is no field is not found. A time-to-live exists exactly if a column is named and the duration is positive. The newest version, all versions and the newest of all elements agree with each other; a version beyond the newest is not found.",
  ["inputs", "histories"], "every list of columns of every type, nullability, length and default value, in every version, loaded in any order with changes between",
  "One unit test builds a few schemas by hand. Offsets and flag positions depend on every combination of types and nullabilities before a field.",
  ["src/common/meta/NebulaSchemaProvider.cpp", "src/common/meta/NebulaSchemaProvider.h", "src/common/meta/SchemaProviderIf.h", "src/common/clients/meta/MetaClient.cpp", "src/common/meta/ServerBasedSchemaManager.cpp"],
  [("layout", "src/common/meta/NebulaSchemaProvider.cpp: addField"), ("ttl", "src/common/meta/NebulaSchemaProvider.cpp: getTTLInfo"), ("versions", "src/common/clients/meta/MetaClient.cpp: loadSchemas, getTagSchemaFromCache")],
  [("fields_", "the fields with sizes and offsets", "src/common/meta/NebulaSchemaProvider.h")],
  "TLA+ specification of the layout, validating what the real client and managers answer about the schemas of a played metad",
  "Up to nine columns of all fourteen types, fixed strings of up to 32767 bytes; 60 worlds (400 in the thorough tier). The layout is compared after loading through the client, not for schemas built by hand.")
P("C26", "Statistics read back what was recorded, per counter, method and time range",
  "A counter or histogram registered under a name keeps its id: stats get 1, 2, ..., histograms -1, -2, ..., and registering a name again gives the same id and only replaces what is listed of it. Every value added lands in that counter alone, exactly once, at the present time. A metric 'name.method.range' - method sum, count, avg, rate or a percentile pN to pNNNNNN (two digits before the point, the rest behind it) in any case, range 5, 60, 600 or 3600 - reads that method of the samples of that many last seconds; any other text, an unknown name, and a percentile of what is no histogram is an error. The list of all values has exactly the listed methods and percentiles of each counter in all four ranges, with the values one reads singly, after whatever the list held before. Threads that add and read at once neither lose nor repeat a value, and each read sees the values of some instant.",
  ["inputs", "histories", "schedules"], "every list of statistics, metric text, sequence of registrations, values and pauses; every interleaving of threads that add and read",
  "The unit tests sleep for minutes to see one window; they know two percentiles and never cross the ten-minute or one-hour windows, re-registration, or a race.",
  ["src/common/stats/StatsManager.cpp", "src/common/stats/StatsManager.h", "src/common/stats/StatsManager.inl"],
  [("names", "src/common/stats/StatsManager.cpp: registerStats, registerHisto, parseStats"), ("reading", "src/common/stats/StatsManager.cpp: readValue, readStats, readHisto, strToPct"), ("list", "src/common/stats/StatsManager.cpp: readAllValue"), ("locks", "src/common/stats/StatsManager.cpp: addValue")],
  [("nameMap_", "name to id and what is listed", "src/common/stats/StatsManager.h"), ("stats_, histograms_", "the samples", "src/common/stats/StatsManager.h")],
  "TLA+ specification of counters, windows and metric texts, model-checked, and validating recorded calls over a moved clock; controlled schedules of concurrent use validated against an atomic specification",
  "120 histories of 60 calls (500 in the thorough tier), jumps of the clock up to an hour and around every window's edge; all schedules with two deviations of up to three threads (three in the thorough tier). folly's time series and histogram are stand-ins (exact windows; a percentile shows the bucket and the percentage asked for). Registration while others use the manager is excluded, as its documentation does.")
P("C27", "A configuration gives every item as the file says, and only as its type",
  "Parsing accepts a text exactly if it is one JSON object - in a file, after everything from // or # to the end of a line is left out, except within strings - and then holds that object; anything else (no object, no JSON, a missing or empty file, a directory) is an error that leaves the configuration as it was. An item is fetched as the type it has: an integer, double, boolean, string or sub-configuration of another type, or missing, is an error that leaves the result untouched. Arrays convert each entry, in order, behind what the result held; an entry that cannot be converted is an error. A sub-configuration is a copy: later changes on either side do not show on the other. Writing a string is possible for a new item or a string, and changes nothing else. Walking over keys or items visits each exactly once and ends with an error when the visitor throws; dumps, plain and pretty, read back as the same object.",
  ["inputs", "histories"], "every text with every placement of comments, every tree of items, every sequence of parsing, fetching and writing",
  "The unit tests read one file with four comments and one object of each type; a comment sign within a string, a failed parse after a good one, or an array of mixed types never occurs.",
  ["src/common/conf/Configuration.cpp", "src/common/conf/Configuration.h"],
  [("parse", "src/common/conf/Configuration.cpp: parseFromFile, parseFromString"), ("fetch", "src/common/conf/Configuration.cpp: fetchAsInt and the others"), ("write", "src/common/conf/Configuration.cpp: upsertStringField")],
  [("content_", "the object", "src/common/conf/Configuration.h")],
  "TLA+ specification that reads JSON and comments byte by byte and holds the configurations, validating recorded calls of the real class",
  "200 histories of 50 calls on three configurations (800 in the thorough tier), texts up to 400 bytes. folly's JSON parser is a stand-in; its own limits (numbers beyond 64 bits, broken UTF-8, NUL bytes) are outside.")
P("C29", "Settings kept at the meta service take effect in the process, once each change",
  "Before anything else of its kind, a process registers with the meta service exactly its mutable settings - the standard ones and those the mode file names, nested ones as maps - with their types and present values; until that has succeeded, it takes no settings and asking for one is refused. From then on, each load that succeeds makes every listed setting whose listed value is new, if it is mutable and of the process, have that value (a map is written as JSON that reads back as the map), and, for a map that differed, tells the listener the options, once for every known space, exactly as they are. What is not mutable, not listed, unchanged since the last load, or not a value of the setting's type keeps its value, local changes included. A process that was told of a change goes on loading at every heartbeat until data and settings were both loaded.",
  ["inputs", "faults", "histories"], "every mode file, every sequence of changes at the meta service and in the process, every failure of a call",
  "No unit test covers these functions; what matters is a load that fails half way, a second change of the same setting, or a map's way through the flag's text.",
  ["src/common/clients/meta/MetaClient.cpp", "src/common/meta/GflagsManager.cpp", "src/common/meta/GflagsManager.h"],
  [("declaring", "src/common/meta/GflagsManager.cpp: declareGflags, parseConfigJson, gflagsValueToValue"), ("loading", "src/common/clients/meta/MetaClient.cpp: registerCfg, loadCfg"), ("applying", "src/common/clients/meta/MetaClient.cpp: updateGflagsValue, updateNestedGflags; src/common/meta/GflagsManager.cpp: ValueToGflagString")],
  [("metaConfigMap_", "the values last taken", "src/common/clients/meta/MetaClient.h"), ("configReady_", "whether the settings are registered", "src/common/clients/meta/MetaClient.h")],
  "TLA+ specification of registering, loading and applying (checked by TLC with failures at every step), validating recorded runs of the real client against a played meta service",
  "90 worlds of 60 to 300 steps (500 in the thorough tier), 11 settings of every gflags type. The items listed have values of the setting's type, or text; values that cannot be read as that type from the present text make the client throw and are left out, as are settings beyond 63 bits and nested objects within maps.")
P("C24", "Calls to the meta service find the leader, are retried, and give its answer",
  "Every operation of the meta client sends the call it is named for, with exactly the fields it was given (an argument left out stays unset), to the meta server it takes for the leader, and results exactly once: in what the answer says (the created id, the items, the values, or just success), or in the text that stands for the code of the answer, or in an RPC failure that names its cause. A server that answers it is not the leader is believed about who is; if it names nobody, and after a call that fails, any configured address is tried. Both are repeated after the configured pause, at most the configured number of times, and never after any other answer. Requests that are plainly none (keys in segments that are not named by letters and digits, empty keys) are refused without a call. Concurrent operations do not disturb each other.",
  ["inputs", "histories", "faults"], "every operation with every argument, every sequence of answers, failures and changes of leader, any number of operations at once",
  "The unit tests retry one operation against one mock server; a field forgotten or swapped in one of 85 operations, a wrong text for one of 70 codes, or a retry that asks the old leader shows only with the right operation, answer and order.",
  ["src/common/clients/meta/MetaClient.h", "src/common/clients/meta/MetaClient.cpp"],
  [("calls", "src/common/clients/meta/MetaClient.cpp: getResponse"), ("operations", "src/common/clients/meta/MetaClient.cpp: createSpace and the others"), ("texts", "src/common/clients/meta/MetaClient.cpp: handleResponse")],
  [("leader_", "whom to ask", "src/common/clients/meta/MetaClient.h")],
  "TLA+ specification of the calls (leader, operations, retries) model-checked, and validating recorded histories of the real client against a played cluster",
  "Some 850 operations (5000 in the thorough tier) of all kinds with random arguments and answers, up to six at once, virtual time; every error code. The RPC library, futures and event bases are stand-ins (folly and thrift are not installed), their types made from the interface files. download and ingest (HTTP) are outside; getConfig only as far as it is refused before the client registered its settings.")
