#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; writes /verif/properties.jsonl)."""
import json, os
P = []
I = "include/pluto/"
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [I + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- text
p("P01", "Valid Unicode text converts losslessly between all encodings",
  "Converting any well-formed text between UTF-8, UTF-16, UTF-32 and wide strings produces exactly the standard encoding of the same sequence of code points. Converting back along any path of encodings returns the original text, and no replacement character appears that was not in the input.",
  ["inputs"], "every Unicode scalar value in every encoding pair (exhaustively), and every sequence of them, including embedded NUL, BOM, noncharacters and boundary values",
  "The existing tests need a missing data file and are excluded from the baseline; even with it they convert one code point at a time, never sequences, chains of conversions or every entry point.",
  ["unicode.hpp"], [("one converter per pair of encodings", I+"unicode.hpp"), ("str/wstr/u8str/u16str/u32str wrappers", I+"unicode.hpp")],
  ["return values of the utfX_to_utfY functions and of str/wstr/u8str/u16str/u32str"])
p("P02", "Malformed Unicode is replaced, never fatal, and never eats good text",
  "For any sequence of code units whatsoever (truncated, overlong, surrogate or out of range included) every conversion terminates without error or out-of-bounds access and yields well-formed text. Every well-formed character in the input appears in the output unchanged and in order, and each code unit that belongs to no well-formed character is represented by exactly one U+FFFD.",
  ["inputs"], "arbitrary byte, 16-bit and 32-bit unit sequences fed to each converter, with all 1-, 2- and 3-byte UTF-8 sequences exhaustively",
  "No existing test feeds malformed input; the input space is every unit sequence.",
  ["unicode.hpp"], [("per-lead-byte length, continuation, overlong, surrogate and range checks", I+"unicode.hpp"), ("surrogate pairing in UTF-16", I+"unicode.hpp")],
  ["return values of the conversion functions"])
p("P03", "Unicode conversions agree, append, and work piecewise",
  "All ways of requesting the same conversion (pointer and length or string argument, output parameter or return value) give the same result, and conversions into an output string append and leave earlier contents alone. Same-encoding conversions copy every unit unchanged. Converting a concatenation, cut anywhere that does not split a character, equals concatenating the conversions.",
  ["inputs"], "all unit sequences well- or malformed, all entry points, all prior contents of the output string, all cuts on character boundaries",
  "Tests use one entry point, an empty output and one character at a time.",
  ["unicode.hpp", "string.hpp"], [("pointer-and-size overload that string overloads forward to", I+"unicode.hpp"), ("output by append", I+"unicode.hpp")],
  ["return values and output strings of every overload"])
p("P04", "Splitting and joining strings are exact and inverse",
  "Splitting by a non-empty separator yields the pieces between its successive leftmost non-overlapping occurrences (empty pieces included) and joining them with that separator restores the input; an empty separator yields the single characters. Splitting on whitespace, or on any of a set of characters, yields exactly the maximal non-empty runs of other characters, in order. Joining, with or without a mapping function, puts the separator between consecutive elements only.",
  ["inputs"], "all strings, separators, character sets, locales, element lists and mapping functions, narrow, wide and Unicode character types, with and without the overloads that can be switched on for Unicode strings; also self-overlapping separators and leading, trailing and adjacent ones",
  "Tests use a few literal strings.",
  ["string.hpp"], [("split by locale, by separator, split_any_of", I+"string.hpp"), ("join and map_join over iterators and containers", I+"string.hpp")])
p("P05", "In-place string replacement rewrites exactly the matches",
  "Replacing rewrites precisely the leftmost non-overlapping occurrences of the searched text and nothing else, never rescans inserted text, and always terminates; with empty searched text the replacement is inserted before every character and at the end. Replacing any of a set of characters substitutes each character of the original that is in the set, and only those.",
  ["inputs", "configurations"], "all strings, searched texts and replacements: overlapping, nested (replacement contains the searched text), growing, shrinking and empty ones; all character types, with and without the overloads that can be switched on for Unicode strings",
  "Tests use a few literal cases.",
  ["string.hpp"], [("replace, replace_any_of", I+"string.hpp")])
p("P06", "Stripping and letter-case functions follow the locale exactly",
  "Stripping removes all and only the leading and/or trailing whitespace as classified by the given locale. Lower- and upper-casing map each character by the locale, keep the length, and are idempotent. The is-lower and is-upper queries say true exactly when no character of the opposite case is present (hence also after the corresponding conversion, letters without a counterpart aside), and pointer, string and single-character forms all agree.",
  ["inputs"], "all narrow strings (all 256 byte values), wide strings, and Unicode strings where the locale classifies their characters; all installed locales, every overload, the ones that can be switched on for Unicode strings included; only the given range is read or written",
  "Tests use a few ASCII literals in the default locale.",
  ["string.hpp", "locale.hpp"], [("ctype facet of the locale argument", I+"string.hpp")])
p("P07", "Binary, octal and hexadecimal text denotes the exact value",
  "For every value of every integer type the binary, octal and hexadecimal forms consist of the right prefix followed by the minimal digits of the value, negative values being shown as two's complement of their own width, and zero as a single 0. Reading the digits back in that base gives the original value.",
  ["inputs"], "all values of 8- and 16-bit types exhaustively, all bit patterns of 32- and 64-bit types, signed and unsigned, bool and char types",
  "Tests check a handful of constants; widths that are not multiples of three bits and sign boundaries make the space large.",
  ["string.hpp"], [("bin, oct, hex digit extraction", I+"string.hpp")])
p("P08", "Value and text conversion round-trips and is deterministic",
  "Turning a value into narrow or wide text yields its standard stream representation, and parsing that text as the same type gives the value back (for floating point: the value printed); strings pass through unchanged, embedded NULs included. Parsing text gives the same result as standard stream extraction, and parsing text that holds no value gives the type's zero value: the result is always determined by the text alone.",
  ["inputs"], "all integers, floating point values representable at stream precision, strings, and arbitrary text to be parsed (empty, blank, malformed, overflowing, trailing garbage)",
  "Tests parse a few literals; the empty-text result is unspecified stack content and passes by luck.",
  ["string.hpp"], [("str/wstr/str_to/wstr_to via string streams", I+"string.hpp")])
p("P09", "Case-insensitive matching is exactly matching after case folding",
  "Two characters compare case-insensitively exactly as their upper-case forms in the given locale compare, so equality is an equivalence and the six order comparisons are mutually consistent with it. Case-insensitive equality, prefix, suffix, first and last occurrence and containment of strings give the answer of the case-sensitive operation on upper-cased copies. This stays true for as long as a comparison object lives, whatever locale it was made from and however the library is configured to cache locales.",
  ["inputs", "configurations"], "all pairs of characters (all narrow pairs exhaustively), all strings, all installed locales, temporary and default locales, locale caching on or off, every overload, the ones that can be switched on for Unicode strings included",
  "Tests use a few ASCII pairs in the cached default locale.",
  ["compare.hpp", "string.hpp", "locale.hpp"], [("is_iequal and siblings", I+"compare.hpp"), ("i-prefixed string functions", I+"string.hpp"), ("locale caching", I+"locale.hpp")])
p("P10", "Sequence search and comparison are right for every kind of sequence",
  "Equality, prefix, suffix, first and last occurrence (of an element, a subsequence, or by predicate) and containment give the mathematically defined answer: positions are the true first or last match, the end when there is none, and the empty sequence is a prefix, a suffix and contained. A given predicate always receives the element of the first sequence first and of the second sequence second. The answers do not depend on the kind of container, iterator or overload used.",
  ["inputs"], "all finite sequences and subsequences over small alphabets, arbitrary also non-symmetric predicates, random-access, bidirectional, forward and input-like containers, raw arrays and pointers, mixed element types; strings of all character types, with and without the overloads for Unicode strings",
  "Tests use few literal vectors with symmetric equality and never pointers or lists with predicates.",
  ["iterator.hpp", "container.hpp", "string.hpp"], [("iterator algorithms", I+"iterator.hpp"), ("container wrappers", I+"container.hpp"), ("pointer/string overloads", I+"string.hpp")])
p("P11", "Sorting, reversing, filtering and mapping neither lose nor invent elements",
  "Sorting yields an ordered permutation under the given order; reversing yields the exact reverse; filtering keeps exactly the elements satisfying the predicate, in order; mapping and for-each apply the function once to each element in order, mapping appending the results to the destination after what it already held. In-place operations return their own container and leave the rest of the world untouched.",
  ["inputs"], "all element sequences with duplicates, all predicates and functions, several container and element types, iterator and container forms",
  "Tests use a few literal vectors.",
  ["iterator.hpp", "container.hpp"], [("sort/reverse/filter/for_each/map", I+"container.hpp")])
p("P12", "Slicing follows Python semantics for every pair of bounds",
  "Slicing any container with any start and stop, positive, negative, out of range or crossing, returns exactly the elements Python's slice would, in order, leaves the source unchanged and never fails. The elements of the result equal the corresponding source elements for every container and element type, and an omitted start means the beginning.",
  ["inputs"], "all containers (random access, list, set, map, string, containers of containers, and of type-erased values) and all start/stop values including the extremes of the index type",
  "Tests use one vector and a few bounds.",
  ["container.hpp"], [("index normalisation and construction of the result", I+"container.hpp")])
p("P13", "Aggregates over containers equal their definitions",
  "Any, all, count, count-if, sum and length equal their mathematical definitions over the container with the documented values for empty containers. Minimum and maximum return a reference to the first extreme element stored in the container itself, under the natural or the given order.",
  ["inputs"], "all element sequences with ties, all predicates and orders, several container and element types, initial sum values",
  "Tests use a few literal vectors without ties.",
  ["container.hpp"], [("any/all/count/count_if/sum/min/max/len", I+"container.hpp")])
p("P14", "Scalar helpers equal their mathematical definitions",
  "Absolute value, rounding (half away from zero) and power match the standard mathematics for every arithmetic type, and two-argument minimum and maximum return a reference to the proper argument, the first one on ties. Copying a value yields an equal, independent object of the same type for every copyable type, and the truth predicates are exact complements.",
  ["inputs"], "all integers and floating point values except where negation is not representable, arbitrary orders, arbitrary copyable types including containers and type-erased values",
  "Tests use a few constants.",
  ["value.hpp", "compare.hpp"], [("abs/copy/min/max/pow/round", I+"value.hpp"), ("is_true/is_false", I+"compare.hpp")])
p("P15", "Ranges form a total order with a consistent notion of overlap",
  "The six comparison operators and their named forms define the lexicographic total order on begin then end. Overlap is symmetric and holds exactly when two ranges begin at the same point or each begins before the other ends; for well-formed ranges exactly one of overlapping, entirely before and entirely after holds. Size is end minus begin, and a range keeps the bounds it was given.",
  ["inputs"], "all triples of ranges over small domains exhaustively, including empty and touching ranges; signed, unsigned, extreme and pointer bounds",
  "Tests compare a few literal ranges.",
  ["range.hpp"], [("comparison members and operators", I+"range.hpp")])
# ---------------------------------------------------------------- caches
p("P16", "The LRU cache behaves as a bounded map evicting the oldest entry",
  "After any sequence of operations the cache holds exactly what an ideal least-recently-used map would: never more entries than its capacity, each key mapped to the value last assigned, and whenever room is needed the entry least recently inserted, assigned or successfully queried is the one evicted. Return values are those documented, including at zero capacity and when the capacity shrinks or grows mid-history; membership tests and failed operations do not change the order.",
  ["histories"], "all operation sequences over small key sets and capacities, several key, value and map types",
  "Tests run a couple of short fixed sequences.",
  ["lru_cache.hpp"], [("list ordered by recency plus map to list positions", I+"lru_cache.hpp")],
  state=[("recency list and index", "must agree entry for entry", I+"lru_cache.hpp")])
p("P17", "Copied and moved caches are independent and complete",
  "Copying a cache, by construction or assignment, yields a cache with the same entries, recency order and capacity that from then on is completely independent of the original: no operation on, or destruction of, either affects the other. Moving transfers contents to the target and leaves the source safe to destroy, clear or reassign.",
  ["histories"], "all histories interleaving operations on several caches with copies, moves, self-assignment and destruction",
  "No test copies a cache; the fault is silent memory corruption.",
  ["lru_cache.hpp"], [("copy and move operations", I+"lru_cache.hpp")])
p("P18", "The LRU cache survives exceptions intact",
  "If copying, assigning, comparing or allocating fails inside a cache operation, the failure reaches the caller and the cache remains consistent: size never exceeds capacity, every entry present can be found, queried, evicted and removed as usual, and no entry is lost or altered other than the one being operated on and any due for eviction. Later operations behave as on an ordinary cache with those contents.",
  ["fault_sequences", "histories"], "every operation history with a failure injected at every possible point (allocation, key or value copy, assignment, comparison)",
  "Tests inject no failure.",
  ["lru_cache.hpp"], [("order of list and map updates", I+"lru_cache.hpp")])
p("P19", "The thread-safe cache is linearizable and free of data races",
  "When any number of threads use a thread-safe cache concurrently, every operation appears to take effect atomically at one instant between its call and its return, as on a single-threaded cache of the same history. No concurrent use involves a data race, a deadlock or access to freed memory.",
  ["schedules", "histories"], "all thread interleavings of short concurrent histories of every operation",
  "Tests run it single-threaded.",
  ["safe_lru_cache.hpp", "lru_cache.hpp"], [("reader/writer lock around each operation", I+"safe_lru_cache.hpp")])
# ---------------------------------------------------------------- scope, stopwatch, platform
p("P20", "Scope guards run the right actions exactly once, last added first",
  "An exit guard runs all its actions when destroyed; a success guard runs them if and only if its scope is left normally, and a failure guard if and only if it is left by an exception thrown after the guard was created. Actions run exactly once, in reverse order of addition, empty ones being skipped; an action that throws neither prevents the rest from running nor lets its exception escape.",
  ["histories", "fault_sequences"], "all nestings of scopes, guards, exceptions, catches and guards created inside clean-up code that runs while another exception is propagating, with throwing and empty actions",
  "Tests cover single scopes with one exception; nesting in destructors during unwinding is not reached.",
  ["scope.hpp"], [("destructors consulting in-flight exceptions", I+"scope.hpp")])
p("P21", "The stopwatch measures exactly the time it was running",
  "At any moment the measured time equals the total clock time that passed while the stopwatch was running since it was last reset or restarted (or created); redundant starts and stops change nothing, and reading does not disturb it. Whole-unit readings are that time truncated to the unit, and the parts recombine to it with every part within its range.",
  ["histories", "configurations"], "all operation sequences over an arbitrary (also backward-stepping) configured clock, durations from nanoseconds to years",
  "Tests sleep for real time and check loose bounds of one sequence.",
  ["stopwatch.hpp"], [("accumulated time plus running start point", I+"stopwatch.hpp")])
p("P22", "Platform helpers return exactly what the operating system knows",
  "The file-name part of any path is the longest suffix free of both kinds of slash. Process and thread ids are those of the caller, distinct for concurrently live threads. Broken-down UTC and local times denote exactly the given instant, in any time zone, and safely from several threads.",
  ["inputs", "configurations"], "all C strings, all times representable in a calendar year range, all installed time zones, concurrent calls from threads",
  "Tests check one path and loosely compare times.",
  ["platform.hpp"], [("file_name scan, OS calls", I+"platform.hpp")])
# ---------------------------------------------------------------- thread pool
p("P23", "Every accepted task runs exactly once, and stopping honours its promise",
  "Every task handed to a pool for immediate execution runs exactly once, on one worker, provided the pool is not destroyed first. Destruction waits for running tasks; with the complete-tasks policy, if there is any worker left, every task still queued runs before it returns, also when the worker count was lowered shortly before, and with the join policy no queued task starts once the pool is stopping. No task runs twice, concurrently with itself, or after destruction. A submission that fails because the task's captured state cannot be copied submits nothing.",
  ["schedules", "histories"], "all interleavings of submitters, workers, resizing, policy changes and destruction, with tasks that submit further tasks",
  "Tests run one OS schedule of a few fixed scenarios with sleeps.",
  ["thread_pool.hpp"], [("task queue under one mutex and condition variables", I+"thread_pool.hpp"), ("stopping flag and on-stop policy", I+"thread_pool.hpp")])
p("P24", "Tasks start in priority order, first come first served within one",
  "Whenever a worker picks its next task it takes one of the highest priority then queued and, among those, the one that was queued earliest. A task never waits while a worker is idle. Numeric and named priorities are interchangeable and cover the whole signed 8-bit range.",
  ["histories", "schedules"], "all batches of tasks with arbitrary priorities, submission orders (immediate, synchronous, scheduled), pool sizes and interleavings",
  "Tests use few priorities in one order.",
  ["thread_pool.hpp"], [("ordered multi-map of waiting tasks", I+"thread_pool.hpp")])
p("P25", "Waiting calls return exactly when what they wait for has happened",
  "Waiting until no task is queued, waiting until all tasks are complete, and running a task synchronously each return only once their condition has held during the call (for synchronous runs: once that very task has finished, all its effects being visible) and, under every schedule, do return once it holds for good. This is so with any number of waiters, with the worker count changing, also to zero, and with spurious wakeups.",
  ["schedules", "histories"], "all interleavings of waiters, submitters, workers, resizes and spurious wakeups in which some worker remains able to do the work",
  "Tests run one OS schedule; lost wakeups show in rare interleavings only.",
  ["thread_pool.hpp"], [("condition variables notified on task completion", I+"thread_pool.hpp")])
p("P26", "Scheduled tasks start on time, in time order, exactly once",
  "A task scheduled for a time or after a delay, however long, never starts before that time by the pool's clock, and once the time has come it is queued at its priority and runs exactly once when a worker is free. Tasks due at different times are queued in order of due time, including when a task is scheduled earlier than all pending ones, at a time already past, concurrently from several threads, or after the schedule has run empty. Scheduling never disturbs or crashes the program.",
  ["schedules", "histories"], "all sets of due times and arrival orders, all interleavings of schedulers and workers, all clock behaviours including jumps past due times",
  "Tests schedule one or two tasks in real time.",
  ["thread_pool.hpp"], [("scheduler thread started on demand", I+"thread_pool.hpp")])
p("P27", "The worker count follows its target and all counters tell the truth",
  "After the target worker count is changed, in any sequence and at any time, the number of workers eventually equals the target, surplus workers leaving only between tasks and missing ones being started by the call that raises the target. At every moment the counters are mutually consistent (active plus waiting equals total, for workers and for tasks), and when the pool is quiet they equal the true numbers of workers, of running, queued and scheduled tasks. When a thread cannot be started, the constructor, the resizing or the scheduling call that needed it fails with an exception, and the pool goes on as what its counters then say: no thread of a failed constructor is left, the task of a failed scheduling call never runs, and later calls work.",
  ["histories", "schedules"], "all sequences of resizing, submission, scheduling and completion, all interleavings, threads that cannot be started",
  "Tests check a couple of resizes after sleeps.",
  ["thread_pool.hpp"], [("target size compared in worker loop, counters under the mutex", I+"thread_pool.hpp")])
p("P28", "The pool is free of data races and deadlocks, also when used re-entrantly",
  "Any pool operation except destruction may be called from any thread at any time, including from inside tasks and from the copying and clean-up of a task's captured state. No such use involves a data race, a deadlock, or an access to freed memory, and a task's captured state is destroyed exactly once, no later than its pool.",
  ["schedules", "programs"], "all concurrent programs over the pool's operations, from outside threads, tasks and task clean-up, and all their interleavings",
  "Tests call from one thread and under one OS schedule, without race detection.",
  ["thread_pool.hpp"], [("one mutex for all pool state; tasks run with it released", I+"thread_pool.hpp")])
# ---------------------------------------------------------------- logger
p("P29", "Every accepted message reaches its file exactly once and in order",
  "Every message accepted by a logger without a buffer limit is written to the file it was addressed to, exactly once and unaltered, no later than the end of the logger's destruction. Within one file, messages of one thread keep their order, and a message whose logging call finished before another began precedes it. Files receive only their own messages, existing file contents are kept, and missing directories are created when that is enabled.",
  ["schedules", "histories"], "all interleavings of logging threads with the background writer and destruction, any files, messages (also empty, multi-line and binary) and flush sizes",
  "Tests log a few lines from one or few threads and look at one OS schedule.",
  ["logger.hpp"], [("per-file buffers swapped with the logging thread", I+"logger.hpp"), ("destructor joins the logging thread", I+"logger.hpp")])
p("P30", "Log rotation bounds files and loses only what the limit says",
  "With a rotation size set, a file that has reached the size is renamed with suffix _1, older ones shifting up by one, before the next message is written, so each rotated file has reached the size only with its last message. At most the configured number of older files of that name is ever kept, and the retained files read from oldest to newest are exactly the most recent messages, complete, unaltered and in order. Every newly started file begins with the header when headers are enabled, and no other file is touched.",
  ["inputs", "histories"], "all rotation sizes and limits, changes of either mid-history, message length sequences, pre-existing files, names with and without extensions or directories",
  "Tests use one size and one limit and count files.",
  ["logger.hpp"], [("size check and rename chain", I+"logger.hpp")])
p("P31", "Level filtering and message formatting are exact",
  "A message is logged if and only if logging is not off and its level is at least as severe as the logger's level at the time of the call; the logging macros evaluate the message arguments exactly once if it is logged and never otherwise. The recorded text equals the given string, the standard printf-style or brace-style formatting of the arguments, or the concatenation of everything streamed, for any length including zero. The recorded level, source location and thread are the caller's.",
  ["inputs"], "all pairs of levels, all logging functions and macros, formats, argument values and lengths, moved and explicitly ended streams",
  "Tests log few fixed strings at few levels.",
  ["logger.hpp"], [("should_log and macros", I+"logger.hpp"), ("vsnprintf sizing, vformat, streamer", I+"logger.hpp")])
p("P32", "Default log lines parse back to exactly what was logged",
  "Each default log line shows, in the documented column order, the entry's time as local time with microseconds, thread id, level title, file name without directories, line, function and message, each padded to its column so that lines of ordinary width align with the header. File and function names are cut to their column, all other values are shown in full however wide, and each line is the same whatever was written to the stream before and however the locale writes numbers. All level names are distinct and consistent between the long, titled, three-letter and one-letter forms.",
  ["inputs"], "all entries: all levels, times from 1970 on with every sub-second part, ids, lines, and file and function names of any length, on streams in any prior formatting state (left by earlier entries or by other users of the stream, such as number base, fill, adjustment), in locales that group digits",
  "Tests match one line against a loose pattern.",
  ["logger.hpp", "platform.hpp"], [("default log and header writers", I+"logger.hpp"), ("level name tables", I+"logger.hpp")])
p("P33", "A bounded log buffer never overflows and accounts for every message",
  "With a buffer limit set, the number of messages accepted but not yet handed over for writing never exceeds the limit, so a producer never makes memory grow without bound. A message is dropped only if the buffer is full when it arrives, each dropped message is counted exactly once, and the written plus the dropped messages are exactly those logged. Resetting the count and changing the limit at any time keep this accounting right.",
  ["schedules", "histories"], "all limits (also changed mid-history, lowered below the current fill), producers, stalls of the writer, and interleavings",
  "Tests overflow the buffer once with loose bounds.",
  ["logger.hpp"], [("size check under the buffer mutex, discard counter", I+"logger.hpp")])
p("P34", "The logger always makes progress and never races or hangs",
  "Under every schedule, once the number of buffered messages has reached the flush size they are written without further calls, including when the flush size is lowered to that number, and destruction always completes with everything written. Settings may be changed and all members called from any thread at any time: no use involves a data race, a deadlock, or access to freed memory.",
  ["schedules", "histories"], "all interleavings of producers, setters, the background writer and destruction, with spurious wakeups",
  "Tests run one OS schedule; lost wakeups and races show in rare interleavings only.",
  ["logger.hpp"], [("condition variable waking the writer", I+"logger.hpp"), ("destructor handshake", I+"logger.hpp")])
p("P35", "Unwritable files delay messages but do not lose or leak them",
  "While a log file cannot be opened (directory missing, a directory in its place, permission) its messages are kept and are all written, once and in order, as soon as the file becomes available. Trouble with one file never prevents, reorders or duplicates messages of other files, and never makes a logging call fail or block.",
  ["fault_sequences", "histories"], "all sequences of files becoming unavailable and available again, any number of files, messages before, during and after",
  "Tests only log to writable locations.",
  ["logger.hpp"], [("entries that could not be written are merged back in front of newer ones", I+"logger.hpp")])
# ---------------------------------------------------------------- configuration
p("P36", "All supported standards, compilers and settings behave the same",
  "Every public header compiles on its own in every supported language standard from C++14 on, with each installed compiler and each documented configuration setting, and used from several translation units of one program. The same calls with the same inputs give identical results in all of these builds.",
  ["configurations", "inputs"], "language standards C++14 to C++23, both compilers, optimisation on and off, each configuration macro, and generated inputs to every pure function",
  "The test suite is built in exactly one configuration (C++20, one compiler, default settings).",
  ["version.hpp", "string.hpp", "iterator.hpp", "container.hpp", "locale.hpp", "unicode.hpp", "scope.hpp", "logger.hpp", "standard.hpp"], [("feature macros and conditional implementations", I+"version.hpp")])

p("P37", "The provided locales are the ones their names promise",
  "The C locale is the classic locale, the default locale is the configured one, and the system locale is the one the environment prescribes: at the first request if locales are cached, at each request otherwise. All this holds in any order of requests, from any thread, and whatever the program's global locale is or becomes, and a cached locale stays as it was. A function whose locale argument is omitted acts as with the default locale, and a facet fetched from a locale is that locale's own.",
  ["histories", "configurations"], "all sequences of requests, changes of the environment and of the global locale, with caching and without, and different configured default locales",
  "Tests ask once, with one environment and the initial global locale, in one configuration; a cache is filled only once per process.",
  ["locale.hpp", "string.hpp", "compare.hpp"], [("local statics, PLUTO_LOCALE_NO_STATIC, PLUTO_LOCALE_DEFAULT_LOCALE", I+"locale.hpp"), ("default arguments", I+"string.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
