#!/usr/bin/env python3
# Generates properties.jsonl (kept as code so that the statements stay in one reviewable place).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":["include/pluto/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("U01","UTF-8 decoding to UTF-16 and UTF-32 is exact for every byte sequence",
"For every byte sequence of any length, converting UTF-8 to UTF-16 or UTF-32 appends to the output, in order, the encoding of each well-formed UTF-8 sequence (shortest form, no surrogates, at most U+10FFFF) and a single U+FFFD for each byte at which no well-formed sequence starts, after which decoding resumes at the next byte. Output content present before the call is kept, and no unit outside the given input is read.",
["inputs"],"every byte sequence of every length, every prior output content",
"The space of byte sequences is infinite; the tests sample code points and a few malformed strings (and the unicode tests are not part of the stable suite).",
["unicode.hpp"],[("utf8_to_utf16","unicode.hpp utf8_to_utf16"),("utf8_to_utf32","unicode.hpp utf8_to_utf32")])
prop("U02","UTF-8 encoding from UTF-16 and UTF-32 is exact for every unit sequence",
"For every UTF-16 or UTF-32 unit sequence of any length, converting to UTF-8 appends to the output, in order, the shortest UTF-8 form of each Unicode scalar value (a high surrogate directly followed by a low surrogate counts as one value) and the bytes EF BF BD for every other unit, resuming at the next unit. Output content present before the call is kept, and no unit outside the given input is read.",
["inputs"],"every UTF-16/UTF-32 unit sequence of every length, including lone surrogates and values above U+10FFFF",
"Infinite input space; unpaired surrogates at every position and all 32-bit units cannot be sampled.",
["unicode.hpp"],[("utf16_to_utf8","unicode.hpp utf16_to_utf8"),("utf32_to_utf8","unicode.hpp utf32_to_utf8")])
prop("U03","UTF-16 and UTF-32 convert into each other exactly for every sequence",
"For every unit sequence of any length, converting between UTF-16 and UTF-32 appends exactly one encoding per Unicode scalar value (surrogate pairs above U+FFFF) in order, and a single U+FFFD for every unpaired surrogate or value above U+10FFFF, resuming at the next unit. Output content present before the call is kept, and no unit outside the given input is read.",
["inputs"],"every UTF-16/UTF-32 unit sequence of every length",
"Infinite input space; the tests check selected characters only.",
["unicode.hpp"],[("utf16_to_utf32","unicode.hpp utf16_to_utf32"),("utf32_to_utf16","unicode.hpp utf32_to_utf16")])
prop("U04","String-type conversions pick the right encoding and keep every unit",
"Each conversion producing a std::string, wstring, u8string, u16string or u32string from another character type returns, for the whole input including embedded NUL units, exactly the conversion between the encodings of the two types. Pairs of types with the same encoding (char/char8_t, wchar_t/char32_t on this platform, or identical types) are copied unit for unit without validation or change.",
["inputs"],"every input string and every (pointer, size) pair, every pair of character types",
"The tests use a handful of valid strings; embedded NULs, invalid units and lengths are unbounded.",
["unicode.hpp","string.hpp"],[("str/wstr/u8str/u16str/u32str","unicode.hpp"),("str/wstr/u8str/u16str/u32str same-type copies","string.hpp")])
prop("U05","Unicode conversions yield well-formed text and round-trip",
"Whatever the input, text appended by a UTF conversion is well-formed in the target encoding. Well-formed text converted to another UTF encoding and back is returned unchanged.",
["inputs"],"every input sequence, every pair of UTF encodings",
"A statement about compositions of functions over an infinite input space.",
["unicode.hpp"],[("the six utfX_to_utfY functions","unicode.hpp")])

prop("C01","The LRU cache is a bounded, recency-ordered map over every history",
"For every history of operations, an absent key inserted at non-zero capacity becomes the most recently used entry with its value, evicting exactly the least recently used entry when the cache is full (at capacity zero nothing is stored), and the call returns true; for a present key insertion returns false and changes nothing, except that insert-or-assign replaces its value and makes it most recently used. Successful lookup returns the stored value and makes its key most recently used; removal and clearing remove exactly the named entries; queries and failed lookups change nothing. The number of entries never exceeds the capacity, and lowering the capacity evicts least recently used entries only as far as needed.",
["histories","inputs"],"every sequence of public operations, every key/value, every capacity",
"Histories are unbounded; tests exercise a few short scripts.",
["lru_cache.hpp"],[("insert/move_to_front/evict_lru","lru_cache.hpp"),("capacity(newCapacity)","lru_cache.hpp"),("get/remove/clear","lru_cache.hpp")],
[("recency list","keys from most to least recently used","lru_cache.hpp m_list"),("index","key to (value, list position)","lru_cache.hpp m_map")])
prop("C02","Operations of the thread-safe LRU cache are atomic",
"Each operation of the thread-safe cache behaves as the same single operation of the plain LRU cache applied atomically between call and return, under every interleaving with other operations. Operations that can change the cache or its recency order run exclusively; no operation leaves the cache locked.",
["schedules","histories"],"every interleaving of operations by any number of threads",
"Interleavings are unbounded and not controlled by the tests.",
["safe_lru_cache.hpp","lru_cache.hpp"],[("shared_lock/unique_lock per operation","safe_lru_cache.hpp")],
[("mutex","guards the wrapped cache","safe_lru_cache.hpp m_mutex")])
prop("C03","Copies of an LRU cache are equal and independent",
"Copying or assigning an LRU cache yields a cache with the same capacity, entries, values and recency order. Any later operation on either one has exactly its normal effect on that one and none on the other.",
["histories","inputs"],"every cache content at copy time and every later history on either copy",
"No test copies a cache.",
["lru_cache.hpp"],[("copy construction and assignment","lru_cache.hpp")])

prop("A01","equals, starts_with and ends_with decide exactly the element-wise relation",
"For all ranges or containers of any kind and any predicate, equality holds exactly when both have the same length and the predicate accepts every pair of corresponding elements; starts-with and ends-with hold exactly when the right range is no longer than the left and the predicate accepts every pair formed with the left range's prefix or suffix. The predicate always receives the left range's element first, and no element outside either range is accessed.",
["inputs"],"every pair of ranges (random-access and not), every predicate including asymmetric ones",
"Tests use a few literals with symmetric predicates.",
["iterator.hpp","container.hpp","string.hpp"],[("equals/starts_with/ends_with","iterator.hpp"),("container overloads","container.hpp"),("string overloads","string.hpp")])
prop("A02","find, rfind and contains return exactly the first or last match",
"Forward searches for an element, a predicate or a sequence return the first matching position and backward searches the last, or the end of the range when there is no match; a contains query is true exactly when a match exists, and an empty sequence is contained in everything. Nothing outside the ranges is accessed.",
["inputs"],"every range, element, predicate and searched sequence",
"Tests sample a few strings and vectors.",
["iterator.hpp","container.hpp","string.hpp"],[("find/rfind/find_if/rfind_if/find_if_not/rfind_if_not/contains","iterator.hpp"),("*_elem/*_sequence","container.hpp")])
prop("A03","slice follows the start/stop rules for every pair of indices",
"A slice of a container contains, in order, exactly the elements at positions from start up to but excluding stop, where a negative index counts from the end, an index still negative afterwards counts as zero and an index beyond the size counts as the size; it is empty when start is not before stop. The source is unchanged, and with only a stop index the start is zero.",
["inputs"],"every container size and every start/stop in the long long range whose negative adjustment is representable",
"Index space is 2^128 per size; tests use a handful of pairs.",
["container.hpp"],[("slice","container.hpp")])
prop("A04","any, all, count, sum, min and max compute the fold of every container",
"For every container and predicate, any/all are true exactly when some/every element satisfies it, count returns the number of matching elements, and sum adds all elements in order to the initial value. Min and max of a non-empty container return a reference to the first element that no other element precedes or follows, respectively, under the given strict order.",
["inputs"],"every container content and length, every predicate and order",
"Unbounded lengths and contents; ties and position of the extremum are barely sampled.",
["container.hpp"],[("any/all/count/count_if/sum/min/max","container.hpp")])
prop("A05","filter, map, sort, reverse and for_each transform whole containers exactly",
"Filter keeps exactly the elements satisfying the predicate, in order; map appends (for sequence containers) or inserts the function's result for every source element, in order, leaving the source and existing destination content in place; reverse reverses; sort yields a permutation ordered by the predicate; for_each applies the function to every element once, in order. Each returns the container it was asked to change.",
["inputs"],"every container content and length, every predicate/function",
"Unbounded contents; tests use small literals.",
["iterator.hpp","container.hpp"],[("filter/map/sort/reverse/for_each","iterator.hpp, container.hpp")])

prop("S01","split, in all variants, partitions every string exactly",
"Splitting by a non-empty separator returns, in order, the pieces between successive leftmost non-overlapping occurrences of it, including empty pieces and the text before the first and after the last; an empty separator yields every single character. Splitting on whitespace or on any of a set of characters returns exactly the maximal runs of other characters, in order and never empty.",
["inputs"],"every string, separator and character set",
"Infinite input space; overlapping, adjacent and trailing separators are sampled by few cases.",
["string.hpp"],[("split (3 forms), split_any_of","string.hpp")])
prop("S02","join and map_join concatenate with separators, and split undoes join",
"Joining a range returns its elements, or the function's result for each element in map_join, in order with exactly one separator between neighbours and none at either end. Joining the pieces obtained by splitting a string on a non-empty separator with that separator gives back the string.",
["inputs"],"every range of strings, every separator, every function",
"Unbounded ranges; the inverse law relates two functions over all strings.",
["string.hpp"],[("join/map_join","string.hpp"),("split","string.hpp")])
prop("S03","replace and replace_any_of rewrite every string exactly",
"Replace substitutes every occurrence of the search text found left to right without overlap, never rescanning inserted text, and leaves the rest unchanged; with an empty search text the replacement is inserted before every character and at the end. Replace-any-of substitutes the replacement for each character of the original string that belongs to the given set, and both always terminate.",
["inputs"],"every string, search text and replacement, including replacements containing the search text",
"Infinite input space; overlapping and self-containing replacements matter.",
["string.hpp"],[("replace","string.hpp"),("replace_any_of","string.hpp")])
prop("S04","strip, lstrip and rstrip remove exactly the outer whitespace",
"Lstrip removes the longest prefix of characters classified as space by the locale, rstrip the longest such suffix, and strip both; every other character is kept in order, and a string of only whitespace becomes empty.",
["inputs"],"every string and every locale classification",
"Infinite input space.",
["string.hpp"],[("lstrip/rstrip/strip","string.hpp")])
prop("S05","bin, oct and hex render every integer of every width exactly",
"For every value of every integer type, bin, oct and hex return the prefix 0b, 0o or 0x followed by the digits of the value's two's-complement bit pattern at the width of the type, most significant first, without leading zeros and with a single 0 for zero.",
["inputs"],"every value of every 8/16/32/64-bit signed and unsigned integer type",
"2^64 values per type; the tests check some boundary values.",
["string.hpp"],[("bin/oct/hex","string.hpp")])
prop("S06","Case functions and case-insensitive queries follow the locale exactly",
"Lower and upper replace every character of the given text, and nothing else, by the locale's lower or upper case form; is-lower/is-upper hold exactly when no character is classified as upper/lower. Case-insensitive comparisons, prefixes, suffixes, searches and ordering relations equal their plain counterparts with characters compared by the locale's upper-case form (identical characters always being equal).",
["inputs","configurations"],"every text, every locale facet",
"Every string and facet; tests check ASCII samples.",
["string.hpp","compare.hpp"],[("lower/upper/is_lower/is_upper, i-functions","string.hpp"),("is_iequal & co","compare.hpp")])

prop("R01","Ranges are totally ordered by begin, then end",
"For all ranges, equality holds exactly when both bounds are equal and the six comparison operators agree with the lexicographic order on (begin, end); the size is the end minus the begin.",
["inputs"],"every pair/triple of ranges over every ordered bound type",
"Order laws quantify over all triples.",
["range.hpp"],[("is_equal/is_less and operators","range.hpp")])
prop("R02","Overlap and no-overlap order classify every pair of ranges",
"For all ranges whose begin is not after their end, exactly one of three holds: the first lies wholly before the second (it ends no later than the second begins, and their begins differ), the second lies wholly before the first, or they overlap; ranges with the same begin always overlap. Overlap is symmetric and holds for any two ranges sharing an interior point.",
["inputs"],"every pair of well-formed ranges, including empty and touching ones",
"Quantifies over all pairs; empty and touching ranges are sampled thinly.",
["range.hpp"],[("is_overlapping/is_less_no_overlap","range.hpp")])
prop("V01","min, max and abs of values pick the right operand",
"Min returns a reference to the right operand exactly when it precedes the left one under the order used, and max exactly when the left precedes the right, so ties always yield the left operand; abs returns the value if it is not negative and its negation otherwise (where representable).",
["inputs"],"every pair of values, every strict order",
"All value pairs and predicates.",
["value.hpp"],[("min/max/abs","value.hpp")])
prop("K01","Scope guards run their tasks once, in reverse order, on the right exit",
"At the end of its scope a scope-exit guard runs every added task exactly once in reverse order of addition; a success guard does so only when no exception is in flight and a fail guard only when one is, and otherwise they run nothing. Empty tasks are skipped, and an exception thrown by one task neither escapes nor prevents the others from running.",
["inputs","fault_sequences"],"every sequence of added tasks, every subset of them throwing, every exit kind",
"All task sequences and all throwing subsets.",
["scope.hpp"],[("destructors of on_scope_exit/on_scope_success/on_scope_fail","scope.hpp")])
prop("W01","The stopwatch reports exactly the time spent running",
"For every history of start, stop, reset and restart, the reported time is the sum of the lengths of all running periods since the last reset or restart, including the one in progress; starting a running or stopping a stopped watch changes nothing. Unit counts truncate that time to the unit, and each part accessor reduces its unit count modulo the next larger unit (hours unreduced).",
["histories"],"every history of operations and every clock reading",
"Histories and clock values are unbounded; tests sleep.",
["stopwatch.hpp"],[("start/stop/reset/restart/time/count","stopwatch.hpp")])
prop("P01","file_name returns the part after the last path separator",
"For every NUL-terminated string, the file name is the suffix starting after the last '/' or '\\\\', or the whole string if there is none; no character beyond the terminator is read.",
["inputs"],"every NUL-terminated string",
"Infinite input space.",
["platform.hpp"],[("file_name","platform.hpp")])

prop("L01","Only logs at or above the logger's level are accepted, unaltered",
"A log call on a running logger is accepted exactly when its level is not below the logger's current level; an accepted call buffers exactly one entry for the named file with that level, source information and message (the complete formatted text for printf-style calls, also when it is empty), stamped with the calling thread. A stream log buffers exactly one entry when ended or destroyed, whichever comes first.",
["inputs","histories"],"every level pair, message, format result and history of calls",
"All messages, lengths and level pairs.",
["logger.hpp"],[("should_log/write/writef/format/stream","logger.hpp"),("add_log_to_buffer","logger.hpp")])
prop("L02","Accepted log entries are written once each and in acceptance order",
"For every file, the entries accepted for it are handed to the log writer exactly once each in the order in which they were accepted, each followed by a newline, whether by the logging thread or when the logger is destroyed; if the file cannot be opened or a file-system operation fails, the unwritten entries stay buffered for a later attempt, and none is written twice. A header is written, when enabled, exactly when the file is empty at the point where an entry is about to be written.",
["histories","schedules","fault_sequences"],"every history of log calls, every interleaving with the logging thread, every failing file operation",
"Interleavings and faults are not controlled by tests.",
["logger.hpp"],[("write_buffer_to_file","logger.hpp"),("start_logging","logger.hpp"),("destructor","logger.hpp")])
prop("L03","The buffer cap is honoured and every discarded log is counted",
"With a non-zero maximum buffer size an accepted log is buffered exactly when its file's buffer holds fewer entries than the maximum, and otherwise it is discarded and the discard counter grows by exactly one; with maximum zero nothing is ever discarded. The logging thread is woken whenever a buffer has reached the flush size.",
["histories","schedules"],"every history of log calls and settings",
"All buffer sizes and histories.",
["logger.hpp"],[("add_log_to_buffer","logger.hpp")])
prop("L04","File rotation shifts numbered files and keeps at most the limit",
"When a file has reached a non-zero rotation size before an entry is written, it is rotated: with limit n the existing contiguous series base, base_1, base_2, ... is shifted up by one, keeping the newest n files as base_1 to base_n and removing the older ones, so that no file's content is overwritten by another and the entry goes to a fresh base file. Files below the rotation size, or with rotation size zero, are never rotated.",
["inputs","histories"],"every rotation limit, every number of existing files, every file size",
"All limits and series lengths.",
["logger.hpp"],[("rotate_file","logger.hpp"),("write_buffer_to_file","logger.hpp")])
prop("L05","Logger state is only touched under its locks and shutdown never hangs",
"Buffers and configured writers are only accessed while holding their lock, or by the logging thread within the part of a buffer no other thread changes, and no lock is held on return or while writing files. A stop request or a reached flush size is never missed by the logging thread about to wait, so destruction always completes.",
["schedules"],"every interleaving of log calls, setters, the logging thread and destruction",
"Interleavings are not controlled by tests; the window of a missed wake-up is a few instructions.",
["logger.hpp"],[("locking in add_log_to_buffer/start_logging/destructor/setters","logger.hpp")])
prop("T01","Thread pool state is only touched under its lock; tasks run unlocked",
"Every access to the pool's shared state happens while holding the pool's mutex, except in the constructor before other threads exist and in the destructor once stopping has been published. Tasks are executed with the mutex released, and no operation returns with it held.",
["schedules"],"every interleaving of pool operations, workers, scheduler and destruction",
"Interleavings are not controlled by tests.",
["thread_pool.hpp"],[("locking in every member","thread_pool.hpp")])
prop("T02","Each queued task runs once, highest priority first, FIFO within a priority",
"A task taken from the queue is always one of the highest priority present and, among those, the one queued first; it is removed from the queue and executed exactly once. Synchronous runs return only after their task has been executed.",
["schedules","histories"],"every history of submissions with any priorities, every interleaving",
"Orders and interleavings are unbounded.",
["thread_pool.hpp"],[("waiting task multimap","thread_pool.hpp"),("start_working/run_async/run_sync","thread_pool.hpp")])
prop("T03","Pool counters always report the true numbers of workers and tasks",
"At every moment the lock is free, the active count equals the number of tasks being executed, and the reported numbers of workers, waiting workers, waiting tasks, scheduled tasks and tasks in total equal the corresponding numbers (waiting workers = workers minus active, tasks = waiting plus active). Worker threads leave only when there are more workers than the target or the pool is stopping, and the target is reached by starting exactly the missing workers.",
["schedules","histories"],"every interleaving and history",
"Interleavings and histories unbounded.",
["thread_pool.hpp"],[("m_activeWorkersSize updates","thread_pool.hpp start_working"),("size accessors","thread_pool.hpp")])
prop("T04","No pool wake-up is ever lost",
"Whenever a task is queued, the pool is resized down or stopping begins, the workers concerned are notified after the change; whenever the queue becomes empty, or the last running task finishes with the queue empty, all threads waiting for that are notified, also when workers are leaving. Every wait is entered only while its condition is false under the lock and waiting functions return only when their condition holds.",
["schedules"],"every interleaving of workers, waiters, scheduler and submitters",
"Missed wake-ups need specific interleavings.",
["thread_pool.hpp"],[("condition variables","thread_pool.hpp")])
prop("T05","Scheduled tasks are queued once, never early, with their priority",
"A scheduled task is moved to the queue exactly once, with the priority given, not before its time and in order of time; run_after schedules relative to the time of the call. A newly scheduled earliest task always wakes or starts the scheduler, and concurrent scheduling calls never start two schedulers.",
["schedules","histories"],"every history of schedule calls, every interleaving",
"Interleavings and times unbounded.",
["thread_pool.hpp"],[("run_at/run_after/start_scheduling","thread_pool.hpp")])
prop("T06","Destroying the pool honours the stop action and joins every thread",
"Once stopping has begun, with the complete-tasks action workers leave only when no task is queued, and with the join-all action no further task is started; running tasks are always finished and every worker and the scheduler is joined before destruction completes.",
["schedules","histories"],"every interleaving of destruction with workers and queued tasks",
"Interleavings unbounded.",
["thread_pool.hpp"],[("destructor/start_working","thread_pool.hpp")])
# outside this family
prop("N01","Every accepted task and log entry is eventually processed",
"With at least one worker and a fair scheduler, every queued task eventually runs and every entry of a buffer that reached its flush size is eventually written.",
["schedules"],"every fair schedule","Liveness over infinite executions.",
["thread_pool.hpp","logger.hpp"],[("worker and logging loops","thread_pool.hpp, logger.hpp")])
prop("N02","Stream-based value conversions round-trip",
"Converting a number to a string and back yields the same number, as far as the stream's precision allows.",
["inputs","configurations"],"every value and global locale","All values.",
["string.hpp"],[("str/wstr/str_to/wstr_to","string.hpp")])
prop("N03","pow and round return the nearest representable result",
"The power and rounding functions return the correctly rounded floating-point result of the mathematical function.",
["inputs"],"every floating point value","All values.",
["value.hpp"],[("pow/round","value.hpp")])
prop("N04","The default log layout is parseable and column-aligned",
"Every line produced by the default writers has its fields in fixed columns separated by a bar and carries the local time of the entry.",
["inputs","configurations"],"every entry, time zone and locale","All entries.",
["logger.hpp"],[("default_log_writer/default_header_writer","logger.hpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
