#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Overflow detectors are exact",
  "For all operands of the type each was made for (32-bit, 64-bit and pointer-sized unsigned), every add and multiply overflow detector answers \"safe\" exactly when the mathematical result fits in the type. The Try forms additionally deliver the exact result when they succeed and leave the output untouched when they fail.",
  ["inputs"], "all pairs of 32-bit and of 64-bit unsigned operands",
  "One test samples two multiplications; no test reaches the additions, the 64-bit forms or the Try functions at all, and the claim is about 2^128 operand pairs.",
  ["amtl/am-bits.h", "amtl/am-arithmetic.h"],
  [("IsUintAddSafe / IsUint32AddSafe / IsUint64AddSafe / IsUintPtrAddSafe", "amtl/am-bits.h"),
   ("IsUintMultiplySafe and its three wrappers", "amtl/am-bits.h"),
   ("TryUint32Add, TryUint64Add, TryUint64Multiply", "amtl/am-arithmetic.h")])
p("C02", "Bit scan, power-of-two and alignment helpers compute their definitions",
  "For every nonzero operand the bit scans return the index of the highest (Log2, leftmost) or lowest (rightmost) set bit, and the power-of-two test holds exactly for powers of two. For every power-of-two alignment, Align returns the smallest multiple that is not below the count (when it is representable), AlignedBase the largest multiple not above the address, and IsAligned holds exactly for multiples. Tag bits set on an aligned pointer are read back exactly and clearing them restores the pointer.",
  ["inputs"], "all 32/64-bit operands, all power-of-two alignments, all tag values below the tag width",
  "Tests sample a handful of constants for the scans and the tag helpers; Log2, Align, AlignedBase, IsAligned and IsPowerOfTwo have none.",
  ["amtl/am-bits.h"],
  [("Log2, FindLeftmostBit32/64, FindRightmostBit", "amtl/am-bits.h"), ("IsPowerOfTwo, Align, IsAligned, AlignedBase", "amtl/am-bits.h"),
   ("SetPointerBits, GetPointerBits, ClearPointerBits", "amtl/am-bits.h")])
p("C03", "Flags and enum operators form the set algebra of their bits",
  "For all values of the underlying type, a flag set's +,|,&,^ and - (and their assigning forms) give exactly the union, union, intersection, symmetric difference and set difference of the operands' bits; truth tests are exactly non-emptiness, and equality is equality of all bits. The free enum operators do the same bitwise operations on the underlying type, without changing any operand of a non-assigning form.",
  ["inputs"], "all pairs of 8/16/32/64-bit flag values",
  "The test uses one three-member enum with a handful of combinations.",
  ["amtl/am-flags.h", "amtl/am-enum.h"],
  [("class Flags", "amtl/am-flags.h"), ("KE_DEFINE_ENUM_OPERATORS / KE_DEFINE_ENUM_COMPARATORS", "amtl/am-enum.h")])
p("C04", "Floating point classification is exact for float and double",
  "For every float and every double, IsNaN holds exactly for NaNs and IsInfinite exactly for the two infinities. FloatModulo returns the C library's floating remainder of its operands, in that order.",
  ["inputs"], "all 2^32 float and 2^64 double bit patterns",
  "No test includes the header.",
  ["amtl/am-float.h"],
  [("IsNaN, IsInfinite, FloatModulo", "amtl/am-float.h"), ("float32_bits / float64_bits", "amtl/am-float.h")])
p("C05", "Bounded string copies never overrun, always terminate, and copy exactly",
  "For every destination size and every source, the bounded copy and append functions write only inside the first maxlength bytes of the destination (append: never past the old terminator when the string already fills them), leave it NUL-terminated, and return the resulting length. The result is the longest prefix of the source (for the counted form, of its first n characters) that fits, appended after the untouched old content for the append form. The copy functions leave a null destination or a zero size alone and give 0.",
  ["inputs"], "all buffers, sizes, offsets and string contents of any length",
  "Tests use one six-byte buffer and a few literals; overruns by one at exact-fit boundaries and unusual sizes are not exercised, and lengths are unbounded.",
  ["amtl/am-string.h"],
  [("SafeStrcpy, SafeStrcpyN, SafeStrcat", "amtl/am-string.h")])
p("C06", "Formatting helpers truncate safely and report the true length",
  "For every outcome of the C library formatter (error, fits, exactly fits, too long), the bounded formatters stay within maxlength, NUL-terminate, and return the number of characters actually present before the terminator. The allocating formatters return exactly the complete formatted text with its exact length, and nothing (or an empty string) if formatting fails.",
  ["inputs"], "all buffer sizes and all formatter outcomes",
  "Tests format two short literals into ample buffers; truncation, exact fit and formatter errors are never reached.",
  ["amtl/am-string.h"],
  [("SafeVsprintf, SafeSprintf", "amtl/am-string.h"), ("SprintfArgsImpl, SprintfArgs, Sprintf, StringPrintf, StringPrintfVa", "amtl/am-string.h")])
p("C07", "Split and Join are inverse",
  "Splitting any string on a non-empty separator yields, in order, exactly the maximal pieces between successive non-overlapping leftmost occurrences of the separator (nothing for the empty string, and a trailing empty piece after a final separator). Joining any pieces yields exactly their concatenation in order with the separator between neighbours and nowhere else, so joining a split gives back the original string.",
  ["inputs"], "all strings, separators and piece lists of any length",
  "Tests use five literal strings with one-character separators.",
  ["amtl/am-string.h"],
  [("Split, Join", "amtl/am-string.h")])
p("C08", "Case conversion and prefix/suffix tests match their definitions",
  "For every string, upper- and lower-casing keep the length and map each character independently through the C library's case mapping, leaving the argument untouched. The prefix test is true exactly when the first string begins with the second, and the suffix test exactly when it ends with the second, including empty and longer second strings.",
  ["inputs"], "all pairs of strings of any length",
  "Tests use single literals; longer-than-haystack and embedded cases are sampled at one or two points.",
  ["amtl/am-string.h"],
  [("Uppercase, Lowercase", "amtl/am-string.h"), ("StartsWith, EndsWith", "amtl/am-string.h")])
p("C09", "Path formatting yields native separators only, inside the buffer",
  "For every format outcome and buffer size, formatting a path writes the formatted text truncated to the buffer with every foreign separator replaced by the native one and every other character unchanged, and returns its length. Nothing outside the buffer is touched.",
  ["inputs"], "all buffer sizes, lengths and contents",
  "The test formats one literal.",
  ["amtl/os/am-path.h"],
  [("path::Format, path::FormatVa", "amtl/os/am-path.h")])
p("C10", "Hash helpers are pure functions of the key bytes",
  "For every input, hashing a character sequence depends only on its length and bytes, never reads outside it, and gives the same value whether the bytes are fed one at a time, in one run or in any chunks. Integer, pointer and combining hashes are deterministic, give the documented mixing values, and perform no operation with undefined behaviour for any input.",
  ["inputs"], "all byte sequences of any length and all 32/64-bit integers",
  "Tests never compare hash values; they only use them inside one table with short ASCII keys.",
  ["amtl/am-hashtable.h"],
  [("CharacterStreamHasher, HashCharSequence, FastHashCharSequence", "amtl/am-hashtable.h"),
   ("HashInt32, HashInt64, HashInteger, HashPointer, HashCombine", "amtl/am-hashtable.h")])
p("C11", "Hash table lookup finds exactly the stored keys",
  "In every reachable table, whatever the hash function's collisions, capacity and mix of free and deleted slots, a lookup of a key finds it exactly when an entry with a matching key is present and then gives that entry. Lookups never modify the table, always terminate, and never compare against or touch a slot that holds no element.",
  ["inputs", "histories"], "all table states satisfying the representation invariant (all capacities, contents, deletions), all keys and hash functions",
  "Two tests insert at most two keys into a table of 16 slots; probe wrap-around, chains through deleted slots and full hash collisions are not reached.",
  ["amtl/am-hashtable.h"],
  [("HashTable::find / lookup", "amtl/am-hashtable.h"), ("Probulator", "amtl/am-hashtable.h"), ("computeHash", "amtl/am-hashtable.h")])
p("C12", "Hash table insertion adds exactly the new element and keeps all others",
  "In every reachable table, finding a place for an absent key and adding there makes that key found with exactly the given contents, keeps every other element with its contents, and raises the element count by one. Finding a place for a present key reports the existing element instead, so a key never occurs twice.",
  ["inputs", "histories"], "all reachable table states, all keys and hash functions, with and without a resize",
  "Tests add two keys; neither the reuse of deleted slots before a later duplicate nor any growth or shrinking of the table is ever exercised.",
  ["amtl/am-hashtable.h"],
  [("HashTable::findForAdd / lookupForAdd", "amtl/am-hashtable.h"), ("HashTable::add / internalAdd / insertUnique", "amtl/am-hashtable.h")])
p("C13", "Hash table removal, clearing and iteration account for every element",
  "Removing an element makes exactly that element absent, destroys it once, lowers the count by one and keeps every other element reachable; clearing leaves an empty table that is still usable. Iteration visits every element exactly once and nothing else, also when visited elements are erased through the iterator, and the reported count always equals the number of elements present.",
  ["inputs", "histories"], "all reachable table states and any subset of erased elements",
  "One test removes one key from a two-key table and iterates once over it; nothing clears a table or erases during iteration.",
  ["amtl/am-hashtable.h"],
  [("HashTable::remove / removeIfExists / removeEntry / clear / elements", "amtl/am-hashtable.h"), ("HashTable::iterator", "amtl/am-hashtable.h")])
p("C14", "Hash table resizing and failure handling preserve contents and ownership",
  "Every resize keeps exactly the same elements, always leaves a free slot so that searches terminate, moves each element exactly once, destroys each moved-from element exactly once and releases the old storage exactly once; destroying the table does the same for what is left. If storage cannot be obtained, the operation reports failure and the table still holds exactly its previous contents and can be used and destroyed.",
  ["inputs", "histories", "fault_sequences"], "all reachable table states, every allocation succeeding or failing",
  "No test makes a table grow or shrink, and none uses a failing allocator.",
  ["amtl/am-hashtable.h", "amtl/am-allocator-policies.h"],
  [("HashTable::changeCapacity / grow / shrink / checkDensity / createTable / init / ~HashTable / HashTable(HashTable&&)", "amtl/am-hashtable.h")])
p("C15", "HashMap and HashSet forward keys, values and state faithfully",
  "Every map and set operation acts exactly like the corresponding table operation on its key: adding a key with a value stores exactly that key and value (a default value when none is given), adding to a set a key that is present changes nothing, and membership, count, removal, clearing and iteration agree with what was added. Moving a map or set transfers all contents and leaves the source empty, and the allocator handed to the constructor is the one used and reported.",
  ["inputs", "histories"], "all reachable map and set states, keys and values",
  "The set header is not included by any test and the map test covers two keys.",
  ["amtl/am-hashmap.h", "amtl/am-hashset.h"],
  [("class HashMap", "amtl/am-hashmap.h"), ("class HashSet", "amtl/am-hashset.h")])
p("C16", "FixedArray owns its elements exactly once and copies by value",
  "For every length and element type, constructing, copying, moving, assigning (including to itself) and destroying fixed arrays constructs and destroys every element exactly once, releases every buffer exactly once and never leaks or reads outside the buffer. Copies have equal length and elements and are independent of the source, a moved-from array is empty, and equality holds exactly for equal lengths and elements. If storage cannot be obtained or the byte size overflows, initialize() is false and the array can still be moved, destroyed or assigned to.",
  ["inputs", "histories", "fault_sequences"], "all lengths and element values, every allocation succeeding or failing",
  "No test includes the header.",
  ["amtl/am-fixedarray.h"],
  [("class FixedArray", "amtl/am-fixedarray.h")])
p("C17", "Maybe holds its value exactly once",
  "For every element type and every sequence of construction, initialisation, copying, moving, assignment (including to itself) and destruction, a Maybe that reports a value contains exactly one live element with the value last stored, and one that does not contains none. Every element constructed inside is destroyed exactly once; copying leaves the source as it was, and moving leaves it empty.",
  ["inputs", "histories"], "all element values and both states of every operand",
  "No test includes the header directly; the argument parser uses it for trivially destructible or string values without checking lifetimes.",
  ["amtl/am-maybe.h", "amtl/am-storagebuffer.h"],
  [("class Maybe, Some", "amtl/am-maybe.h"), ("class StorageBuffer", "amtl/am-storagebuffer.h")])
p("C18", "Reference counts balance and objects die exactly at zero",
  "Every holder of a counted object (smart pointer, or transfer object for an already counted reference) accounts for exactly one reference from when it takes the object until it drops, transfers or replaces it, whichever constructor, assignment (including self-assignment and assignment of something only the old object keeps alive), take or forget is used. The counted object is destroyed exactly when its last reference is released, never while one is still held and never twice.",
  ["inputs", "histories"], "all initial counts, and null, equal and distinct operands of every operation",
  "Tests run a few scripted sequences on single objects; assignment from the held pointer and most assignment forms are not exercised.",
  ["amtl/am-refcounting.h"],
  [("RefPtr", "amtl/am-refcounting.h"), ("AlreadyRefed, AdoptRef", "amtl/am-refcounting.h"), ("Refcounted, VirtualRefcounted", "amtl/am-refcounting.h")])
p("C19", "Thread-safe reference counts are changed by single atomic steps",
  "On the thread-safe counted bases, each AddRef and each Release changes the count by exactly one through one indivisible read-modify-write, whatever other threads do in between; exactly the Release whose step takes the count from one to zero destroys the object, and no other does. The atomic reference cell adds one reference to whatever it hands out or stores and drops the one it replaces, and always leaves the cell unlocked.",
  ["schedules", "inputs"], "all counts observed by the atomic step under any interference; null and non-null cell contents",
  "The tests are single-threaded and cover one object per kind; the virtual variant is never instantiated.",
  ["amtl/am-refcounting-threadsafe.h"],
  [("RefcountedThreadsafe, VirtualRefcountedThreadsafe", "amtl/am-refcounting-threadsafe.h"), ("AtomicRef", "amtl/am-refcounting-threadsafe.h")])
p("C20", "Function owns one copy of its callable and always calls it",
  "For every callable, small enough to be held inline or not, and every sequence of construction, copy, move, assignment (including to itself and of null) and destruction, a function object is non-empty exactly when it holds a callable, and calling it invokes that callable once with exactly the given arguments and returns its result. Each held copy is destroyed exactly once; copies are independent, moves empty the source, and a callable given directly that fits the inline buffer is never put on the heap, nor by moving the function object.",
  ["inputs", "histories"], "empty, inline and heap-held operands of every operation, all arguments",
  "Tests exercise a few lambdas; self-assignment, assignment over held values and copies from non-const or empty objects are not covered.",
  ["amtl/am-function.h"],
  [("class Function", "amtl/am-function.h"), ("FunctionHolder::clone / move / invoke", "amtl/am-function.h")])
p("C21", "InlineList keeps its members, order and length",
  "For lists of any length, appending puts the node last, removing or erasing a node takes out exactly that node, and both keep all other members in their order in both directions, with the reported length and emptiness equal to the actual membership. Forward and reverse traversal visit the members in order and in reverse order, erase returns the position after the erased one in the direction of travel, and a node reports being in a list exactly while it is a member.",
  ["inputs", "histories"], "all lists of any length and any member position",
  "One test handles three nodes.",
  ["amtl/am-inlinelist.h"],
  [("InlineList::append / remove / erase / length / empty", "amtl/am-inlinelist.h"), ("InlineListNode", "amtl/am-inlinelist.h"), ("iterator, reverse_iterator", "amtl/am-inlinelist.h")])
p("C22", "PriorityQueue always serves a highest-priority element and loses none",
  "For every strict weak ordering and every history of adds and pops, peek and pop give an element that no other queued element outranks, pop removes exactly that element, and add inserts exactly the given one; the multiset of queued elements changes in no other way.",
  ["inputs", "histories"], "all heap contents of any size, all orderings",
  "One test pops one fixed sequence of integers.",
  ["amtl/am-priority-queue.h"],
  [("PriorityQueue::add / emplace / pop / peek", "amtl/am-priority-queue.h"), ("propagateUp, propagateDown", "amtl/am-priority-queue.h")])
p("C23", "Scope helpers restore or run exactly once",
  "SaveAndSet installs the new value at once and puts back the old one when it ends; a stack-linked object becomes the head of its chain while it lives and restores the previous head; a scope guard runs its callback exactly once when the last live guard for it ends unless cancelled, also after being moved. ReturnAndVoid returns the old value and leaves a default value behind.",
  ["inputs", "histories"], "all values, cancelled or not, moved or not",
  "Tests cover one lambda guard with and without cancel, and no move, SaveAndSet, StackLinked or ReturnAndVoid.",
  ["amtl/am-raii.h"],
  [("SaveAndSet, StackLinked, ScopeGuard, MakeScopeGuard, ReturnAndVoid", "amtl/am-raii.h")])
p("C24", "Thread-local slots return the calling thread's last value",
  "A thread-local slot reads as the default value until the calling thread stores into it and afterwards as exactly what that thread stored last; a slot obtains at most one system key, reuses it for every access, gives it back exactly once when destroyed, and touches no other key. If no key can be obtained the program is stopped rather than storing elsewhere.",
  ["inputs", "histories"], "all stored values, key values and slot states, system key creation succeeding or failing (accesses from other threads through the system's per-thread keys)",
  "Tests store two pointer values from two threads.",
  ["amtl/am-threadlocal.h"],
  [("class ThreadLocal", "amtl/am-threadlocal.h")])
p("C25", "Time conversions are exact",
  "For every representable timespec, conversion to a duration or a clock time point denotes exactly the same number of nanoseconds as seconds times 10^9 plus nanoseconds (truncated only to the clock's own resolution), including negative seconds, and an epoch value converts to exactly that many ticks of the target time point.",
  ["inputs"], "all timespec values whose seconds part and whole nanosecond count fit 64 bits; all epoch values",
  "One test converts a single current time.",
  ["amtl/am-time.h"],
  [("TimespecToDuration, TimespecToTimePoint, EpochValueToTimePoint", "amtl/am-time.h")])
p("C26", "Vector and deque helpers act on exactly the named elements",
  "For containers of any size and every valid position, popping returns the end element and removes only it, inserting or emplacing puts exactly the new element at the position, removing takes out exactly the element there, and all other elements keep their values and order. Extending moves all of the source, in order, behind the destination's elements and leaves the source empty; conditional erasure removes exactly the elements satisfying the predicate and keeps the rest in order.",
  ["inputs"], "all containers of any size, positions, contents and predicates",
  "Tests use vectors of up to a handful of elements.",
  ["amtl/am-vector.h", "amtl/am-deque.h"],
  [("PopBack, RemoveAt, InsertAt, EmplaceAt, MoveExtend, EraseIf", "amtl/am-vector.h"), ("PopBack, PopFront", "amtl/am-deque.h")])
p("C27", "The argument parser routes every argument as documented and never crashes",
  "For every set of options and every argument vector, parsing hands each option exactly the values written for it (as \"-k v\", \"-k=v\", their long, slash and inline forms where enabled, or the no- prefix), fills positionals in order, collects extra and passthrough arguments where enabled, and stops at a stop option. Apart from a help request, it succeeds exactly when every argument was recognised and accepted, no single-use option repeated and no positional missing, fails otherwise with an error recorded, and never reads beyond the arguments or through a missing option.",
  ["inputs"], "all argument vectors and option sets",
  "About thirty scripted command lines are tested; combinations of forms, flags and error cases are not.",
  ["amtl/experimental/am-argparser.h"],
  [("Parser::parse_impl", "amtl/experimental/am-argparser.h"), ("Parser::find_short / find_long / find_inline_short", "amtl/experimental/am-argparser.h")])
p("C28", "Option values parse strictly, default correctly and reset completely",
  "An option reports the value last parsed for it or else its default: integers are accepted exactly when the whole argument is a number as strtol reads it in base 10 and fits, booleans exactly for true/false or an omitted value, strings exactly when non-empty, toggles become the negated default, and repeatable options collect every value in order. A rejected value changes nothing, and resetting the parser makes the next parse independent of all earlier ones.",
  ["inputs", "histories"], "all argument strings, defaults and earlier parses",
  "Tests parse a few literals per option type and never look at state left over from passthrough, extra or failed parses.",
  ["amtl/experimental/am-argparser.h"],
  [("ValuePolicy<int>, ValuePolicy<bool>, ValuePolicy<std::string>", "amtl/experimental/am-argparser.h"), ("Option, EnableOption, ToggleOption, RepeatOption, Parser::reset", "amtl/experimental/am-argparser.h")])
p("C29", "System wrappers report exactly what the system call said",
  "Path queries are true exactly when the system finds the path and, for file and directory queries, when it has exactly that type; creating a directory succeeds exactly when the system call does. A shared library that opens is returned valid with one reference and is closed exactly once when released, one that fails to open yields null with the system's message in the caller's buffer if there is one and is never closed, and system error text is written only inside the given buffer.",
  ["inputs", "fault_sequences"], "all outcomes of the system calls and all buffer sizes",
  "Tests load one library and one missing file; the file and error helpers are not included by any test.",
  ["amtl/os/am-fsutil-posix.h", "amtl/os/am-shared-library.h", "amtl/os/am-system-errors.h"],
  [("PathExists, IsFile, IsDirectory, CreateDirectory", "amtl/os/am-fsutil-posix.h"), ("SharedLib", "amtl/os/am-shared-library.h"), ("FormatSystemErrorCode, FormatSystemError", "amtl/os/am-system-errors.h")])
p("C30", "Mutex ownership checks agree with who holds the lock",
  "In checked builds, the ownership assertion passes exactly while the calling thread holds the mutex, whether it was taken by a blocking or a successful non-blocking acquisition, and not after it has been released; a failed non-blocking acquisition changes nothing. Each acquisition and release performs exactly one operation on the underlying mutex, and ownership is recorded only while it is held.",
  ["inputs", "histories"], "all sequences of acquisitions and releases, acquisition succeeding or failing, any owner",
  "No test includes the header.",
  ["amtl/am-mutex.h"],
  [("class Mutex", "amtl/am-mutex.h")])
p("C31", "The atomic reference cell is linearizable under real concurrency",
  "Under every schedule and memory order the hardware allows, concurrent reads and replacements of an atomic reference cell behave as if executed one at a time, no thread ever uses an object after it was destroyed, and every spinning thread eventually proceeds when the holder does.",
  ["schedules"], "all schedules and weak-memory executions of any number of threads",
  "The tests are single-threaded.",
  ["amtl/am-refcounting-threadsafe.h"],
  [("AtomicRef::lock / unlock", "amtl/am-refcounting-threadsafe.h")])
p("C32", "A named thread runs its callable exactly once, in the new thread, named",
  "Starting a named thread runs the given callable exactly once with the given arguments in the new thread, after that thread's name was set, under every schedule.",
  ["schedules"], "all schedules and argument types",
  "Only incidental use in the thread-local test.",
  ["amtl/am-thread.h"],
  [("NewThread, SetThreadName", "amtl/am-thread.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
