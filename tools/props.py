#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after an edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}})


C = "common/container/"
p("C01", "The linked list is an exact sequence under every operation history",
  "A list behaves as a finite sequence of its elements: every insert, remove, move and append puts exactly the requested elements at exactly the requested place and leaves the order of all others unchanged, forward and backward traversal agree, and the reported length is the number of elements. Operations given an element or mark of another list, or one already removed, change nothing. The zero value is an empty list ready to use, and copies of another list (or of itself) append its values in order.",
  ["histories", "inputs"], "all sequences of operations on all lists, including elements of other lists, removed elements and self-append",
  "the repository has no test of the list; any test samples a handful of histories, while ring links can be broken by one rare combination (self-append, move to a neighbour, reuse after clear)",
  [C + "list/list.go"], [("circular ring through a sentinel", C + "list/list.go:List"), ("ownership pointer of each element", C + "list/list.go:Element.list")],
  [("ring", "doubly linked ring with sentinel", C + "list/list.go:List.root")], ["public methods of the list and its elements"])
p("C02", "Deque and stack keep double-ended and last-in-first-out order",
  "A deque returns from either end exactly the value most recently pushed at that end that is still present, keeping every other value in order; a stack returns values in reverse order of their pushes. Reported length and emptiness always equal the number of values pushed and not yet popped.",
  ["histories", "inputs"], "all interleavings of pushes and pops at both ends", "no test exists for these types; order has to hold after every history",
  [C + "deque/deque.go", C + "stack/stack.go", C + "list/list.go"], [("delegation to the linked list", C + "deque/deque.go"), ("delegation to the linked list", C + "stack/stack.go")])
p("C03", "The binary heap and priority queue always yield a minimum and lose nothing",
  "For any strict weak ordering, peeking and popping return an element that no element of the heap precedes, after every sequence of builds, pushes, pops, removals by index and fix-ups. The multiset of stored elements changes by exactly the element pushed or returned, and removing by index returns the element that was at that index.",
  ["histories", "inputs"], "all element types, orderings, initial slices and operation sequences", "no test covers the heap; heap order is a property of all shapes and sizes of the array",
  [C + "heap/heap.go", C + "pqueue/pqueue.go"], [("sift up and sift down", C + "heap/heap.go"), ("heapify bottom-up", C + "heap/heap.go:New")],
  [("backing array", "children of i at 2i+1 and 2i+2 never precede i", C + "heap/heap.go:Heap.h")])
p("C04", "The n-ary heap always yields a minimum and loses nothing, for every arity",
  "For every arity of at least two and any strict weak ordering, peeking and popping return an element that no stored element precedes after every sequence of builds, pushes, pops, removals and fix-ups. The multiset of stored elements changes by exactly the element pushed or returned.",
  ["histories", "inputs", "configurations"], "all arities, element types, orderings and operation sequences", "no test covers the n-ary heap; the arity multiplies the shapes to cover",
  [C + "heap/heapn.go"], [("sift up and sift down with n children", C + "heap/heapn.go")])
p("C05", "The keyed heap keeps one entry per key and always yields the minimum",
  "After any sequence of insertions, overwrites, removals and pops, each key has at most one entry, lookups return the value last stored for the key, and peeking and popping return an entry whose value no stored value precedes. Popping or removing deletes exactly that key and leaves every other key with its value.",
  ["histories", "inputs"], "all key and value types, orderings and histories", "no test covers it; consistency between the map and the heap positions must hold after every history",
  [C + "meap/maep.go"], [("index map from key to heap position", C + "meap/maep.go")], [("heap and index", "every key maps to the position of its own entry", C + "meap/maep.go")])
p("C06", "Handles into the removable heap stay exact until removal",
  "A handle returned on insertion keeps designating its own element through every later operation on the heap: removing or fixing through it affects exactly that element, and removing twice has no further effect. Peeking and popping return an element that no stored element precedes, and nothing else is lost or duplicated.",
  ["histories", "inputs"], "all histories of pushes, pops, removals and updates through handles", "no test covers it; a stale position in a handle only shows after particular histories",
  [C + "reap/reap.go"], [("position stored in each handle", C + "reap/reap.go")])
ring = "is a first-in-first-out queue: single and bulk reads return values in exactly the order in which single and bulk writes stored them, none lost, duplicated or invented, wherever the indices have wrapped to."
p("C07", "The fixed-size ring buffer is an exact bounded queue",
  "The fixed-size ring buffer " + ring + " A bulk write stores exactly the longest prefix that fits, and a bulk read returns exactly the requested count or everything available. Length, free space, emptiness and fullness always match the stored values, capacity never changes, and reading an empty or writing a full buffer panics without changing it.",
  ["histories", "inputs", "configurations"], "all capacities, wrap positions, bulk sizes and histories", "no test covers the ring; wrap-around faults need particular offsets of the indices relative to the capacity",
  [C + "ringbuffer/fix/fix.go"], [("modulo indexing with monotonic counters", C + "ringbuffer/fix/fix.go")])
p("C08", "The power-of-two ring buffer is an exact bounded queue",
  "The power-of-two ring buffer rounds the requested capacity up to the nearest power of two and " + ring + " A bulk write stores exactly the longest prefix that fits. Length, free space, emptiness and fullness always match the stored values.",
  ["histories", "inputs", "configurations"], "all requested capacities, wrap positions, bulk sizes and histories", "no test covers it; masking is only equivalent to modulo when the capacity is a power of two, for every index",
  [C + "ringbuffer/round/roud.go", "common/math/math.go"], [("mask indexing", C + "ringbuffer/round/roud.go")])
p("C09", "The unbounded ring buffer grows without losing or reordering values",
  "The unbounded ring buffer " + ring + " Growing, whether explicit or implied by a write, preserves every stored value and its order and never reduces the capacity. Every operation also works on a buffer created with capacity zero.",
  ["histories", "inputs", "configurations"], "all initial capacities (zero included), wrap positions at the moment of growth, and histories", "no test covers it; growth has to be right for every wrap position",
  [C + "ringbuffer/unbounded/unbounded.go"], [("relocation on growth", C + "ringbuffer/unbounded/unbounded.go:Grow")])
p("C10", "The set is an exact set",
  "Membership is true exactly for the values added and not removed since; removing an absent value changes nothing. The reported size is the number of distinct members.",
  ["histories", "inputs"], "all element types and histories", "no test covers it", [C + "set/set.go"], [("map keys as members", C + "set/set.go")])
p("C11", "The shared map is linearizable and its test-and-set has one winner",
  "Locked operations of the shared map act as one atomic step each: readers and writers never see or leave a half-done change, and every lock taken is released on every path. Test-and-set stores only when the key is absent and otherwise returns the present value unchanged, so among concurrent callers exactly one stores. Reading from a never-written map reports no value and length zero.",
  ["schedules", "histories", "inputs"], "all interleavings of callers and all histories", "no test covers it; schedules cannot be enumerated by tests",
  ["help/utils/maps.go"], [("reader-writer lock around each operation", "help/utils/maps.go")])
p("C12", "The Bloom filter never denies a value that was added",
  "Once a value has been added, every later membership query for it answers possibly-present, whatever else is added, until the filter is cleared. The hash, byte and string forms of adding and querying agree with each other, and no query or addition panics on a filter built with a positive capacity and a rate strictly between zero and one.",
  ["histories", "inputs", "configurations"], "all values, seeds, sizes and histories", "no test covers it; a false negative shows only for particular hash and seed residues",
  ["common/filter/bloom/bloom.go"], [("bits are only ever set by additions", "common/filter/bloom/bloom.go:Add")])
p("C13", "Hashing is deterministic and history-independent within an instance",
  "One hasher returns the same value for the same bytes every time, regardless of what was hashed before, and the string form returns exactly the value of the byte form for the same bytes.",
  ["histories", "inputs"], "all inputs and all previously hashed inputs", "the test hashes one value on a fresh hasher", ["common/hash/hash.go"], [("reset before every sum", "common/hash/hash.go:Sum64")])
p("C14", "Integer helpers are exact at every width and value",
  "For every unsigned value: the power-of-two test is true exactly for powers of two, rounding up gives the least power of two not below the value and rounding down the greatest not above it whenever representable, and the last-set-bit helper gives the position of the highest set bit. Maximum, minimum and absolute value are exact; splitting a count into parts gives a size and a last size that exactly cover the count.",
  ["inputs"], "all values of the integer types", "no test covers them; errors sit at boundaries of each width", ["common/math/math.go"], [("bit arithmetic", "common/math/math.go")])
p("C15", "The fixed-window limiter never exceeds its limit within one window",
  "In every window of the configured length the limiter grants at most the configured number of requests, and it refuses only when the current window has already granted that many. A new window starts exactly when more than the window length has passed since the current one started; concurrent callers are granted as if one after another.",
  ["schedules", "histories", "configurations"], "all limits, windows, timings and interleavings of callers", "the test samples one limit with real sleeps",
  ["common/limiter/fixed_window/fixed_window.go"], [("counter and window start under a mutex", "common/limiter/fixed_window/fixed_window.go")])
p("C16", "The leaky and token buckets admit exactly by their level",
  "The leaky bucket grants a request exactly when its level, lowered by the drain rate for every whole second passed since the last drain and never below zero, is under the peak, and each grant raises the level by one. The token bucket grants exactly when it holds a token after refilling by its rate for every whole second passed, never above capacity, and each grant takes one. Refusals change no level; concurrent callers are served one after another.",
  ["schedules", "histories", "configurations"], "all levels, rates, timings and interleavings", "the test samples one configuration with real sleeps; the token bucket has no test",
  ["common/limiter/leaky_bucket/leaky_bucket_limiter.go", "common/limiter/token_bucket/token_bucket.go"], [("level update under a mutex", "common/limiter/leaky_bucket/leaky_bucket_limiter.go")])
p("C17", "The sliding-window limiter grants at most its limit in any sliding window",
  "At every grant, the number of requests granted in the current window, counted in whole slots ending with the current slot, is at most the limit, and a request is refused only when that count has reached the limit. Expired slots stop counting and are forgotten; no grant is counted in two slots or lost. Construction refuses a window that is not a whole number of slots.",
  ["schedules", "histories", "configurations"], "all limits, windows, timings and interleavings", "no test covers it", ["common/limiter/sliding_window/sliding_window.go"], [("per-slot counters under a mutex", "common/limiter/sliding_window/sliding_window.go")])
p("C18", "The multi-rule sliding log enforces every rule and names the broken one",
  "A request is granted only if every configured rule has room in its own window, and a refusal reports a rule that is really full. A limiter is built only from at least one rule, all whole numbers of slots, with smaller windows having smaller limits; a built limiter is unaffected by what the caller does with the given rules and never alters them.",
  ["schedules", "histories", "configurations"], "all rule sets, timings and interleavings", "no test covers it", ["common/limiter/sliding_log/sliding_log.go"], [("per-slot counters and sorted rules", "common/limiter/sliding_log/sliding_log.go")])
p("C19", "The delay queue delivers each item once, in due order, never early",
  "An item is delivered at most once and only when its delay has elapsed, and an item that is due is delivered before any item due later. Polling returns nothing while nothing is due; peeking shows an item with the earliest due time. Cancelling a waiting consumer never blocks later producers.",
  ["schedules", "histories", "fault_sequences"], "all delays, interleavings of producers and consumers, and cancellations", "no test covers it; the wake-up protocol fails only for particular schedules",
  ["common/timer/delayqueue/delayqueue.go"], [("heap by due time under a mutex, with a sleeping flag and a wake-up channel", "common/timer/delayqueue/delayqueue.go")])
p("C20", "The timing wheel files every timer in the bucket of its due tick",
  "A timer due at least one tick in the future is filed in exactly one bucket whose expiry is the timer's due time rounded down to the tick of the level it fits in, so it can never run more than that tick early or be lost; one that is already due is run at once. The wheel's clock never moves backwards, and stopping a timer reports success exactly when it was still filed and then removes it.",
  ["histories", "inputs", "configurations"], "all ticks, wheel sizes, current times and due times", "no test covers it; level boundaries are reached by rare delays only",
  ["common/timer/timingwheel/timing_wheel.go", "common/timer/timingwheel/bucket.go", "common/timer/timingwheel/delayqueue.go"], [("cascading wheels with one delay queue of buckets", "common/timer/timingwheel/timing_wheel.go")])
p("C21", "Split batch writes cover every record exactly once",
  "A split insert hands every record to exactly one batch, in order, with no batch needing more placeholders than the database allows, and a split update hands every id to exactly one batch. An error of any batch is returned and stops later batches; an empty request touches nothing. Batches whose records do not share the same fields are refused and never written incompletely.",
  ["inputs", "fault_sequences"], "all record counts, field counts and failing batches", "no test covers it (a database is needed); chunk boundaries matter at particular counts only",
  ["gorm_tools/gorm.go", "gorm_tools/update.go"], [("chunking loop", "gorm_tools/gorm.go:SplitInsertTableRecords"), ("chunking loop", "gorm_tools/update.go")])
p("C22", "Text and binary codecs round-trip every value",
  "Decoding what the base64 encoders produce gives back exactly the original bytes, for strings and byte slices alike; integers converted to text and back are unchanged; all digest helpers give the same digest for the same bytes, whether passed as text, bytes, a stream or a file.",
  ["inputs"], "all byte strings and integers", "no test covers them", ["help/utils/base64.go", "help/utils/ints.go", "help/utils/strings.go", "help/utils/md5.go"], [("standard encodings", "help/utils/base64.go")])
p("C23", "Encryption round-trips and rejects malformed ciphertext without crashing",
  "Decrypting what was encrypted under the same key returns exactly the original bytes, for every plaintext and every valid key length, and encryption leaves the caller's buffer untouched. Decrypting anything else, and using a key of a wrong length, returns an error or some bytes and never panics.",
  ["inputs"], "all plaintexts, keys and ciphertexts", "no test covers it; paddings and truncated ciphertexts are a large input space",
  ["help/utils/md5.go"], [("block padding", "help/utils/md5.go:pkcs7Padding")])
p("C24", "Masking hides what it must and never crashes",
  "Every masking helper returns for every input, valid text in any script included, without panicking, and shows no character of the hidden range. Names of up to four characters are reduced to the documented visible characters, phone, card and id numbers keep their length with exactly the configured range replaced, and shorter ones are returned unchanged.",
  ["inputs"], "all strings and mask lengths", "no test covers them; multi-byte text and short inputs break length arithmetic", ["help/utils/strings.go"], [("rune slicing", "help/utils/strings.go")])
p("C25", "File helpers leave exactly the requested content and report failures",
  "Copying, writing rows and assembling an upload leave the destination holding exactly the requested content, whatever it held before, and every failure of an underlying operation is reported to the caller. An upload is assembled only when every part is present, in part order.",
  ["inputs", "fault_sequences", "histories"], "all contents, prior states of the destination and failing operations", "no test covers them; file-system failures are not exercised",
  ["help/utils/files.go", "help/utils/csv.go", "help/utils/breakpoint_continue.go", "help/utils/zip.go"], [("open flags and error returns", "help/utils/files.go")])
p("C26", "Paths derived from untrusted names stay inside their directory",
  "Extracting an archive writes only below the destination directory, whatever names the archive holds; storing, assembling and deleting upload parts touch only the upload directories, whatever names the client sends.",
  ["inputs"], "all archive entry names, upload names and digests", "no test covers it; hostile names are the point", ["help/utils/zip.go", "help/utils/breakpoint_continue.go", "help/utils/files.go"], [("path joining", "help/utils/zip.go:Unzip")])
p("C27", "Option switches, random text and small formatters honour their contract",
  "A switch is on unless explicitly set off, and setting it changes exactly that switch. Random text has the requested length and only characters of the requested class. Formatted sizes are chosen from the requested size with the matching unit, the first letter is upper-cased with the rest kept, and same-site checks accept no address of another site.",
  ["inputs"], "all inputs", "no test covers them", ["help/utils/maps.go", "help/utils/rand.go", "help/utils/strings.go", "help/utils/files.go", "help/utils/math.go"], [("pure functions", "help/utils")])
p("C28", "The Bloom filter's false-positive rate stays near the configured one",
  "With no more values added than the configured capacity, the fraction of absent values reported as possibly present stays close to the configured rate.",
  ["inputs", "configurations"], "all capacities and rates, random values", "a statistical statement about hash distribution", ["common/filter/bloom/bloom.go"], [("size and hash count formulas", "common/filter/bloom/bloom.go:New")])
p("C29", "Waiting consumers of the delay queue and wheel are eventually served",
  "A consumer waiting on the delay queue or a running timing wheel is eventually served after an item becomes due, under every schedule, and time-outs fire close to their due time.",
  ["schedules"], "all fair schedules", "liveness under all schedules cannot be tested", ["common/timer/delayqueue/delayqueue.go", "common/timer/timingwheel/timing_wheel.go"], [("wake-up channel and timers", "common/timer/delayqueue/delayqueue.go")])

exec(open(os.path.join(HERE, "tools", "claims.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
TRUST = "For all inputs and all iterations of the functions under contract; trusts the SSA exporter, the verification-condition generator (gover), z3 and cvc5, and the assumptions of DESIGN.md. "
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for x in P:
    i = x["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i, "thorough_cmd": "python3-vt check.py %s thorough" % i,
                            "technique": "contract-based deductive verification of the Go SSA of /repo (weakest-precondition VCs, z3/cvc5)",
                            "level": "proof", "level_note": (TRUST + CLAIMED[i]).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
m["notes"] = "See DESIGN.md. VERIF_REPO=<dir> runs a check against a scratch copy (development only)."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not claimed")
