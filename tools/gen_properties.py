#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place; run by hand, not by a check)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Consumers sharing a bounded iterator get every element exactly once",
  "Whenever several consumers share one iterator over a bounded range or bounded set and their calls (take from the front, take from the back, skip ahead from either end, ask for the remaining size, abandon) are interleaved in any order, each element of the range or set that is not skipped is delivered exactly once, in ascending order at the front and descending order at the back. The two ends never cross, the reported remaining size is always exact, and once the iterator reports the end it keeps reporting it. This holds for every element type the crate can step, and for sets produced by any sequence of unions, intersections and complements.",
  ["schedules", "histories", "configurations"],
  "All interleavings of front, back, skipping, measuring and finishing calls by any number of consumers, over iterators of every bounded range or set reachable by set operations, for every steppable element type.",
  "The iterator tests make a fresh iterator per assertion and call one method on it, or next() in a row on a 2-4 element i32 range; no test mixes the two ends, skips across a piece boundary from both sides, re-reads the size after partial consumption, or uses another element type.",
  ["src/bounded_range.rs", "src/bounded_set.rs", "src/step.rs"],
  [("BoundedRangeIter::{next,next_back,nth,nth_back,size_hint,count,last,min,max}", "src/bounded_range.rs"),
   ("BoundedSetIter::{next,next_back,nth,nth_back,size_hint,count,last,min,max}", "src/bounded_set.rs"),
   ("Step for the integers and char", "src/step.rs")],
  state=[("remaining first/last", "what one piece still has to deliver", "src/bounded_range.rs"),
         ("range_iters", "pieces still to be delivered, ascending", "src/bounded_set.rs")],
  observe=["Iterator, DoubleEndedIterator, ExactSizeIterator and FusedIterator methods of BoundedRangeIter and BoundedSetIter"])

p("C02", "Consumers sharing an endless iterator see one gap-free ascending stream",
  "Whenever several consumers share one iterator over a range or set that has a lower bound but no upper bound and their taking and skipping calls are interleaved in any order, the calls together yield the elements of the set in strictly ascending order with no element lost, repeated or invented except those explicitly skipped. The iterator never reports an end before the element type's last value is reached, including when a skip starts inside the finite leading pieces and lands in the endless tail.",
  ["schedules", "histories", "configurations"],
  "All interleavings of take, skip and adaptor calls by any number of consumers over every lower-bounded range or set reachable by set operations, for every steppable element type.",
  "Tests call next() two or three times, or nth() with two fixed arguments, on a set with at most one finite piece.",
  ["src/lower_bounded_range.rs", "src/lower_bounded_set.rs", "src/bounded_set.rs"],
  [("LowerBoundedRangeIter::{next,nth,min,size_hint}", "src/lower_bounded_range.rs"),
   ("LowerBoundedSetIter::{next,nth,min,size_hint}", "src/lower_bounded_set.rs"),
   ("LowerBoundedSet::defragment", "src/lower_bounded_set.rs")],
  state=[("set_iter/range_iter", "finite leading pieces, then the endless tail", "src/lower_bounded_set.rs")],
  observe=["Iterator methods of LowerBoundedRangeIter and LowerBoundedSetIter"])

p("C03", "An iterator checkpoint resumes exactly where it was taken, after any crash",
  "A copy of an iterator taken at any moment is a durable checkpoint: if the consumer dies at any later point, including in the middle of a call, resuming from the copy delivers exactly the elements that were outstanding when the copy was taken, in the same order and from either end. Progress made on the original never shows in the copy, nor the reverse, and the range or set the iterator came from can be iterated again from the start with the same result.",
  ["crash_points", "histories", "schedules"],
  "Every crash point (between calls or inside one), every checkpoint age, every number of crash/resume generations, for all four iterator types.",
  "No test clones an iterator at all, let alone uses original and clone alternately or abandons one in the middle of a call.",
  ["src/bounded_range.rs", "src/bounded_set.rs", "src/lower_bounded_range.rs", "src/lower_bounded_set.rs"],
  [("Clone of the iterator types", "src/bounded_range.rs, src/bounded_set.rs, src/lower_bounded_range.rs, src/lower_bounded_set.rs"),
   ("IntoIterator for the range and set types", "same files")],
  observe=["Clone + Iterator/DoubleEndedIterator of the four iterator types", "IntoIterator of the range and set types"])

p("C04", "A failing element operation never makes an iterator lose or repeat elements",
  "If a comparison or stepping operation of a caller-supplied element type fails (panics) during a call on an iterator, the iterator stays usable: a failed take or size query consumes nothing, so retrying it delivers the very element it would have delivered, and a failed skip consumes at most the elements that skip was asked to pass. After the failures stop, draining the iterator yields every remaining element exactly once, in order, in as many calls as there are elements.",
  ["fault_sequences", "histories"],
  "Every placement of any number of failures among the element operations an iterator performs, in every history of calls on all four iterator types.",
  "Tests only use i32 (and one i128), whose operations cannot fail, so no test executes an iterator call that is interrupted half-way.",
  ["src/bounded_range.rs", "src/bounded_set.rs", "src/lower_bounded_range.rs", "src/lower_bounded_set.rs"],
  [("cursor is overwritten only after the new value has been computed", "next/next_back/nth/nth_back in the four iterator files"),
   ("exhausted pieces are dropped before an element is taken", "src/bounded_set.rs")],
  observe=["iterator methods after catch_unwind around a failing call"])

p("C05", "A failing element operation aborts one set operation and damages nothing else",
  "If a comparison of a caller-supplied element type fails (panics) in the middle of a membership test, union, intersection, complement, overlap test or conversion, only that call is aborted: every range and set the caller still holds, including the sources of copies handed to the failed call, keeps exactly the same members and iteration order, and every later operation, including a retry of the failed one, gives the set-theoretically correct result. This stays true however many failures accumulate.",
  ["fault_sequences", "histories"],
  "Every placement of any number of failures among the element comparisons of any history of set operations over all range and set types.",
  "Tests use only element types whose comparisons cannot fail, and each test performs one operation on fresh operands; none looks at the state left behind by an aborted operation.",
  ["src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs", "src/implementations/union", "src/implementations/intersection", "src/implementations/complement"],
  [("operations own their operands and share no state", "src/implementations/{union,intersection,complement}"),
   ("add_range/defragment restore the non-overlapping invariant", "src/bounded_set.rs, src/lower_bounded_set.rs, src/upper_bounded_set.rs, src/unbounded_set.rs")],
  observe=["contains, is_empty, disjoint, intersects, union, intersection, complement, to_set, into_iter on values held across a caught failure"])

p("C06", "Callers sharing ranges and sets across threads or re-entrantly are isolated",
  "Any number of callers may use the same range and set values at the same time, from different threads, from interleaved tasks on one thread, or re-entrantly from inside an element comparison. Under every interleaving each caller's membership tests, emptiness and overlap tests, unions, intersections, complements and iterations return exactly the set-theoretically correct result, the same as if that caller ran alone, and shared values never change.",
  ["schedules", "histories"],
  "All interleavings, at the granularity of single memory accesses and element operations, of any number of callers running any histories of operations on shared values of all range and set types.",
  "The tests are single-threaded and sequential; none shares a value between threads or runs one operation while another is in progress.",
  ["src/lib.rs", "src/bounded_range.rs", "src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs", "src/implementations/union", "src/implementations/intersection", "src/implementations/complement"],
  [("values are immutable once built and hold no shared or interior-mutable state", "all range and set types"),
   ("operations take their operands by value and return fresh ones", "src/implementations")],
  observe=["the Rangetools methods, contains and into_iter of all range and set types, called concurrently and re-entrantly"])

p("C07", "Saving and loading through failing storage is all or nothing",
  "With the serde feature, saving a range or set to storage that returns errors, accepts short writes, is interrupted, fills up or crashes part-way either reports failure or leaves data from which exactly the saved value is loaded again: equal, with the same members and the same iteration. Loading through a source that delivers short or interrupted reads yields that same value, and loading from data that stops early, lacks a required component (a bound of a range, the open end or the list of pieces of a set) or fails to read yields an error, never a value.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every storage fault sequence and crash point while saving and loading, for every range, set and bound value, over self-describing and positional encodings.",
  "No test exercises serde at all; the suite only compiles the derives.",
  ["src/bound.rs", "src/bounded_range.rs", "src/bounded_set.rs", "src/lower_bounded_range.rs", "src/lower_bounded_set.rs", "src/upper_bounded_range.rs", "src/upper_bounded_set.rs", "src/unbounded_range.rs", "src/unbounded_set.rs", "src/empty_range.rs"],
  [("Serialize/Deserialize implementations under the serde feature", "all range, set and bound types")],
  observe=["serde Serialize/Deserialize of every type, driven through JSON, CBOR and bincode readers and writers"])

p("C08", "Data damaged in storage never loads into a malformed set",
  "With the serde feature, whatever stored data is presented for loading (altered, reordered, duplicated or dropped parts, or pieces that overlap or are out of order), loading either reports an error or yields a well-formed value. A loaded set iterates in strictly ascending order without repeats, its iteration and size agree with its membership test, and every later operation on it gives the result that membership implies.",
  ["fault_sequences", "inputs"],
  "Every kind and combination of damage to the stored form of every set and range value, followed by any history of operations on what was loaded.",
  "No test exercises serde at all.",
  ["src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs"],
  [("pieces are kept non-empty, ordered and non-overlapping; the field is private to enforce it", "src/bounded_set.rs, src/lower_bounded_set.rs"),
   ("Deserialize restores that invariant", "same files")],
  observe=["Deserialize, then contains, into_iter and set operations on the loaded value"])

p("C09", "Iteration is exact at the ends of the domain for any legal stepping type",
  "The stepping contract lets an element type panic, wrap or saturate when asked to step past its last value. Iterating a bounded range or set, from either end and with skips of any length, delivers exactly its elements and then ends, identically under all three reactions and in builds with and without overflow checks, even when the range touches the smallest or largest value, is empty there, or has more elements than a machine word can count.",
  ["configurations", "histories"],
  "All three permitted overflow reactions (chosen independently at every overflow), every position of a range relative to the ends of its domain, every call history.",
  "Tests use i32 ranges between 0 and 20, far from any end of the domain, in one build profile, where no step can overflow.",
  ["src/bounded_range.rs", "src/bounded_set.rs", "src/step.rs"],
  [("steps that may leave the domain are checked", "BoundedRangeIter and its construction, src/bounded_range.rs"),
   ("forward/backward/forward_checked/backward_checked/steps_between", "src/step.rs")],
  observe=["iterator methods over ranges that touch the ends of the element type's domain"])

p("C10", "Every operation makes progress: work is bounded by the number of pieces",
  "Once element failures stop, every set operation completes after a number of element comparisons bounded by a small polynomial in the number of contiguous pieces of its operands, and every single iterator call (taking, skipping any distance, measuring, counting, finding the last, smallest or largest) completes after a number of element operations (over the built-in element types: an amount of work) bounded by the number of pieces, independent of how many elements the range or set holds or the call passes. No operation loops or recurses without end, and none needs more stack than a small thread has, however many pieces its operands have.",
  ["histories", "fault_sequences", "schedules"],
  "All histories of operations, with and without earlier element failures, over operands with any number of pieces and up to astronomically many elements.",
  "Tests count no work and use operands with at most three pieces and a handful of elements.",
  ["src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs", "src/bounded_range.rs", "src/step.rs"],
  [("each turn of the loops in add_range and defragment removes a piece", "src/bounded_set.rs, src/lower_bounded_set.rs, src/upper_bounded_set.rs, src/unbounded_set.rs"),
   ("nth/nth_back/count/last/min/max jump instead of stepping", "src/bounded_range.rs, src/bounded_set.rs")],
  observe=["number of element comparisons and steps performed by each call, counted by the element type", "completion on a thread with a small stack"])

p("C18", "Memory follows the pieces of the values held, whatever fails",
  "Memory is bounded by what the caller holds: a range or set operation takes memory bounded by a small polynomial in the number of contiguous pieces of its operands, an iterator holds and uses memory proportional to the pieces it was made from, however many elements it delivers, and loading stored data (serde feature) takes memory in proportion to the data actually present, whatever lengths it claims. When values, iterators and copies are dropped everything is given back, also after operations, iterations or loads that were aborted by failing element operations or failing storage; repeating the same history any number of times needs no more memory than doing it a few times.",
  ["histories", "fault_sequences"],
  "All histories of operations, iterations, checkpoints, loads and drops over all range and set types, with any failures injected into element operations and storage.",
  "No test observes memory, aborts an operation half-way, iterates more than a few elements or loads anything.",
  ["src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs", "src/bounded_range.rs", "src/lower_bounded_range.rs"],
  [("sets hold pieces, never elements; iterators hold the pieces still to be delivered", "src/bounded_set.rs, src/bounded_range.rs"),
   ("operations own their operands, so that unwinding frees them", "src/implementations"),
   ("Deserialize goes through serde's own bounded preallocation", "src/bounded_set.rs")],
  observe=["bytes allocated and freed during and after each call, counted by the simulator's allocator"])

p("C19", "Replicas that merge ranges and sets converge; differences transfer exactly once",
  "Nodes that keep ranges and sets, merge what they receive by union and work out what a peer lacks as the intersection with the complement of what it has, can rely on it under every order of delivery: merging is insensitive to order, repetition and grouping, also when what is merged was saved and loaded in between, so replicas which have received the same contributions hold exactly the same elements, no contribution is lost and none invented. A computed difference holds exactly the elements the one has and the other lacks, is reported disjoint from what the other has, and iterates over exactly those elements, so that a transfer driven by such differences delivers every element exactly once and finishes once faults stop; a difference of equal replicas is reported empty.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "All delivery orders, losses, duplications, delays, partitions, crashes and restarts of any number of nodes exchanging ranges and sets of all types.",
  "Each test performs one operation on fresh constants; none merges in different orders, repeats a merge, or feeds the result of one operation into a longer history.",
  ["src/implementations/union", "src/implementations/intersection", "src/implementations/complement", "src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs"],
  [("unions normalise to ordered, non-overlapping pieces", "add_range, add_set and defragment of the set types"),
   ("differences as intersections with complements", "src/implementations/intersection, src/implementations/complement"),
   ("Serialize/Deserialize", "the set types")],
  observe=["union, intersection, complement, disjoint, intersects, is_empty, contains, into_iter and serde of values exchanged between nodes"])

p("C20", "Releases can be mixed: data saved by one loads in the other",
  "With the serde feature, the saved form of ranges, sets and bounds is stable from release 0.1.4 (the code as it stands) on: whatever one release saved, in a self-describing (JSON, CBOR) or positional (bincode) format, the other loads as the same bounds or as a set with exactly the same members. So nodes can be upgraded, rolled back and restarted in any order, exchange ranges and sets with nodes of the other release all the while, and lose or gain no element.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "All orders of upgrades, rollbacks, crashes, failed starts, messages and saves of any number of nodes, over all serialisable types, in every format.",
  "No test saves or loads anything, and a test within one release cannot see that the saved form has changed: saving and loading change together.",
  ["src/bound.rs", "src/bounded_range.rs", "src/bounded_set.rs", "src/lower_bounded_range.rs", "src/lower_bounded_set.rs", "src/upper_bounded_range.rs", "src/upper_bounded_set.rs", "src/unbounded_range.rs", "src/unbounded_set.rs", "src/empty_range.rs"],
  [("derived Serialize/Deserialize: names and order of fields and variants", "all range, set and bound types"),
   ("deserialize_ranges", "src/bounded_set.rs")],
  observe=["Serialize and Deserialize of every range, set and bound type"])

p("C21", "Replicas that apply the same log hold identical values at every position",
  "The result of an operation depends on nothing but its operands. Replicas that apply the same sequence of unions, intersections, complements, conversions and queries, each on a thread of its own, at its own pace and time of day, with its own randomness, with other work and with failed and retried operations in between, and after crashes from which they recover by loading a saved state and applying the rest of the sequence, hold values that compare equal, hash alike, are saved as the same bytes and iterate alike at every position of the sequence, and give the same answers.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "All logs of operations over values of all types, and all interleavings, failures, crashes, recoveries and unrelated work of any number of replicas.",
  "A test performs an operation once, in one process at one time; that doing it again elsewhere, later, after other work or from a loaded operand gives the identical value takes two histories to see.",
  ["src/implementations/union", "src/implementations/intersection", "src/implementations/complement", "src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs"],
  [("unions normalise to ordered, non-overlapping pieces", "add_range, add_set and defragment of the set types"),
   ("equality, hashing and saving of the pieces as they are", "derives of the set types"),
   ("deserialize_ranges keeps well-formed pieces as they are", "src/bounded_set.rs")],
  observe=["==, Hash, Serialize, into_iter, contains, is_empty, disjoint of the values replicas hold"])

# ---- pure functions of their input: stated for completeness, not applicable to this technique
p("C11", "Union, intersection and complement compute the set-theoretic result",
  "For all operands, an element is a member of a union exactly when it is a member of either operand, of an intersection exactly when it is a member of both, and of a complement exactly when it is not a member of the operand. Two operands are reported disjoint exactly when their intersection is empty.",
  ["inputs"], "All pairs of operands of all range and set types over all ordered element types.",
  "Tests sample a few constant operands per pair of types.",
  ["src/implementations/union", "src/implementations/intersection", "src/implementations/complement", "src/lib.rs"],
  [("RangeUnion, RangeIntersection, RangeComplement implementations", "src/implementations")])
p("C12", "Membership and emptiness agree with the bounds",
  "A bounded range contains exactly the elements on the permitted side of both bounds, and is reported empty exactly when its bounds leave no room between them. A set contains exactly the elements of its pieces.",
  ["inputs"], "All bounds and probe elements.", "Tests sample a few.",
  ["src/bounded_range.rs", "src/implementations/rangetools"], [("contains, is_empty", "src/bounded_range.rs, src/implementations/rangetools")])
p("C13", "Lower and upper bounds are totally ordered by what they admit",
  "Lower bounds compare as the sets of elements they admit shrink, upper bounds as they grow: at equal values an included lower bound is less than an excluded one and an excluded upper bound is less than an included one. The order is total and consistent with equality.",
  ["inputs"], "All pairs and triples of bounds.", "Tests sample a few.",
  ["src/bound.rs"], [("PartialOrd/Ord of LowerBound and UpperBound", "src/bound.rs")])
p("C14", "Conversions to and from the standard ranges preserve the members",
  "Converting a standard range to this crate's range or set types and back, or an empty range to a standard range, yields a range with exactly the same members whenever the target type can express it.",
  ["inputs"], "All ranges of all types.", "Tests sample one or two constants per conversion.",
  ["src/bounded_range.rs", "src/lower_bounded_range.rs", "src/upper_bounded_range.rs", "src/empty_range.rs", "src/unbounded_range.rs"], [("From implementations", "the range type files")])
p("C15", "Indexing with a range selects exactly the positions the range contains",
  "Indexing strings, slices, vectors and C strings by one of the crate's ranges selects exactly what indexing by the equivalent standard range selects, mutably or not, and panics exactly when that does.",
  ["inputs"], "All buffers and all ranges of positions.", "Tests sample one or two constants per container.",
  ["src/implementations/index"], [("Index and IndexMut implementations", "src/implementations/index")])
p("C16", "Stepping of the built-in element types is exact",
  "For every built-in integer type and for characters, stepping forward or backward by any count yields the value that many successors or predecessors away, or reports that there is none, and the distance between two values is the number of steps between them; characters never land in the surrogate gap.",
  ["inputs"], "All values and counts of all built-in element types.", "No test calls the stepping operations directly; the iterator tests step i32 by a handful.",
  ["src/step.rs"], [("Step implementations", "src/step.rs")])
p("C17", "Only ranges and sets with a lower bound can be iterated",
  "A result with no lower bound does not offer iteration: the attempt is rejected at compile time. Every result with a lower bound does offer it.",
  ["programs"], "All programs using the crate.", "One compile-fail doc test.",
  ["src/lib.rs"], [("IntoIterator implemented for lower-bounded types only", "src/bounded_range.rs, src/bounded_set.rs, src/lower_bounded_range.rs, src/lower_bounded_set.rs, src/empty_range.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
