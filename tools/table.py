TREE = [T+f for f in ("branch.go","leaf1.go","leaf2.go","twig.go","packer.go","tree.go")]
AI = "abstract interpretation of SSA over a symbolic container domain (tracked-element membership, element equality classes, hash digits, linear integer relations, node shapes), modular by proved node contracts"
PENDING = "Not built yet: the abstract interpreter this needs is under construction."
def m(*a): return [dict(name=n, where=w) for n, w in a]

p("C01", "Sets, Maps, IntSets and relations never change after they are returned",
  "No operation on an immutable Set, Map, IntSet, lazy Set or relation, including the operation that created it, later derivations from it, and the callbacks and results it hands out, ever changes what that value or any other existing value contains. Slices and containers given to the library are neither modified by it nor kept so that the caller's later changes show through, and what the library returns or hands to a callback is never its own internal storage.",
  ["histories", "inputs"], "every sequence of operations on any family of values sharing structure, whatever their sizes, hash collisions and element types",
  "A test keeps a few old values and compares them afterwards; aliasing needs particular shapes (collision buckets, spare capacity, shared subtrees) and a particular later operation.",
  ["set.go","map.go","intset.go","intset_iter.go","lazy/*.go","pkg/rel/relation.go"]+TREE,
  m(("copy-on-write nodes", T+"branch.go With/Without/Combine"), ("twig copies", T+"twig.go"), ("packer updates return new packers", T+"packer.go")),
  "interprocedural flow-, field- and context-sensitive points-to/effect analysis over SSA",
  "Sound over the analysed effects up to: reflect/unsafe not modelled, element types' own methods assumed pure, values passed through interface{} tracked by dynamic type key. Undecided writes are reported.")

p("C02", "Builders hand over what they built and stay independent of it",
  "A value finished from a builder never changes through later use of that builder or of any other builder, a builder's in-place updates never reach a value that already existed, and finishing a builder leaves it empty and reusable.",
  ["histories"], "every interleaving of Add, Put, Remove and Finish on builders and of operations on finished values",
  "The one-builder one-Finish test pattern never reuses a builder after finishing, so shared nodes never show.",
  ["set_builder.go","map_builder.go",T+"builder.go"]+TREE, m(("Finish resets the builder's root", T+"builder.go Finish"), ("in-place Add only from builders", T+"*.go Add")),
  "points-to/effect analysis over SSA: in-place writes only on builder-owned nodes; Finish drops the builder's reference",
  "As C01; builder ownership is decided from where the written nodes came from (created by the builder, or a value that existed before).")

p("C03", "Values may be read and derived from concurrently without data races",
  "Any number of goroutines may at the same time read, iterate and derive new values from the same immutable Sets, Maps, IntSets, lazy Sets and relations without a data race, and the goroutines an operation starts internally never write memory that another of them reads or writes.",
  ["schedules"], "every interleaving of concurrent operations on shared values and of the workers within one operation",
  "Tests run mostly one goroutine on small inputs; the parallel path needs deep recursion or large sets, and a race needs a particular schedule.",
  ["set.go","map.go","intset.go","lazy/set_memo.go",T+"branch.go",T+"nodeArgs.go",T+"hasher.go","internal/pkg/depth/gauge.go"],
  m(("per-index writes in workers", T+"branch.go Combine"), ("atomic memo", "lazy/set_memo.go")),
  "effect analysis over SSA: shared state read-only; worker closures write only their own index; atomics used consistently",
  "Every non-atomic write reachable from the public API to memory that existed before the call, or to memory captured by a worker, is an alarm. Channel and WaitGroup protocol of the parallel primitive is C04.")

p("C04", "Parallel evaluation runs each part once, joins all results and cannot hang",
  "An operation that spreads its work over goroutines processes every non-empty part exactly once, combines exactly the results of those parts, returns only after the results it reports are in, and neither deadlocks nor leaves a goroutine blocked forever, whether or not it ends early.",
  ["schedules","inputs"], "every schedule of the worker goroutines, every set of parts and every early exit",
  "Small sets never go parallel; a lost result or a blocked sender only shows under some schedules and sizes.",
  ["internal/pkg/depth/gauge.go",T+"branch.go"], m(("fan-out and join", "internal/pkg/depth/gauge.go Parallel")),
  "abstract interpretation of SSA: masks as partitions of bit positions with a tracked bit, channels as counted multisets of outcomes received in any order, goroutines run to their send; plus dataflow on variables captured by goroutines; node methods on the contract of the primitive",
  "Decides the fork/join protocol for every mask, every order of outcomes and every failure pattern. A goroutine's body is run where it is started, which is exact as long as it shares nothing but its channel; captured variables are checked for that, other shared memory is C03.")

p("C05", "Set operations contain exactly the right elements, hash collisions included",
  "The results of adding, removing, filtering, mapping, union, intersection, difference, symmetric difference and their operators contain exactly the elements that the mathematical operation defines, and membership tests agree with it, whatever the sizes and shapes of the operands and even when distinct elements share part or all of their hashes. No element appears twice in a result.",
  ["inputs"], "every pair of operand sets, every element and every pattern of partial or complete hash collisions",
  "Tests use small ranges of integers whose hashes never collide completely, so collision buckets combined with each other node form are never exercised.",
  ["set.go"]+TREE, m(("trie nodes", T+"*.go")), 
  AI,
  "Every node method on every combination of node forms; the element tracked is arbitrary, sizes and depths symbolic. Assumes element types' Equal/Hash are consistent and hash digits beyond maxTreeDepth are spent. Traces the interpreter cannot follow are listed as UNDECIDED in the evidence and do not alarm.")

p("C06", "Maps hold the right value for each key and merge in the right order",
  "After With, Put or Update the given value wins for its key, Without removes exactly the given keys, Get, MustGet, GetElse and Has agree with the entries, and Merge keeps every key of both maps and calls resolve exactly for shared keys with the receiver's value before the argument's. This holds whatever the shapes and sizes of the maps and even when distinct keys collide in hash.",
  ["inputs"], "every map, key, value, pair of maps and pattern of hash collisions",
  "Which side wins depends on internal operand order, which flips with relative sizes and node forms that tests do not enumerate.",
  ["map.go","map_builder.go","mapEntry.go","kv.go"]+TREE, m(("combine arguments and their flip", T+"nodeArgs.go")), 
  AI,
  "As C05, with values followed by provenance.")

p("C07", "Count is always the exact number of elements",
  "For every Set and Map, however it was produced, Count equals the number of distinct elements or keys, and emptiness agrees with a count of zero.",
  ["inputs","histories"], "every sequence of operations producing a value, over every shape of operand",
  "Counts are maintained incrementally from match tallies; each formula is right for common shapes and can be wrong for rare ones.",
  [T+"tree.go",T+"builder.go"]+TREE, m(("match tallies", T+"branch.go"), ("count formulas", T+"tree.go")), 
  AI,
  "As C05: linear relations between match counts and symbolic sizes.")

p("C08", "Equality and subset tests depend only on contents",
  "Two Sets, Maps or IntSets are equal exactly when they contain the same elements or the same key-value pairs, and one is a subset of another exactly when each of its elements is in the other, however the values were built and even when elements collide in hash.",
  ["inputs","histories"], "every pair of values and every way of arriving at the same contents",
  "Structural comparison works only if every operation leaves the canonical shape; tests compare values built in a few ways.",
  ["set.go","map.go","intset.go"]+TREE, m(("canonical node form", T+"*.go Canonical"), ("Equal/SubsetOf", T+"*.go")), 
  AI,
  "As C05: canonical form is an invariant that every operation is shown to establish, which makes the structural comparison decide equality of contents.")

p("C09", "Equal values have equal hashes, independent of order and history",
  "The hash of a Set, Map, IntSet, key-value pair or lazy Set depends only on its contents, so that equal values hash equally whatever the order of construction or iteration, and keys are hashed by what equality compares.",
  ["inputs","histories"], "every pair of equal values however built, and every seed",
  "A test hashes a few equal pairs whose internal order happens to agree.",
  ["set.go","map.go","kv.go","mapEntry.go","lazy/*.go","internal/pkg/value/hash.go"], m(("commutative accumulation", "set.go Hash, map.go Hash")),
  "dataflow over SSA into symbolic hash expressions: loop-carried values must be commutative accumulations of per-element terms; fields hashed vs fields compared; agreement of the lazy sets' expressions; distinctness of what is ranged over",
  "Assumes element types' own Equal/Hash agree and that iteration is exact (C10). Expressions it cannot follow are listed as UNDECIDED and do not alarm.")

p("C10", "Iteration yields every element exactly once and then stops",
  "Ranging over a Set, Map, IntSet or lazy Set yields each element or entry exactly once and nothing else, then reports the end on every further call, whatever the internal shape and depth of the value.",
  ["inputs"], "every value and every number of calls past its end",
  "Iterators cross node boundaries at places only particular shapes reach.",
  ["set.go","map.go","bititer.go","intset_iter.go",T+"packer_iter.go",T+"*.go Iterator","internal/pkg/iterator/*.go","lazy/*.go"], m(("node iterators", T+"packer_iter.go")), 
  AI,
  "Sets and Maps: node iterators are run to the end by an in-memory driver over every node form; IntSet and lazy iterators belong to C11 and C12. As C05 otherwise.")

p("C11", "IntSet is exact over the whole range of integers",
  "Every IntSet operation, namely construction, membership, adding, removing, union, intersection, equality, subset, filtering, mapping, counting and iteration, treats every integer correctly, including negative ones and those that share a storage cell with others.",
  ["inputs"], "every integer of the type and every set of integers",
  "Tests use mostly small non-negative integers; cell and bit arithmetic differs at signs, cell boundaries and shared cells.",
  ["intset.go","intset_iter.go"], m(("cells of 64 bits in a Map", "intset.go locateCell")),
  "abstract interpretation of SSA: abstract map of cells (contract of Map), cells as sets of bits, integers as linear terms over cell and bit number, one tracked integer",
  "Every exported method of IntSet but Hash (C09), String and Format. Assumes Map's own contract (C05, C06) and that integers do not overflow their type outside the documented range. Expressions it cannot follow are listed as UNDECIDED and do not alarm.")

p("C12", "Lazy set expressions have the membership of what they denote",
  "For every lazy set expression (union, intersection, difference, symmetric difference, filter, mapping, powerset, memoised and frozen sets) membership, fast membership, iteration, subset and equality tests agree with the mathematical set it denotes, and filters and transforms are only ever given elements of their source.",
  ["inputs","programs"], "every composition of lazy operations and every element",
  "Compositions are unbounded, and each implementation answers membership through several separate paths.",
  ["lazy/*.go"], m(("per-operation Has/FastHas/Range", "lazy/set_*.go")),
  "abstract interpretation of SSA: every lazy operation over arbitrary operand sets (Has, FastHas, iteration with repeats, any fast answer absent), one tracked element against the set algebra; structural induction over expressions",
  "Each operation on operands that are any lazy set keeping the contract, empty, frozen or memoised; a composition follows by induction. Two modes: all sizes (with joins; only notes) and sets with at most one element besides the tracked one (exact; violations). Powerset iteration and EmptySet.Powerset().Has are not modelled.")

p("C13", "Lazy memoisation is published atomically",
  "A lazy Set that computes itself on first use may be used from many goroutines at once: each sees either nothing computed or the complete result, never a partial one.",
  ["schedules"], "every interleaving of first uses",
  "Tests use a memoised set from one goroutine.",
  ["lazy/set_memo.go"], m(("atomic publication", "lazy/set_memo.go")),
  "effect analysis over SSA: memo state accessed only through atomic operations or under one lock, published after it is complete",
  "Every access to a memo field that is written after construction must go through sync/atomic or a held mutex; the published value must not be written after publication.")

p("C14", "Lazy sets report their cardinality and emptiness correctly",
  "Count, CountUpTo, IsEmpty and their fast variants of every lazy set expression agree with the number of distinct elements it denotes, up to the requested limit.",
  ["inputs","programs"], "every composition of lazy operations and every limit",
  "Each implementation has separate shortcuts for counting and emptiness.",
  ["lazy/*.go"], m(("Count/CountUpTo/IsEmpty per operation", "lazy/set_*.go")),
  "abstract interpretation of SSA: as C12, counting every element that iteration yields and every limit as linear terms",
  "As C12. The powerset of a set of unknown emptiness is a known finding. Powersets of sets with three or more elements are not covered.")

p("C15", "Relational join is the natural join",
  "Joining relations yields exactly the tuples that agree with a tuple of each operand on the common attributes, whatever the number of operands, their sizes, and whether attributes are shared or relations are empty.",
  ["inputs"], "all relations", "Tests join a few small relations.", ["pkg/rel/relation.go"], m(("Join", "pkg/rel/relation.go")),  "abstract interpretation of SSA in a domain of comprehensions (conjunctive queries over relations of any size); results compared with the definition by containment mappings",
  'Join of up to three relations over one or two common and own attributes, CartesianProduct, Project and New; relations of every size and content. Assumes the contracts of Set and Map, and that all tuples of a relation have the same attributes (documented).')

p("C16", "Nest groups by the remaining attributes and Unnest undoes it",
  "Nesting groups exactly the tuples that agree on the attributes that are not nested, and unnesting the nested attribute gives back the original relation.",
  ["inputs"], "all relations and attribute sets", "Tests nest one relation with one grouping.", ["pkg/rel/relation.go"], m(("Nest/Unnest", "pkg/rel/relation.go")),  "abstract interpretation of SSA in a domain of comprehensions (conjunctive queries over relations of any size); results compared with the definition by containment mappings",
  'Nest by up to two nested attributes over up to two key attributes; Unnest of any relation with a nested attribute and of what Nest gives. As C15.')

p("C17", "Zero values behave as empty containers",
  "The zero value of every exported container and builder type can be used with every method exactly as an empty one, without a panic.",
  ["inputs"], "every method of every exported container type on its zero value, and on the empty results of other operations",
  "Tests exercise most methods on non-empty values only.", ["set.go","map.go","intset.go","set_builder.go","map_builder.go",T+"tree.go",T+"builder.go"], m(("nil root", T+"tree.go")), 
  "abstract interpretation of SSA: every exported method called on the zero value by in-memory drivers that state the result on an empty container; fmt re-enters Format and String with any state",
  "Sets, Maps, IntSets and their builders; Any, First, MustGet (documented to panic) excluded. encoding/json and hash functions are opaque.")

p("C18", "No operation panics with an internal error",
  "No sequence of operations on valid values makes the library fail with its own internal-error panics, a nil dereference, an out-of-range index or a failed type assertion.",
  ["inputs","histories"], "every sequence of operations over every shape of value",
  "The panicking cases are combinations of node forms that tests do not reach.", TREE, m(("exhaustive type switches", T+"*.go")), 
  AI,
  "As C05: panics, nil, bounds and type assertions on every trace of the analysed methods.")

p("C19", "Operations have no hidden effects",
  "No operation of the library writes to package-level state, standard output, the log, files or the environment, starts a timer or changes global settings; its only effects are the values it returns, panics and calls to the caller's own callbacks and writers.",
  ["histories"], "every operation on every value",
  "Tests check results, not what else an operation did.", ["set.go","map.go","intset.go","lazy/*.go","pkg/rel/relation.go","internal/pkg/**"], m(("pure operations", "all packages")),
  "effect analysis over SSA: reachable writes to globals and calls into effectful standard-library functions",
  "Standard-library functions are classified by package and name; unclassified external calls are alarms. Caller-supplied callbacks, writers and element methods are assumed to be the caller's own effects.")

p("C20", "JSON output is complete and reports errors",
  "Marshalling a Set or Map to JSON, however it was made, yields every element in a valid document, an empty container yields an empty array or object rather than null, and an error from encoding any element is returned rather than dropped.",
  ["inputs"], "every container and element type, including elements that fail to encode",
  "Tests marshal a few small containers without failing elements.", ["set_extra.go","map_extra.go"], m(("MarshalJSON", "set_extra.go, map_extra.go")), AI,
  "encoding/json is trusted to encode the slice or map it is given; elements of type byte become text there. Documents made without encoding/json are not decided.")

p("C21", "The library builds and behaves the same in every build configuration",
  "The library compiles and keeps its constants and bit arithmetic consistent under every supported build tag and on platforms with 32-bit as well as 64-bit words; no value is silently truncated on a narrower platform.",
  ["configurations"], "every combination of build tags and word size",
  "Tests run in one configuration on one platform.", ["internal/pkg/depth/fanout*.go","internal/pkg/masker/masker.go","set_extra.go","bititer.go"], m(("fanout constants", "internal/pkg/depth/fanout*.go")), 
  "type checking of every package under every build tag and word size; constant relations evaluated per configuration; narrowing-conversion and atomic-alignment lints over SSA; abstract interpretation (as C05, C04, C22, C11) repeated per configuration and compared",
  "Quick covers amd64 with every tag and 386 with the default one for the interpreted part; thorough every combination. Only differences from the default configuration are violations here.")

p("C22", "Bit-set operations are exact for every bit",
  "Adding, removing, testing, counting and iterating over the bits of a bit set treats each bit independently and exactly, for every bit and every combination of bits.",
  ["inputs"], "every bit set and every bit position", "Tests use a few bit patterns.", ["bititer.go","internal/pkg/masker/masker.go"], m(("BitIterator", "bititer.go"), ("Masker", "internal/pkg/masker/masker.go")),
  "abstract interpretation of SSA over words as partitions of bit positions (regions of symbolic size, tracked bit, lowest bit, argument positions)",
  "Arguments that are bit positions are assumed to be within the word. Covers BitIterator (both), Masker and the masks of IntSet cells.")

p("C23", "Operations on one element touch only one path",
  "Adding, removing or looking up a single element in a Set or Map takes work proportional to the depth of the value plus the size of one collision bucket, not to its size, and shares everything else with the original.",
  ["inputs"], "every container and element", "Performance tests measure a few sizes and gate nothing.", TREE, m(("single-path recursion", T+"branch.go Get/With/Without")),
  "abstract interpretation of SSA with the calls on existing nodes counted along every trace (linear bounds, loops to a fixed point)",
  "Work inside one node (fixed fanout, collision bucket) is not counted; calls with an operand of at most two elements count as descents and are decided in turn.")

p("C24", "Callbacks get complete values of their own and are called as documented",
  "A function given to the library is only ever called with elements or pairs from the containers involved, arguments passed in slices are the callee's to keep and change, and a callback may itself use the containers involved without deadlock or corruption.",
  ["inputs","histories"], "every callback, including ones that keep or modify their arguments or call back into the library",
  "Test callbacks are pure and forget their arguments.", ["set.go","map.go",T+"*.go Reduce"], m(("Reduce copies", T+"twig.go Reduce")),
  "effect analysis over SSA: what callbacks receive is freshly allocated or an element; no library state is half-updated or locked across a callback",
  "As C01. Order and number of callback invocations are not decided here.")
