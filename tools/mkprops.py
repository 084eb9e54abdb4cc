import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H="include/dart/"
p("D01","Finalizing and definalizing never change a document's value",
 "For every document, turning it into the immutable flat form and turning it back (in either direction, through any of the value types, any number of times) yields a document with exactly the same structure, keys, element order, scalar types and scalar values. The conversion also leaves the original untouched.",
 ["inputs"],"every tree of objects, arrays, strings (all bytes, all lengths up to the documented limits), 64-bit integers, doubles, booleans and nulls, including all the integer/string/decimal width boundaries and deep nesting",
 "Tests finalize a few hand-written objects; widths, prefix caps, alignment gaps and nesting combine in ways only a search over documents samples.",
 [H+"heap/detail.tcc",H+"heap/api.tcc",H+"object.tcc",H+"array.tcc",H+"string.tcc",H+"primitive.tcc",H+"buffer/detail.tcc"],
 [("layout of values chosen by raw type and aligned offsets","include/dart/object.tcc, include/dart/array.tcc constructors from packet fields/arrays"),("lower/definalize","include/dart/api.tcc, include/dart/buffer/api.tcc, include/dart/heap/api.tcc")],
 obs=["value accessors of both forms"])
p("D02","Finalized objects find exactly the keys they contain",
 "In every immutable object, looking up any key it was built with (by any lookup entry point) yields that key's value, and looking up any other key yields a null or missing result, never a different key's value. This holds for keys of any bytes and of any length up to the documented maximum of 65535.",
 ["inputs"],"all key sets (empty, shared prefixes, same length, embedded zero bytes, non-ASCII bytes, lengths around 2, 8, 254-257, thousands) and all probes (members, near misses, prefixes, extensions)",
 "Lookup is a binary search over cached length/prefix summaries; failures occur only for particular byte/length collisions that the handful of ASCII keys in the tests never form.",
 [H+"object.tcc",H+"common.h",H+"buffer/object.tcc",H+"buffer/iterator.tcc",H+"packet/object.tcc"],
 [("key comparison by length, prefix, then full key","include/dart/common.h prefix entry, include/dart/object.tcc lookup"),("ordering of the table at construction","include/dart/common.h comparator; object constructors")])
p("D03","Mutable objects behave as a key-value map under any history",
 "After any sequence of insert, set, erase, clear, lookup and iteration calls on a mutable object, its size, membership, per-key values and return values agree with an ordinary map driven by the same calls. Keys are unique, later writes win, set of a missing key fails and erase of a missing key is harmless.",
 ["histories"],"all finite histories of the object mutation API through keys given as text, string values, positions (iterators) and nested objects, on heap and generic packets",
 "Tests run short fixed scripts; the agreement must hold for every interleaving of operations and every key collision pattern.",
 [H+"heap/object.tcc",H+"packet/object.tcc","include/dart.h"],
 [("fields map with length-first comparator","include/dart/heap/object.tcc")])
p("D04","Mutable arrays behave as a sequence under any history",
 "After any sequence of push, pop, insert, set, erase, resize, reserve, clear and indexed reads on a mutable array, its length and every element agree with an ordinary vector driven by the same calls. Out-of-range writes fail with an error and change nothing, and out-of-range reads through non-throwing accessors give null.",
 ["histories"],"all finite histories of the array mutation API with positions given as integers, integer values or iterators, on heap and generic packets",
 "Only fixed short scripts are tested; boundaries (index = size, empty arrays, insertion at both ends after copies) combine unboundedly.",
 [H+"heap/array.tcc",H+"packet/array.tcc"],
 [("element vector and bound checks","include/dart/heap/array.tcc")])
p("D05","Copies are independent values",
 "Once a document has been copied, or a part of it taken out or stored inside another document, no operation on either one is ever visible through the other. Every handle behaves as though it had made a deep copy, whatever sharing happens underneath, and storing a document inside itself stores its former value.",
 ["histories"],"all histories of copying, assigning, moving, extracting, nesting and mutating among a pool of handles, including self-insertion and every mutating operation",
 "Sharing is an invisible optimisation; a missing separation shows only when a specific mutator follows a specific copy, a product the fixed tests do not cover.",
 [H+"heap/detail.tcc",H+"heap/object.tcc",H+"heap/array.tcc",H+"packet/api.tcc"],
 [("copy-on-write before mutation when shared","include/dart/heap/detail.tcc copy_on_write; callers in heap/object.tcc and heap/array.tcc")],
 state=[("shared element storage","reference-counted fields/elements shared between handles","include/dart.h heap data members")])
p("D06","JSON text and documents correspond exactly",
 "Parsing a valid JSON text gives the document the text denotes (decimals to within the default parser's rounding), the same one whether parsed into the mutable or straight into the immutable form. Serialising any document with finite numbers gives valid JSON that denotes it exactly, so that parsing it again returns the same document (to within that rounding).",
 ["inputs"],"all JSON texts and all documents within the documented limits: nesting, escapes, unicode, number extremes, duplicate keys, empty strings and aggregates, whitespace",
 "The two parsers and the writer are tested with one sample file and a few literals; agreement must hold for every text.",
 [H+"connector/json.tcc",H+"object.tcc",H+"array.tcc",H+"heap/api.tcc",H+"buffer/api.tcc"],
 [("SAX handlers and DOM lowering","include/dart/connector/json.tcc"),("writer","include/dart/connector/json.tcc json_serialize")])
p("D07","Malformed JSON is rejected cleanly",
 "For every byte string that is not a JSON document the library can represent, parsing reports an error through its documented exception and nothing else: no crash, no out-of-bounds access, no leak and no partially built result. Acceptance is the same for the mutable and the immutable target form, except that the immutable form only accepts an object at the root.",
 ["inputs"],"all byte strings: truncations, mutations and splices of valid texts, nesting up to some thousands of levels, invalid UTF-8, bad numbers, trailing data, non-object roots",
 "The tests contain a few malformed literals; rejection safety is a statement about every input.",
 [H+"connector/json.tcc",H+"heap/api.tcc",H+"buffer/api.tcc","include/dart.h"],
 [("parser error translation","include/dart/connector/json.tcc parse entry points"),("partial state owned by the parser object","include/dart/connector/json.tcc")])
p("D08","Validated bytes are safe to read",
 "If validation accepts a byte string, then every read of a document built from it stays within those bytes and terminates without fault; if it does not accept, it says so by its documented result. Validation itself never reads outside the given range, and its throwing and non-throwing forms always agree.",
 ["inputs"],"all byte strings: arbitrary bytes and every structure-aware mutation of genuine buffers (offsets, types, lengths, counts, prefixes, terminators), at the exact range length given",
 "The fuzz corpus replays 27 fixed inputs; safety is claimed for all untrusted input.",
 [H+"api.tcc",H+"object.tcc",H+"array.tcc",H+"string.tcc",H+"primitive.tcc",H+"common.tcc"],
 [("recursive bounds-checked validation","include/dart/object.tcc, include/dart/array.tcc, include/dart/string.tcc, include/dart/primitive.tcc is_valid; include/dart/common.tcc valid_buffer/validate")])
p("D09","Validation accepts every genuine buffer and no truncation of one",
 "Every byte string the library itself produces passes validation and is readable at its reported length. No proper prefix of it passes, nor does a copy in which a declared size, count, offset or type was changed so as to reach outside the buffer.",
 ["inputs"],"all documents the library can produce by every construction route, every truncation length, and every single structural field corrupted to point outside",
 "A validator that is too strict or too lax on some layout is visible only on layouts the tests do not build.",
 [H+"common.tcc",H+"object.tcc",H+"array.tcc",H+"string.tcc",H+"primitive.tcc"],
 [("size, alignment and bound rules","is_valid functions in include/dart/object.tcc, array.tcc, string.tcc, primitive.tcc")])
p("D10","Raw bytes transfer a document exactly, and equal documents have equal bytes",
 "The bytes of an immutable document copied anywhere (into a new handle by copy, by taking ownership, or by duplication) reconstruct a document equal to the original, byte for byte. Building equal documents by different routes (insertion order, parsing, definalize and refinalize, adopting bytes) yields identical bytes.",
 ["inputs","histories"],"all documents and all construction routes, with the allocator returning dirty memory",
 "Equality of immutable documents is byte comparison, so one uninitialised padding byte breaks it, and freshly zeroed heap pages in tests hide that.",
 [H+"buffer/api.tcc",H+"api.tcc",H+"object.tcc",H+"array.tcc",H+"connector/json.tcc",H+"heap/detail.tcc"],
 [("zero fill and deterministic layout","buffer construction in include/dart/buffer/detail.tcc and heap/detail.tcc"),("get_bytes/dup_bytes/share_bytes","include/dart/buffer/api.tcc")])
p("D11","Inject and project are map update and map restriction",
 "Injecting pairs into a document gives the document with those keys added or replaced, and projecting a key list gives exactly the listed keys it contains, in both forms of document with equal results. Neither changes its input, and both are memory safe for every argument.",
 ["inputs"],"all base documents, all injected key/value sets (new, overlapping, interleaving, nested values, any types) and all key lists (duplicates, missing, more keys than the base has, empty)",
 "The immutable versions merge raw buffers whose alignment depends on the interleaving of keys; tests use a few.",
 [H+"object.tcc",H+"common.tcc",H+"buffer/object.tcc",H+"heap/object.tcc",H+"packet/object.tcc"],
 [("two-way merge of sorted tables","include/dart/object.tcc merge and project constructors")])
p("D12","Iteration visits every element once, in a stable documented order",
 "Iterating an array visits its elements in index order, and iterating an object visits every pair exactly once, in the same order for both forms and for keys and values. Reverse iteration is the exact reverse, the number of steps equals the size, and positions found by lookup or arithmetic denote the same element as stepping there.",
 ["inputs","histories"],"all aggregates and all walks of increments, decrements, copies and swaps of iterators, for heap, buffer and generic documents and typed wrappers",
 "Tests iterate a few fixed aggregates forward; the walk and the layout are both unbounded.",
 [H+"iterator.tcc",H+"heap/iterator.tcc",H+"buffer/iterator.tcc",H+"packet/iterator.tcc","include/dart.h"],
 [("proxy iterators over map/vector and over the flat table","include/dart/heap/iterator.tcc, buffer/iterator.tcc, object.tcc/array.tcc ll_iterator")])
p("D13","Equality is structural and representation independent",
 "Two documents compare equal exactly when they have the same type and the same contents, irrespective of which form or value type holds each of them. Equality is therefore reflexive, symmetric and transitive, inequality is its negation, and equality with native values agrees with the document's value (NaN and the sign of zero aside).",
 ["inputs"],"all pairs of documents (equal, one-edit different, unrelated) across all pairs of value types",
 "Each pair of representations has its own comparison path; near-equal pairs that distinguish them are not enumerable by hand.",
 [H+"operators.tcc",H+"common.h",H+"heap/api.tcc",H+"buffer/api.tcc",H+"packet/api.tcc",H+"conversion_traits.h"],
 [("generic comparison","include/dart/operators.tcc, include/dart/common.tcc generic compare"),("bytewise and fieldwise comparison","buffer/api.tcc, heap/api.tcc")])
p("D14","Every accessor answers by type, the same way in every form",
 "For each document and each accessor, the strict accessors return the value when the type matches and otherwise throw the documented error, and the lenient accessors return the supplied default and never throw. The answer is the same in the mutable, immutable and generic forms.",
 ["inputs"],"all values x all accessors (strict, optional, defaulted; by key, by index, front/back; size, emptiness, type queries) x all forms",
 "The accessor by type by form matrix with missing/present keys is only spot-checked.",
 [H+"api.tcc",H+"heap/primitive.tcc",H+"buffer/primitive.tcc",H+"packet/primitive.tcc",H+"heap/string.tcc",H+"packet/object.tcc",H+"packet/array.tcc","include/dart.h"],
 [("type checks at each accessor","include/dart/heap/*.tcc, include/dart/buffer/*.tcc, include/dart/packet/*.tcc")])
p("D15","Native containers and values convert both ways without loss",
 "Every supported standard type (numbers, strings, sequences, maps, sets, tuples, optionals, variants, whole-second time points and nestings of them) converts to a document and back to an equal value, and compares equal to its own conversion and to nothing that differs. Extracting a value of the wrong shape throws the documented type error.",
 ["inputs"],"all values of a broad set of nested standard types, in mutable, immutable and generic forms, and all wrongly shaped sources",
 "Conversions are templates over unbounded type/value combinations of which tests try a few.",
 [H+"conversions.h",H+"conversion_traits.h"],
 [("conversion traits per type","include/dart/conversion_traits.h, include/dart/conversions.h")])
p("D16","The strongly typed interface agrees with the untyped one",
 "Every operation available on the strongly typed views of a document (object, array, string, number, flag, null) gives the same result as the same operation on the untyped document, and constructing one from a document of another type throws. Arithmetic on typed numbers gives the result of the same arithmetic on the native numbers.",
 ["inputs","histories"],"all documents, all operations, all operand orders and forms",
 "Wrapper operations are many small forwarding functions; most are exercised with one value or never.",
 ["include/dart.h",H+"operators.tcc",H+"api.tcc"],
 [("forwarding wrappers","include/dart.h basic_object/array/string/number/flag/null"),("arithmetic operators","include/dart/operators.tcc")])
p("D17","Values obtained from a document stay valid exactly as long as they must",
 "A sub-value, key, iterator or raw-byte handle obtained from a document remains readable and unchanged after every other handle to that document is destroyed, moved or mutated (positions in mutable documents excepted, which do not own). When the last handle goes, all memory is released, and reference counts equal the number of live owners throughout.",
 ["histories"],"all histories of extracting sub-values, iterators, views and byte handles, and destroying/moving/reassigning handles in any order",
 "Lifetime errors are invisible without sanitizers and depend on destruction order; tests destroy in scope order.",
 [H+"buffer/detail.tcc",H+"buffer/api.tcc",H+"support/ptrs.tcc",H+"iterator.tcc",H+"refcount_traits.h",H+"api.tcc"],
 [("shared ownership of the underlying buffer","include/dart/support/ptrs.tcc; buffer sub-values hold the root owner"),("views to owners","as_owner in include/dart.h/api.tcc")])
p("D18","Independent handles to shared documents may be used from many threads",
 "Threads that each hold their own handle to the same document may copy, read, iterate, finalize, mutate their own copy and destroy concurrently without data races. Each thread sees exactly the results it would see alone, and the storage is freed exactly once.",
 ["schedules"],"all interleavings of threads each running any operation history on handles of their own that share storage",
 "No existing test starts a thread; the property ranges over schedules.",
 ["include/dart.h",H+"support/ptrs.tcc",H+"support/ptrs.h",H+"heap/detail.tcc",H+"buffer/api.tcc"],
 [("atomic reference counts","include/dart/support/ptrs.*; std::shared_ptr"),("copy-on-write decision","include/dart/heap/detail.tcc")])
p("D19","The C interface computes what the C++ interface computes",
 "Any history of calls through the C binding layer, in each packet family, produces the same documents, values, sizes, orders, text and bytes as a reference model of the documents. Successful calls return the success code and every handle can be destroyed once, releasing everything.",
 ["histories"],"all histories over the exported functions (construction incl. format strings, insertion, erasure, reading, iteration, comparison, finalize/lift, JSON, bytes) for heap, buffer and generic families",
 "About 370 exported functions are each called once or twice; compositions and value ranges are untested.",
 ["src/heap.cc","src/buffer.cc","src/generic.cc","src/helpers.h",H+"abi.h"],
 [("exported wrappers","src/heap.cc, src/buffer.cc, src/generic.cc"),("format-string builder","src/helpers.h")])
p("D20","Misusing the C interface yields an error code, not a crash",
 "For every call through the C binding layer whose arguments have the wrong type, wrong range or wrong contents, the call returns a documented error code, leaves an explanatory message, and changes nothing. No exception ever escapes, and the handles involved remain usable and destroyable.",
 ["histories","inputs"],"all exported calls x all packet types and states (null, moved, finalized, wrong type) and all malformed JSON, bytes, indices and format strings",
 "Tests follow the success paths; error paths are a product of calls and states.",
 ["src/helpers.h","src/heap.cc","src/buffer.cc","src/generic.cc"],
 [("exception to error-code translation","src/helpers.h err_handler and friends")])
p("D21","YAML text is read as the document it denotes, or rejected",
 "Parsing YAML built from mappings, sequences and scalars gives the document the text denotes (plain null, true, false and numbers are typed, every quoted scalar is a string), the same in mutable and immutable form, in block and flow style. Any other byte string either parses or is rejected through the documented exception, without crash, leak or out-of-bounds access.",
 ["inputs"],"all YAML texts generated from document trees in block/flow/quoted styles, and all byte mutations of them",
 "One sample file and a few literals are tested.",
 [H+"connector/yaml.tcc"],
 [("event handlers","include/dart/connector/yaml.tcc")])
p("D22","Dotted-path lookup equals stepwise lookup",
 "Looking up a separator-delimited path gives the value reached by looking up each component in turn, and null as soon as a component is missing or leads through a value without keys (each separator ends a component, so the empty path names the document and one trailing separator makes no difference to a non-empty path). This holds for any separator, and never throws on documents of matching form.",
 ["inputs"],"all documents and all paths (present, missing, empty components, leading/trailing/repeated separators, through arrays and scalars), all separators and forms",
 "Path splitting edge cases (empty components, ends) are a classic gap; tests use a few good paths.",
 [H+"api.tcc","include/dart.h",H+"common.tcc"],
 [("path splitting loop","include/dart/api.tcc get_nested")])
p("D23","A generic document enforces its state and otherwise is transparent",
 "A generic document behaves as the mutable form until finalized and as the immutable form after; mutating it while finalized throws the documented state error and leaves it unchanged, and lifting it makes mutation work again on an equal document. Conversions between the generic and specific types preserve value and state, and fail with the documented error only when the state forbids them.",
 ["histories"],"all histories mixing finalize, lift, mutation, reads and conversions between value types",
 "State switches multiply every operation by two; tests cover each once at most.",
 [H+"packet/api.tcc",H+"packet/object.tcc",H+"packet/array.tcc",H+"packet/detail.tcc",H+"api.tcc"],
 [("dispatch on the held implementation","include/dart/packet/detail.tcc")])
p("D24","A failed operation changes nothing and leaks nothing",
 "If any operation fails, whether because of its arguments or because a C++ allocation fails at any point inside it, then every document involved (other than arguments given away by move) still holds the value it held before, remains fully usable, and nothing is leaked. Retrying the operation without the fault then gives its normal result.",
 ["fault_sequences","histories"],"every allocation of every operation made to fail in turn, over random histories, plus every argument error",
 "Tests never inject allocation failure and rarely look at a target after an error.",
 [H+"heap/detail.tcc",H+"heap/object.tcc",H+"heap/array.tcc",H+"object.tcc",H+"array.tcc",H+"buffer/detail.tcc",H+"connector/json.tcc"],
 [("ownership by RAII while building","include/dart/buffer/detail.tcc, heap/detail.tcc"),("check before modify","include/dart/heap/array.tcc, heap/object.tcc")])
p("D25","The choice of reference counter never changes document semantics",
 "Documents instantiated with any conforming reference counter (standard, thread-unsafe, non-owning view, or user supplied) hold equal values, compare equal to each other, and can be converted into one another without change of value (an immutable value other than an object, which cannot stand alone as a buffer, may instead be refused with a type error). A user-supplied counter sees balanced acquire and release calls: each resource it takes is released exactly once.",
 ["histories","configurations"],"all documents and histories, over several reference counter implementations and conversions between every pair",
 "Tests instantiate counters on a few literals; balance is a property of whole histories.",
 [H+"refcount_traits.h",H+"support/ptrs.h",H+"support/ptrs.tcc",H+"api.tcc","include/dart.h"],
 [("refcount traits dispatch","include/dart/refcount_traits.h"),("counter conversion","transmogrify in include/dart.h/api.tcc")])
p("D26","The bundled support types match their standard counterparts",
 "The string view, optional, variant, smart pointer and byte-order types the library substitutes for standard ones behave as the standard types (or the declared byte order) for every operation they offer. This includes every search position, boundary and lifetime transition.",
 ["inputs","histories"],"all strings, needles and positions; all histories of assignment, swap, reset and move; all integer and floating values",
 "Search positions and self-assignment style histories are sampled at a few points only.",
 [H+"support/string_view.h",H+"support/string_view.tcc",H+"support/optional.h",H+"support/optional.tcc",H+"support/ptrs.h",H+"support/ptrs.tcc",H+"support/ordered.h",H+"support/ordered.tcc"],
 [("shim implementations","include/dart/support/")])
p("D27","The wire format is the documented one",
 "The bytes of every immutable document follow the published layout: little-endian sizes, counts and offsets, sorted entries with type tag and prefix, natural alignment, narrowest sufficient integer/decimal/string encodings, terminated strings. An independent decoder written from the layout recovers the document from any bytes the library makes, and the library reads back any bytes an independent encoder makes.",
 ["inputs"],"all documents, encoded by the library and by an independent encoder, including all width boundaries",
 "Encode and decode share code, so a symmetric change passes every round-trip test yet breaks all stored or transmitted data.",
 [H+"object.tcc",H+"array.tcc",H+"string.tcc",H+"primitive.tcc",H+"common.h",H+"support/ordered.h","IMPLEMENTATION.md"],
 [("layout structs and little-endian integers","include/dart/common.h, include/dart.h detail classes, include/dart/support/ordered.h")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['title']
print(len(P))
