"""All properties: metadata for properties.jsonl and MANIFEST.json, and the
function that decides each.  tool/gen.py writes the two files from here."""

TECH = "static analysis: abstract interpretation of the compiled program (LLVM IR)"
PROPS = []


def prop(id, title, statement, over, qtext, tests, files, mech, module, func, rule, technique=TECH,
         level_note="", state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files,
                      mech=mech, module=module, func=func, rule=rule, technique=technique, level_note=level_note,
                      state=state))


prop("C01", "Thread-safe operations leave every lock as they found it",
     "Every operation on a thread-safe queue, linked list, monitor, buffer pool, thread pool or random source returns "
     "with all of its locks released, whatever result it returns and whatever a user callback returns. "
     "No operation acquires a lock it already holds, releases a lock it does not hold, waits on a condition without "
     "holding the matching lock, or destroys or frees a lock it holds.",
     ["inputs", "schedules", "fault_sequences"],
     "all arguments, container states, callback results and allocation or wait outcomes of every public operation",
     "The tests never call cf_queue, cf_ll or the thread pool, and no test reaches the error and time-out returns, "
     "where a missing release would hang only the next caller.",
     ["src/main/citrusleaf/cf_queue.c", "src/main/citrusleaf/cf_ll.c", "src/main/citrusleaf/cf_random.c",
      "src/main/aerospike/as_queue_mt.c", "src/include/aerospike/as_queue_mt.h", "src/include/aerospike/as_monitor.h",
      "src/main/aerospike/as_buffer_pool.c", "src/main/aerospike/as_thread_pool.c"],
     [("cf_queue lock/unlock around every operation", "cf_queue.c"),
      ("as_queue_mt mutex sections", "as_queue_mt.h, as_queue_mt.c"), ("LL_LOCK/LL_UNLOCK", "cf_ll.c")],
     "locks", "check_pairing",
     "mutex typestate along every path of every public operation, helpers inlined: no relock, no unlock of an unheld "
     "mutex, nothing held at return, waits hold the matching mutex",
     level_note="All paths of all 58 public operations that reach a mutex; path conditions are tracked, so the "
                "'not thread-safe' configuration is handled exactly.")

prop("C02", "Shared container state is only touched under its lock",
     "While a thread-safe queue, linked list, monitor or the shared random buffer is in use, its element count, "
     "positions, capacity and stored elements are read and changed only by a thread that holds that object's lock. "
     "Construction, destruction, the documented single-word size estimate and the caller-synchronised list "
     "traversal functions are the only exceptions.",
     ["schedules", "inputs"],
     "every schedule of concurrent operations on one shared object, every path through each operation",
     "Races need a particular interleaving; the suite has one two-thread queue test and none for cf_queue, cf_ll or "
     "the random buffer.",
     ["src/main/citrusleaf/cf_queue.c", "src/main/citrusleaf/cf_ll.c", "src/main/citrusleaf/cf_random.c",
      "src/main/aerospike/as_queue_mt.c", "src/include/aerospike/as_queue_mt.h", "src/include/aerospike/as_monitor.h"],
     [("lock held at each field access", "cf_queue.c, cf_ll.c, as_queue_mt.h"), ("random buffer lock", "cf_random.c")],
     "locks", "check_guarded",
     "lockset at every load, store and library copy that touches a guarded field or the element storage",
     level_note="Every access in every public operation; guarded fields are forgotten when the lock is taken, so "
                "values carried over from before the lock do not count as checked.")

prop("C03", "Blocking queues neither lose wake-ups nor wait wrongly",
     "Every successful push onto a thread-safe queue, and every monitor notification, wakes a waiter no earlier than "
     "the critical section that made the change. "
     "A pop blocks only while the queue is empty, never blocks when told not to wait, always waits with the caller's "
     "computed deadline when given a time, and never gives up when told to wait without limit. "
     "A pop reports an empty queue only if the queue is empty at that moment, and a monitor wait returns only after "
     "completion.",
     ["schedules", "inputs"],
     "every interleaving of producers and consumers and every wait argument",
     "A lost wake-up shows only under one interleaving and as a hang; the tests use one producer and one consumer "
     "and no timed or negative waits.",
     ["src/main/citrusleaf/cf_queue.c", "src/main/aerospike/as_queue_mt.c", "src/include/aerospike/as_queue_mt.h",
      "src/include/aerospike/as_monitor.h"],
     [("condition signal after push", "cf_queue.c, as_queue_mt.h"), ("wait loop in pop", "cf_queue.c, as_queue_mt.c"),
      ("monitor flag and condition", "as_monitor.h")],
     "locks", "check_wakeups",
     "per wait mode (forever, none, timed, other negative): wait sites reached only with the queue provably empty, "
     "signal typestate at every successful push return, emptiness provable at every empty-handed return",
     level_note="State shared with other threads is forgotten at every lock acquisition and wait, so the verdict "
                "covers all interleavings at the granularity of critical sections.")

prop("B01", "Decoding never reads outside the bytes it was given",
     "Whatever bytes and whatever position a decoder is started on, no decoding, skipping, type-peeking, "
     "element-counting or comparing operation reads a byte outside the input, and none writes to the input. "
     "Every string, blob or extension a decoder hands out with success lies wholly inside the input.",
     ["inputs"],
     "every byte sequence of every length, every start position, every nesting",
     "The bugs are in what truncated or hostile input does at one particular length; the tests decode only what the "
     "encoder produced, and an overrun of a few bytes passes silently.",
     ["src/main/aerospike/as_msgpack.c", "src/include/aerospike/as_msgpack.h"],
     [("length check before each read", "as_msgpack.c"), ("type byte dispatch", "as_msgpack.c: as_unpack_*"),
      ("recursive comparison and skipping", "as_msgpack.c: as_unpack_size, as_unpack_compare")],
     "decode", "check",
     "at every load and library read whose pointer is derived from the input: 0 <= offset and offset + size <= length "
     "follows from the branch conditions on the path; recursive calls are replaced by a contract that each function "
     "is checked against",
     level_note="All public decoding entry points, for an input of unknown length and an arbitrary 32-bit position; "
                "loops over elements are summarised by inductive invariants.")

prop("M01", "Byte buffers and string builders stay inside their storage",
     "No operation on a byte buffer or a string builder, and no hex conversion, reads or writes outside the storage of "
     "the object or of the buffers the caller passed, for any index, length and content. "
     "After every operation, successful or not, the recorded size is at most the recorded capacity, the storage really "
     "has that capacity, the ownership flag says truly whether the storage is to be freed, and a string builder's text "
     "is terminated at its recorded length inside its storage.",
     ["inputs", "histories"],
     "every consistent object state, index, size and content; any sequence of operations, because each one is shown to "
     "preserve consistency",
     "An overrun by a byte or an index near the 32-bit limit does not fail a test; the suite uses small in-range "
     "indexes only and has no test for growing string builders.",
     ["src/main/aerospike/as_bytes.c", "src/include/aerospike/as_bytes.h", "src/main/aerospike/as_string_builder.c",
      "src/include/aerospike/as_string_builder.h", "src/main/aerospike/as_buffer.c"],
     [("range checks in set, copy, truncate", "as_bytes.c"), ("growth and ownership transfer", "as_bytes.c: as_bytes_ensure; "
       "as_string_builder.c"), ("hex conversion", "as_bytes.c")],
     "storage", "check_bytes",
     "every load, store and library copy on a block of known symbolic size is inside it; the object invariant is "
     "assumed at entry and must follow at every return",
     level_note="All 56 public operations, from every consistent state, sizes symbolic up to 512 MB; allocation failure is "
                "outside this property.")

prop("Q01", "Queues keep every item, unchanged and in order",
     "Every queue operation acts like the same operation on an ideal sequence: pushes to the back, to the front or at an "
     "index, pops from either end, peeks, deletion of one item and size queries, with all other items keeping their "
     "bytes and their order, also when the storage wraps around or grows. "
     "A push fails only when memory runs out or a stated limit is reached, a pop or peek only on an empty queue, and a "
     "failed operation leaves the queue as it was.",
     ["histories", "inputs"],
     "every consistent queue (any capacity, item size, fill and position of the first item), every item and every byte "
     "of it; any sequence of operations, because each one is shown to preserve consistency",
     "Losing or duplicating an item needs a particular fill level and wrap position at the moment of growing or "
     "deleting; the tests push and pop a few items from an empty queue.",
     ["src/main/aerospike/as_queue.c", "src/include/aerospike/as_queue.h", "src/main/aerospike/as_queue_mt.c",
      "src/include/aerospike/as_queue_mt.h", "src/main/citrusleaf/cf_queue.c"],
     [("slot of an item modulo the capacity", "as_queue.h, cf_queue.c"), ("growing a wrapped queue", "as_queue.c, cf_queue.c"),
      ("position reset", "as_queue.h, cf_queue.c"), ("shifting on delete and insert", "cf_queue.c")],
     "order", "check_queues",
     "one arbitrary byte of one arbitrary item is traced through the operation by address arithmetic modulo the "
     "capacity; its place afterwards, the place of the new item, the count, the result and the representation "
     "invariant must be the ideal ones at every return",
     level_note="36 public queue functions from every consistent state, up to 2^26 slots and 512 MB of items; deleting "
                "several items in one call is decided only as far as the count and consistency.")

prop("L01", "Lists keep their values in order and balance every reference",
     "Every array list operation acts like the same operation on an ideal sequence of values: setting, inserting, "
     "appending, prepending, removing, trimming, concatenating (also a list with itself), looking up, taking the head, "
     "the rest, a prefix or a suffix, visiting and iterating, with positions left out filled with nil. "
     "A value replaced, removed or trimmed away is released exactly once, a value now held by two lists is reserved "
     "exactly once, and no other value's reference is touched. "
     "An operation fails only for a position that does not exist or a list that may not grow, and then leaves the list "
     "as it was and releases what it created itself.",
     ["histories", "inputs"],
     "every consistent list (any size, capacity, growth step and storage owner), every index and every element; any "
     "sequence of operations, because each one is shown to preserve consistency",
     "A wrong reference count or a value lost at one position shows up only in a later use; the suite checks short "
     "lists of integers and never takes the rest of a list, joins a list with itself or fills a list that cannot grow.",
     ["src/main/aerospike/as_arraylist.c", "src/main/aerospike/as_arraylist_iterator.c",
      "src/include/aerospike/as_arraylist.h"],
     [("growing by blocks", "as_arraylist.c: ensure"), ("shifting on insert and remove", "as_arraylist.c"),
      ("reserve and destroy of elements", "as_arraylist.c"), ("nil fill", "as_arraylist.c")],
     "lists", "check_lists",
     "one arbitrary element is traced through the operation; its place afterwards, the place of the new value, the "
     "size, the number of reserve and destroy calls on it, the result and the representation invariant must be the "
     "ideal ones at every return; every access to the element storage stays inside it",
     level_note="33 public functions from every consistent state, up to 2^28 elements; nil fill is decided for "
                "positions inside the capacity the list had before; allocation failure is outside this property.")

prop("V01", "Vectors keep their items in order inside their own storage",
     "Every vector operation acts like the same operation on an ideal sequence of fixed-size items: appending, reserving "
     "a zeroed place, replacing, looking up, removing at a position, clearing and copying out, with all other items keeping "
     "their bytes and their order, also when the vector grows, even from no room at all. "
     "Every access stays inside the vector's storage, an append always makes room, and a removal reports failure "
     "exactly when the position does not exist. "
     "Destroying the vector frees its storage and the vector itself exactly when they came from the heap, also after "
     "a vector on the stack has grown.",
     ["histories", "inputs"],
     "every consistent vector (any capacity, item size, fill and storage owner), every item and every byte of it; any "
     "sequence of operations, because each one is shown to preserve consistency",
     "A lost byte, a missing ownership mark or an item written past the end needs a particular fill level and storage "
     "kind; the suite has no test of vectors.",
     ["src/main/aerospike/as_vector.c", "src/include/aerospike/as_vector.h"],
     [("growing and moving from stack to heap", "as_vector.c: as_vector_increase_capacity"),
      ("item address", "as_vector.h"), ("shifting on remove", "as_vector.c"), ("ownership flags", "as_vector.c")],
     "vectors", "check_vectors",
     "one arbitrary byte of one arbitrary item is traced through the operation by address arithmetic over the unknown "
     "item size; its place afterwards, the place of the new item, the count, the result, what is freed and the "
     "representation invariant must be the ideal ones at every return",
     level_note="13 public functions from every consistent state, up to 512 MB of items; how two items are compared "
                "for equality and allocation failure are outside this property.")

prop("O01", "Ordered maps hold one entry per key, in key order, and own their entries",
     "Every operation on an ordered map of fewer than a thousand entries acts like the same operation on an ideal sorted "
     "map: setting inserts the entry at its place in key order or replaces the entry of an equal key, looking up and "
     "removing act on exactly the entry of the key, visiting and iterating show every entry once, in key order, and all "
     "other entries stay as they are. "
     "The key and the value of an entry replaced, removed or cleared away are released exactly once and no other "
     "reference is touched; a missing value is stored as nil. "
     "Setting or removing fails only for a key that is not an integer, a string or a plain blob, or, when setting, for "
     "lack of memory, and a failed operation leaves the map as it was and leaks nothing.",
     ["histories", "inputs", "fault_sequences"],
     "every consistent map of up to 999 entries and any capacity, every key present or absent at any rank, every entry, "
     "every failing allocation; any sequence of operations, because each one is shown to preserve consistency",
     "A search that goes wrong at one size and rank, a reference released twice or a capacity that no longer matches "
     "the table after a failed allocation is not met by tests that insert a few integers.",
     ["src/main/aerospike/as_orderedmap.c", "src/include/aerospike/as_orderedmap.h"],
     [("binary search", "as_orderedmap.c: key_find"), ("shifting and growing", "as_orderedmap.c: as_orderedmap_set"),
      ("release of keys and values", "as_orderedmap.c"), ("iterator", "as_orderedmap.c")],
     "maps", "check_maps",
     "the searched key has an arbitrary rank and one arbitrary entry is traced through the operation; the search loop is "
     "summarised by invariants over the rank; the places of the new and the traced entry, the count, the release calls, "
     "the result and the representation invariant must be the ideal ones at every return",
     level_note="13 public functions from every consistent state of up to 999 entries; larger maps, which keep new "
                "entries in a second table for a while, are outside this property.")

prop("R01", "References are counted atomically and the last holder cleans up once",
     "Reserving a value or a counted memory block adds exactly one reference and giving one up removes exactly one, each "
     "as a single atomic step, for every type of value; constants, which are not counted, are never changed. "
     "The holder that gives up the last reference, and no other, releases what the value owns exactly once (text or "
     "content it owns, both members of a pair, or the contents through the value's own destroy operation) and frees the "
     "value if it came from the heap, ordered after all accesses of the other holders. "
     "Nothing is touched after giving up a reference that may not be the last, and the result tells the holder whether "
     "it was the last, or for memory blocks the new count.",
     ["schedules", "inputs"],
     "every type of value, on the heap or not, with content owned, borrowed or absent; every count, which other threads may "
     "change between any two looks at it; every block size and failing allocation",
     "Two threads dropping the last two references at the same moment, or a missing ordering that only shows on weakly "
     "ordered processors, does not happen in single-threaded tests.",
     ["src/main/aerospike/as_val.c", "src/main/citrusleaf/cf_alloc.c", "src/include/aerospike/as_val.h",
      "src/main/aerospike/as_string.c", "src/main/aerospike/as_bytes.c", "src/main/aerospike/as_pair.c",
      "src/main/aerospike/as_geojson.c"],
     [("per-type tables", "as_val.c"), ("atomic counter", "as_val.c, cf_alloc.c"), ("destructors", "as_*.c")],
     "refs", "check_refs",
     "the count is refreshed with an unknown number before every look at it, standing for all other threads; every path "
     "must contain one atomic step of the right size and ordering, and what is freed, released and returned is compared "
     "with what the old count at that step demands",
     level_note="as_val reserve and destroy for all ten counted types and four constants, the typed destroy calls, and "
                "the five functions for counted memory blocks; the destroy operations of list and map implementations "
                "themselves are decided by L01 and O01.")

prop("A01", "Atomic helpers act in one indivisible step on their whole target",
     "Every atomic load, store, add, increment, decrement, swap, compare-and-swap and set-to-maximum helper acts on exactly "
     "its target, as a whole and in one indivisible step, however other threads change the target meanwhile. "
     "It stores the promised value, returns the value it promises (the one before or the one after its own step, or "
     "whether it changed the target), and a conditional helper changes the target exactly when its condition holds at "
     "that step. "
     "Helpers that promise acquire or release ordering have at least that ordering.",
     ["schedules", "inputs"],
     "every argument, every content of the target, every change other threads make between any two looks at it; every "
     "width and signedness",
     "Another thread has to change the target between two instructions, and weaker ordering shows only on some "
     "processors; single-threaded tests see the same results from a load followed by a store.",
     ["src/include/aerospike/as_atomic_gcc.h", "src/include/aerospike/as_atomic.h"],
     [("typed wrappers", "as_atomic_gcc.h"), ("compare-and-swap loop", "as_atomic_gcc.h: as_setmax_uint64")],
     "atomic", "check_atomics",
     "the target is refreshed with an unknown number before every look; on every path the number of changing steps, the "
     "values before and after the step, the result and the ordering of the instructions are compared with the contract "
     "given by the helper's name; retry loops are summarised by invariants",
     level_note="the 100 wrapper functions as compiled by the compiler in use (the header for other compilers is not "
                "analysed).")

prop("A02", "Spin locks exclude each other and hand over what was written",
     "A spin lock is held by at most one thread: locking returns only after its own step turned a free lock into a held "
     "one, and never changes a lock others hold. "
     "A single-writer lock never lets its writer in while a reader is in, nor a reader in while the writer is in, counts "
     "every reader exactly once even when entering has to be retried, and unlocking takes away exactly the caller's own "
     "share. "
     "Whoever takes a lock sees everything written before the unlock that made it available.",
     ["schedules"],
     "every state of the lock word and every change that correct other holders make to it between any two looks",
     "A reader has to arrive exactly while the writer enters or leaves, and missing ordering shows only on some "
     "processors.",
     ["src/include/aerospike/as_atomic_gcc.h"],
     [("lock word", "as_atomic_gcc.h: as_spinlock, as_swlock"), ("writer bit and reader count", "as_atomic_gcc.h")],
     "atomic", "check_spin",
     "rely-guarantee over the lock word: it is split into the caller's share and the others' share, the latter refreshed "
     "before every look; each step of the caller may change only its own share, and at the return the share, what the "
     "deciding step saw of the others, and the ordering must be those of a holder; loops are summarised by invariants",
     level_note="the six lock and unlock functions; at most 2^29 readers; that spinning ends is not decided.")

prop("T01", "Values know their type and hold what they were made with",
     "Creating a value, on the heap or in the caller's memory, gives a value of its own type with exactly one reference, "
     "marked as heap memory exactly when it was created there, holding exactly the given content and ownership; nothing "
     "comes back, and nothing is lost, only when memory runs out. "
     "A cast to a type gives the value itself exactly when the value is of that type, a getter gives what the value "
     "holds, or its fallback when there is no value, and the length of a text is the one given or counted. "
     "The hash code and the text form of a value are those of its own type, and only true booleans and non-zero integers "
     "are true.",
     ["inputs", "fault_sequences"],
     "every content, length, ownership flag, type of value, missing value and failing allocation",
     "A wrong default, an unmarked copy or a cast that lets one foreign type through shows only for that one type and "
     "case; tests seldom make an allocation fail.",
     ["src/include/aerospike/as_val.h", "src/main/aerospike/as_val.c", "src/main/aerospike/as_boolean.c",
      "src/main/aerospike/as_integer.c", "src/main/aerospike/as_double.c", "src/main/aerospike/as_string.c",
      "src/main/aerospike/as_geojson.c", "src/main/aerospike/as_bytes.c", "src/main/aerospike/as_pair.c",
      "src/main/aerospike/as_list.c", "src/main/aerospike/as_map.c", "src/main/aerospike/as_rec.c"],
     [("value header", "as_val.h"), ("constructors", "as_*.c"), ("casts and getters", "as_*.h"),
      ("per-type tables", "as_val.c")],
     "types", "check_types",
     "every public constructor, cast, getter and dispatching function is interpreted for every type and for symbolic "
     "contents, with every allocation able to fail; the fields of the result, the result itself and what stays allocated "
     "are compared with the contract; a copied text is followed through one arbitrary byte",
     level_note="73 functions; array lists and ordered maps are created under L01 and O01; the calculation of hash "
                "codes is outside this property.")

prop("E01", "Direct packers write exactly the MessagePack form, inside the buffer given",
     "Packing nil, a boolean, an integer, a floating point number, text, bytes, raw bytes or a list, map or extension "
     "header writes exactly the bytes of its shortest MessagePack form (numbers highest byte first) at the packer's "
     "position, advances the position by their number, and touches nothing else of the buffer, which is never replaced. "
     "A call fails only if the value does not fit in the space left, and then writes nothing outside that space. "
     "Without a buffer the same calls only advance the position by the same amount, and the size functions return that "
     "amount.",
     ["inputs"], "every value, every size below 2^32, every position and capacity, with and without a buffer",
     "formats change at values such as 2^16 or 2^32 and sizes wrap near 4 GB; tests try a handful of values in buffers that "
     "are large enough",
     ["src/main/aerospike/as_msgpack.c", "src/include/aerospike/as_msgpack.h"],
     [("packer position and capacity", "as_msgpack.h"), ("pack_type_uint32 and its siblings", "as_msgpack.c")],
     "encode", "check_pack",
     "each packer is interpreted once per range of its argument, the argument being a sum of unknown bytes: every path "
     "must end with the position moved by the size of the form, each output byte equal to the byte the format names, a "
     "traced byte of the content in its place, all writes between the old and the new position, and failure only where "
     "position plus size exceeds the capacity",
     level_note="sixteen packers and thirteen size functions")

prop("D01", "Decoding returns exactly the value written",
     "Given a complete value of the kind asked for, the decoders of nil, booleans, integers, floating point numbers, text, "
     "extensions, blob sizes and list and map headers succeed and return exactly the number, flag, length or place "
     "written, for every MessagePack format of it, and move the position by exactly the bytes they consumed. "
     "They fail if the input ends inside the value or the next value is of another kind. "
     "Looking at the type of the next value never moves the position and names its true type, and the general decoder and "
     "the size query agree with these for every value that is not a container.",
     ["inputs"], "all 256 first bytes, all following bytes, every position and input length",
     "four byte orders times eight widths times signedness: a sign or width slip shows only for numbers beyond those the "
     "tests use, and truncated input is hardly tested",
     ["src/main/aerospike/as_msgpack.c", "src/include/aerospike/as_msgpack.h"],
     [("unpacker position and length", "as_msgpack.h"), ("extract_uint32 and its siblings", "as_msgpack.c")],
     "unpack", "check_unpack",
     "each decoder is interpreted for every first byte, with input that ends nowhere, inside or before the value; on every "
     "path the outcome, the returned number as a sum of the input bytes, pointers, lengths and the new position are "
     "compared with the format's definition",
     level_note="eighteen decoders times 256 first bytes; contents of lists and maps are not "
     "followed")

prop("E02", "Packing a value appends exactly its MessagePack form, losing nothing",
     "Packing a nil, boolean, integer, floating point, text, geographic, byte or special value appends exactly its "
     "MessagePack form behind what was packed before; a pair or list is its header followed by each member once and in "
     "order, a map its header (key-ordered maps: one entry more, first a flags extension with nil) followed by each key and "
     "directly after it its value. "
     "When the buffer is full the packer goes on in a new one and keeps the old one with everything in it, in order; "
     "without a buffer it only counts the same bytes. "
     "Packing fails exactly if there is no value or no packed form for it, a member fails (then no further member is "
     "packed) or memory runs out, and even then no buffer is lost or freed.",
     ["inputs", "fault_sequences"],
     "values of every kind, contents and sizes below 2^32, every position and capacity, with and without saved buffers, "
     "failing allocations and members",
     "buffers roll over only when a value straddles the end of a block; tests pack small values and compare by decoding "
     "with the same library, which hides errors common to both sides",
     ["src/main/aerospike/as_msgpack.c", "src/include/aerospike/as_msgpack.h"],
     [("chain of packer buffers", "as_msgpack.h"), ("as_pack_val", "as_msgpack.c")],
     "packval", "check_packval",
     "the value packer is interpreted for each kind and size range, nested values standing for themselves; on every path "
     "the output, followed through the chain of saved buffers, is compared byte by byte with the form, a traced byte of "
     "the content and one or two traced members must come out once, in order and in place",
     level_note="list and map members are traced one or two at a time; packing of a member is the same function and is "
     "assumed for nested values")

prop("E03", "The serializer hands over one block with exactly the packed bytes",
     "Serializing a value hands over one heap block that holds exactly its packed bytes in order, with their exact number "
     "as size and a capacity the block really has, and frees everything else; if packing fails, memory runs out or the "
     "total does not fit the size field it reports failure and keeps nothing. "
     "The size query and the presized call return that same number (zero and a negative number if packing fails), and the "
     "presized call puts the bytes into the caller's buffer and allocates nothing. "
     "Deserializing decodes exactly the bytes of the given buffer from its start and passes on the decoder's outcome and "
     "value.",
     ["inputs", "fault_sequences"],
     "packed sizes up to several times 2^32, up to three saved buffers, a packer that fails at any time, failing "
     "allocations",
     "the buffers are combined only for values beyond eight kilobytes, and a failing allocation or a total beyond four "
     "gigabytes never happens in the tests",
     ["src/main/aerospike/as_msgpack_serializer.c", "src/include/aerospike/as_serializer.h",
      "src/include/aerospike/as_msgpack_serializer.h"],
     [("combining of packer buffers", "as_msgpack_serializer.c"), ("serializer interface", "as_serializer.h")],
     "serial", "check_serial",
     "the four generic calls are interpreted with the serializer's operation table; the packer is a stand-in that counts, "
     "fills the buffer or leaves up to three saved buffers, or fails; result, size, capacity, a traced byte and the fate of "
     "every block are compared on every path",
     level_note="chains of up to three saved buffers")

# properties outside what static analysis decides: id -> reason
prop("R02", "A result holds one value and gives it up exactly once",
     "A result starts with one reference, holds exactly the value and the success or failure it was made with or last set "
     "to, and is marked as heap memory exactly when it was made there; nothing comes back only when memory runs out. "
     "Setting a result gives up the value it held before exactly once; asking for the value changes nothing. "
     "Reserving and destroying change the count by exactly one in a single atomic step, and only the holder of the last "
     "reference, ordered after all accesses of the other holders, gives up the value, once, and frees a result on the "
     "heap.",
     ["schedules", "inputs", "fault_sequences"],
     "results with and without a value, on the heap or not; every count, which other threads may change between any two "
     "looks; failing allocations",
     "No test of the repository uses results at all, and a lost or doubled reference shows only when the last holder "
     "goes.",
     ["src/main/aerospike/as_result.c", "src/include/aerospike/as_result.h"],
     [("result", "as_result.c"), ("atomic count", "as_result.c")],
     "results", "check_results",
     "all eleven functions are interpreted on symbolic results, the count refreshed before every look; fields, result, "
     "given-up references, freed blocks and ordering are compared with the contract on every path",
     level_note="eleven functions.")

prop("H01", "Generic calls reach the implementation and come back unchanged",
     "Every call of the generic list, map, record, iterator, stream, serializer, module, timer and database interfaces "
     "invokes the operation of the same name of the object's implementation exactly once, with the caller's arguments "
     "unchanged and in order, and returns that operation's result; if the object or the operation is missing, nothing is "
     "invoked and the same fixed default (failure, zero or nothing) is returned. "
     "The typed variants hand over exactly the given value, wrapped as its own type, and give back the stored value or "
     "content only if it has the asked type. "
     "Made through these calls, each operation of the library's own lists, maps and iterators has the effect of its "
     "direct call, and objects remember their source and operations and are freed on destruction exactly if they are on "
     "the heap.",
     ["inputs", "programs"], "all arguments, implementations with and without each operation, all value types",
     "about two hundred one-line calls; a swapped operation or argument shows only with an implementation and a value "
     "that tell the two apart, and no test goes through most of them",
     ["src/include/aerospike/as_list.h", "src/include/aerospike/as_map.h", "src/include/aerospike/as_rec.h",
      "src/include/aerospike/as_stringmap.h", "src/include/aerospike/as_iterator.h", "src/include/aerospike/as_stream.h",
      "src/include/aerospike/as_aerospike.h", "src/include/aerospike/as_serializer.h", "src/main/aerospike/as_module.c",
      "src/main/aerospike/as_timer.c", "src/main/aerospike/as_arraylist_hooks.c",
      "src/main/aerospike/as_arraylist_iterator_hooks.c", "src/main/aerospike/as_orderedmap.c"],
     [("operation tables", "src/main/aerospike/as_arraylist_hooks.c"), ("as_util_hook", "src/include/aerospike/as_util.h")],
     "generic", "check_generic",
     "each generic call is interpreted on an object whose operations are all distinct unknowns, and again with its own "
     "operation, the table or the object missing: exactly one invocation, of the operation of that name, every argument "
     "equal to the caller's, result equal to the operation's; typed variants for values of all fifteen types; then the "
     "sequence rules of L01 and the entry rules of O01 are decided again with the generic call as entry point, on lists "
     "and maps carrying the tables their constructors install",
     level_note="about 220 entry points; the hash operations of lists and maps are only checked to be forwarded")

prop("K01", "Clock readings, deadlines and epoch conversions are exact",
     "Every clock reading returns the time of its clock (monotonic for elapsed time, wall clock for absolute and library "
     "epoch time) in the unit named, rounded down. "
     "A deadline or time span made from milliseconds or from another time equals exactly the time asked for, counted from "
     "now on the wall clock for deadlines, and its nanoseconds are always between 0 and 999999999. "
     "Times convert between the system and the library epoch without error, times before the library epoch giving zero, and "
     "a record's expiry time gives its remaining seconds, at least one, or the largest number if it never expires.",
     ["inputs"], "every clock value from 2010 to 2146, every wait up to 2^31-1 milliseconds, every 64 bit time",
     "a carry is lost only if the nanoseconds of the clock and the wait add up to exactly one second, one chance in a "
     "billion; wrong clocks agree until the wall clock is set",
     ["src/include/citrusleaf/cf_clock.h", "src/main/citrusleaf/cf_clock.c"],
     [("deadline arithmetic", "cf_clock.h"), ("epoch conversions", "cf_clock.h")],
     "clock", "check_clock",
     "each function is interpreted with a clock of unknown seconds and nanoseconds and an unknown argument; every result is "
     "compared as an exact linear form with the time it stands for",
     level_note="twenty functions, Linux branch of the conditional code only")

prop("G01", "Linked lists keep every element linked in order in both directions",
     "After any insertion or removal a linked list holds exactly the elements it should, in the right order, read from either "
     "end, and its size is their number. "
     "A visitor sees every element once in the direction asked for until it stops the walk; elements it asks to remove are "
     "unlinked and handed to the destructor exactly once, an element it asks to insert goes where it said, and its negative "
     "answer becomes the result. "
     "Searching, indexing (negative from the end, nothing if out of range) and iterators give the elements at the places they name.",
     ["inputs", "histories"],
     "every place in a list of any length for insertion and removal, every answer of a visitor at each step",
     "a wrong back link shows only if the list is later walked backwards or an element next to it is removed; the tests "
     "have no linked list suite",
     ["src/include/citrusleaf/cf_ll.h", "src/main/citrusleaf/cf_ll.c"],
     [("insertion and removal", "cf_ll.c"), ("walks with a visitor", "cf_ll.c")],
     "links", "check_links",
     "shape analysis: each operation is interpreted on lists given by their links (two ends, a window and unknown stretches "
     "between, or written out in full), the visitor giving every answer; the links, count, visits and results of each "
     "outcome are compared with those of the sequence",
     level_note="insertion and removal: any length; visitor walks up to 5 elements, index and iterators up to 8")

prop("P01", "Byte buffers give back exactly the bytes put into them",
     "Setting or appending raw bytes, fixed-size numbers or a double succeeds exactly when they fit the capacity; then exactly "
     "those bytes are written at the place named, every other byte stays, and the size covers them, and a refused write changes nothing. "
     "Reading bytes or numbers gives what is stored and the number of bytes read, or zero with the target untouched when they "
     "reach beyond the size; variable-length integers are read and written so that the number and the bytes used come back. "
     "Truncating removes the last bytes, and ensuring capacity keeps content, size and type, leaves the buffer alone when it "
     "fails, and frees only storage the buffer owns.",
     ["inputs", "histories"],
     "any capacity, size, position, length and content; allocation failing or not",
     "tests use a few small values that fit; positions near the capacity or 2^32 and kept neighbours are not looked at",
     ["src/include/aerospike/as_bytes.h", "src/main/aerospike/as_bytes.c"],
     [("writing and reading", "as_bytes.c"), ("capacity", "as_bytes.c")],
     "bytesval", "check_bytesval",
     "abstract interpretation with traced bytes: position, lengths and capacity are unknown numbers, one unknown byte of the "
     "content or of its neighbourhood is followed; result, bytes and fields of each outcome are compared with the contract",
     level_note="any size and position; the storage is as large as recorded")

prop("X01", "Base64 and hexadecimal text stand for exactly the bytes given",
     "Encoding bytes as base64 or hexadecimal text gives the standard text for them, padded respectively terminated, and "
     "decoding well-formed text gives exactly the bytes it stands for and their number, also in place. "
     "Validating decoders refuse any text of wrong length, with a character outside the alphabet or with misplaced padding, and "
     "accept all other text; hexadecimal conversion fails exactly when the room given is too small, the text is of odd length or "
     "a character is no digit. "
     "No conversion reads or writes outside its buffers when the output has the size the length functions report.",
     ["inputs"],
     "every content of up to seven bytes and up to twelve base64 or five hexadecimal characters; buffer bounds for any length",
     "there is no test for either conversion; a wrong table entry shows for one character only and an overflow for text of "
     "more than a gigabyte",
     ["src/include/citrusleaf/cf_b64.h", "src/main/citrusleaf/cf_b64.c", "src/include/aerospike/as_bytes.h",
      "src/main/aerospike/as_bytes.c"],
     [("base64", "cf_b64.c"), ("hexadecimal text", "as_bytes.c")],
     "codec", "check_codec",
     "abstract interpretation over single bits: bytes are sums of unknown bits, constant tables at unknown places give unknown "
     "bits tied to the table; each character or byte written is compared with the bits it has to stand for, and each accepting "
     "or refusing path with the texts it admits; loops are summarised for the bounds",
     level_note="content: up to 7 bytes, 12 characters; bounds: any length")

prop("N01", "Comparing packed values gives their order and reads both exactly",
     "Packed values are ordered by type first; then integers and booleans by value, strings, bytes and GeoJSON byte by byte "
     "and then by length, lists by their first differing element and then by length, maps by size, order flags and then their "
     "first differing key or value. "
     "A wildcard equals anything and ends the comparison of the list or map it stands in, two infinities are equal. "
     "Whatever the order, both readers are left right behind the values compared, also for deeply nested values.",
     ["inputs"],
     "all contents of single values, of lists of up to three elements and maps of up to three pairs in every header form, nested "
     "one in the other or 255 to 257 levels deep; texts, lists and maps of some hundred entries differing at their ends",
     "tests compare a few lists and mixed values and look at the result only; where readers are left and ordered or deep maps "
     "are not looked at",
     ["src/include/aerospike/as_msgpack.h", "src/main/aerospike/as_msgpack.c"],
     [("comparison of packed values", "as_msgpack.c"), ("comparison without recursion", "as_msgpack.c")],
     "compare", "check_compare",
     "abstract interpretation over pairs of packed shapes whose contents are unknown bytes: each outcome's result is compared "
     "with the order of the values for all contents the path admits, and the reader offsets with the lengths of the shapes",
     level_note="pairs of fixed shapes: up to 3 elements or pairs, some of 300, nesting of 2 or 255 to 257; doubles: only offsets and that an order is given")

prop("T02", "The text form of a value is complete, terminated and the caller's own",
     "Asking a value for its text gives terminated text in memory of its own for the caller to free, or none when memory runs "
     "out or the value has nothing to show; nothing outside the value is read, nothing outside the text is written, and no "
     "other memory is kept. "
     "Strings and GeoJSON are given between double quotes up to their recorded length, bytes as two hexadecimal digits each "
     "with a space between, pairs, lists and maps as the texts of their parts in their brackets with comma and space between "
     "entries and a colon between key and value.",
     ["inputs", "fault_sequences"],
     "values of every type with any content, any recorded length and any failing allocation; lists and maps of up to two "
     "entries with or without a text, of any length",
     "tests print a few short values; texts longer than the recorded length, parts without a text and failing allocations do "
     "not occur",
     ["src/include/aerospike/as_val.h", "src/main/aerospike/as_string.c", "src/main/aerospike/as_geojson.c",
      "src/main/aerospike/as_bytes.c", "src/main/aerospike/as_pair.c", "src/main/aerospike/as_list.c",
      "src/main/aerospike/as_map.c"],
     [("text forms", "as_val.h")],
     "texts", "check_texts",
     "abstract interpretation of each text form over values with unknown content and length: bounds and ownership on every "
     "path, the characters of the result against the value for short content, every allocation and every part's text may be "
     "missing",
     level_note="characters: up to 5 characters, 3 bytes, 2 entries; bounds: any length (parts of lists and maps up to 2^26); "
     "digits of numbers are left to the C library; what a list or map shows for a part without text is not decided")

prop("N02", "Comparing values in memory gives their order",
     "Values are ordered by type first; then booleans and integers by value, strings, GeoJSON and bytes byte by byte as unsigned "
     "numbers and then by length, lists by their first differing element and then by length, ordered maps by size and then by "
     "their first differing key or value. "
     "A wildcard element makes the lists it stands in equal when everything before it is, and two infinities are equal.",
     ["inputs"],
     "all contents of single values, of texts of up to three bytes and some of 300, of lists of up to three elements and ordered "
     "maps of up to three pairs, also nested one in the other",
     "tests compare a few keys through ordered maps; extreme integers, bytes above 127, prefixes, values of maps and infinities "
     "are not compared",
     ["src/include/aerospike/as_msgpack.h", "src/main/aerospike/as_msgpack.c"],
     [("comparison of values in memory", "as_msgpack.c")],
     "valcmp", "check_valcmp",
     "abstract interpretation over pairs of values of fixed shape with unknown content: each outcome's result is compared with "
     "the order of the values for all contents the path admits",
     level_note="pairs of fixed shapes: up to 3 elements or pairs, one list of 300, nesting of 2; doubles: only that an order is "
     "given; unordered maps and a wildcard compared with a value outside a list are not decided")

prop("W01", "Pool buffers are large enough, and kept or freed exactly once",
     "A buffer taken from a pool has room for the header and the requested size, its stated capacity is the room behind the "
     "header, and the result says whether it came from the pool, is new, or is larger than the pool's buffers. "
     "A buffer given back is either kept once or freed once and the result says which: larger buffers are freed, others are kept "
     "unless the queue or the limit refuses them. "
     "Dropping frees as many buffers as asked for and there, destroying frees all, and no operation waits for a buffer.",
     ["inputs", "fault_sequences"],
     "all header, buffer and requested sizes and capacities of 32 bits, each result of the queue, and failing allocations; "
     "dropping and destroying for up to three buffers kept",
     "no test uses a pool; sizes at the 32-bit border, a full queue and failing allocations need special set-ups",
     ["src/include/aerospike/as_buffer_pool.h", "src/main/aerospike/as_buffer_pool.c"],
     [("buffer pool", "as_buffer_pool.c")],
     "pool", "check_pool",
     "abstract interpretation of each pool operation with the queue replaced by its contract: on every path the size and owner of "
     "each buffer and the result are compared with what the operation promises",
     level_note="the queue is taken by its contract (Q01 decides the queue); dropping and destroying only for up to 3 buffers "
     "kept; buffers given back are assumed to have the capacity they were handed out with")

# properties outside what static analysis decides: id -> reason
NA = {}

REG = {p["id"]: (p["module"], p["func"], p) for p in PROPS}
