import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/main/aerospike/";I="src/include/aerospike/";C="src/main/citrusleaf/";CI="src/include/citrusleaf/"

p("C01","Any storable value survives serialize / deserialize unchanged",
"For every value built from nil, booleans, 64-bit integers, doubles, NUL-free strings, GeoJSON, typed byte blobs, lists and maps (integer, string or blob keys), serializing it and deserializing the result yields a value equal to the original in type, content, blob type tag, list order and map entries and ordering flags, bit for bit for doubles. Serializing the deserialized value again yields exactly the same bytes. This holds at every size and at any nesting depth a caller can build, in particular on both sides of every length at which the encoding or the output buffering changes form.",
["inputs"],"all value trees over the storable types, any size, nesting depth and element count, including the header-width and output-buffer boundaries",
"The existing round-trip tests use a few dozen hand-written small values; the space of shapes, lengths around 2^5/2^8/2^16 and the 8 KiB chunk boundary, and deep nesting is not reached.",
[S+"as_msgpack.c",S+"as_msgpack_serializer.c",S+"as_orderedmap.c",S+"as_arraylist.c"],
[("value packer",S+"as_msgpack.c as_pack_val and its per-type helpers"),("value unpacker",S+"as_msgpack.c as_unpack_val and its per-type helpers"),("chunked output buffers",S+"as_msgpack.c pack_resize; "+S+"as_msgpack_serializer.c")],
["as_serializer_serialize output bytes","value tree returned by as_serializer_deserialize"])

p("C02","Predicted serialized size equals bytes written on every output path",
"For every serializable value, the size reported in advance equals the number of bytes the growing serializer produces and the number of bytes the presized serializer writes into a caller buffer of exactly that size, and all paths produce identical bytes. The presized path never writes outside the region it reported.",
["inputs","configurations"],"all storable value trees crossed with the output paths (size query, growing buffer with and without initial capacity, presized buffer)",
"Tests compare a handful of values on one path; agreement of independently computed sizes with written bytes for all shapes and around internal chunk boundaries is a relation over all inputs.",
[S+"as_msgpack.c",S+"as_msgpack_serializer.c",I+"as_serializer.h"],
[("size computation pass",S+"as_msgpack_serializer.c serialize_getsize"),("presized write",S+"as_msgpack_serializer.c serialize_presized"),("chain of output buffers",S+"as_msgpack_serializer.c serialize")],
["returned size","as_buffer contents and size","bytes around the caller buffer"])

p("C03","Encoder emits shortest-form MessagePack and respects fixed buffers",
"Every encoder entry point (whole values and the direct scalar, string, blob, list/map header and extension writers) emits exactly the shortest MessagePack encoding of its argument under the library's documented typed-blob and map-flag conventions, and the matching size function returns exactly that length. When the encoder is given a caller buffer of fixed capacity that is too small, a direct writer reports an error, writes nothing beyond the capacity, and leaves the caller's buffer in place.",
["inputs","configurations"],"all argument values of every encoder entry point, crossed with every buffer capacity from zero to the needed length and beyond, and every starting offset",
"Tests check a few literal encodings; the boundaries of each header form, every extension length form and every insufficient capacity are not enumerated.",
[S+"as_msgpack.c",I+"as_msgpack.h"],
[("direct writers",S+"as_msgpack.c as_pack_*"),("size helpers",I+"as_msgpack.h and "+S+"as_msgpack.c *_size"),("capacity handling",S+"as_msgpack.c pack_resize and header/append helpers")],
["bytes in the output buffer","return codes","packer offset and buffer identity after each call"])

p("C04","Every valid MessagePack encoding decodes and skips as the value it denotes",
"For every well-formed MessagePack encoding of a supported value, including non-minimal integer, string, blob, list and map forms, single-precision floats and leading metadata extensions, decoding yields exactly the denoted value (a map marked as order-preserving decodes as the flat list of its keys and values) and consumes exactly its bytes. The type probe, the typed readers and the element-count readers agree with that value, and the skip operation advances by exactly the encoded length at every nesting depth.",
["inputs"],"all well-formed encodings of supported values at any nesting depth, embedded at any offset and followed by arbitrary bytes",
"Tests decode only what the library itself encodes plus a few literals; non-canonical widths and nesting beyond the recursion limit are not reached.",
[S+"as_msgpack.c",I+"as_msgpack.h",I+"as_msgpack_ext.h"],
[("value unpacker",S+"as_msgpack.c as_unpack_val"),("skipper, recursive and non-recursive",S+"as_msgpack.c as_unpack_size"),("typed readers",S+"as_msgpack.c as_unpack_int64/uint64/double/str/bin/ext/...")],
["decoded values","reader offset","returned sizes and counts"])

p("C05","Length-checked readers never stray outside or accept truncated input",
"Given an arbitrary byte buffer and any reading position inside it, the length-checked MessagePack readers (integers, doubles, strings, blobs, blob sizes, extensions, list and map element counts) never touch a byte outside the buffer. They succeed exactly when a complete item of the requested kind (for sizes and counts, a complete header) is present at that position, and then report the item's true content, wholly inside the buffer, and advance exactly past the item; otherwise they report an error.",
["inputs"],"all byte strings (random, mutated valid encodings, truncated at every byte), all positions, all length-checked readers",
"Tests only feed valid data; hostile lengths such as 2^32-1 and truncation at every byte need generation and a memory oracle.",
[S+"as_msgpack.c",I+"as_msgpack.h"],
[("bounded readers",S+"as_msgpack.c as_unpack_uint64/int64/double/str/bin/blob_size/ext/list_header_element_count/map_header_element_count")],
["return values","reader offset","memory accesses (sanitizer redzones)"])

p("C06","Comparing two encoded values gives the documented order at any depth",
"For any two valid encodings, comparison returns less, equal or greater exactly as defined by the documented ordering: first by type rank, then integers and doubles numerically, strings and blobs bytewise then by length, lists elementwise then by length, maps by entry count then metadata then entries, with the wildcard equal to anything and infinity above everything. The answer is antisymmetric, depends only on the values and not on the integer or header widths or nesting depth used to encode them, and both readers end up exactly past their value whatever the answer.",
["inputs"],"all pairs of valid encodings of related or unrelated values, including nesting beyond the recursion limit, re-encodings with wider headers, wildcards, and values followed by further data",
"Tests compare a few short lists and maps; consumption after an early decision, metadata entries, and the separate deep-nesting algorithm are not covered.",
[S+"as_msgpack.c",I+"as_msgpack.h"],
[("recursive comparison",S+"as_msgpack.c msgpack_compare_*"),("non-recursive comparison for deep nesting",S+"as_msgpack.c msgpack_compare_non_recursive")],
["comparison result","offset of both readers afterwards"])

p("C07","In-memory value comparison is a consistent total order",
"Comparing in-memory values is reflexive, antisymmetric and transitive, follows the documented type and value ordering, and compares a value equal to its deserialized copy. For storable values that contain no maps it gives the same answer as comparing the serialized forms.",
["inputs"],"all pairs and triples of storable values, near-equal variants and unrelated ones, excluding NaN",
"A total-order law and agreement between two independent comparison algorithms are relations over all pairs and triples; tests check single pairs.",
[S+"as_msgpack.c",S+"as_val.c",S+"as_orderedmap.c"],
[("value comparison",S+"as_msgpack.c as_val_cmp and per-type helpers")],
["comparison result for (a,b), (b,a), triples, and serialized forms"])

p("C08","Ordered map behaves as a sorted dictionary under any history",
"Under any sequence of set, get, remove, clear, iterate and foreach calls, a map holds for each key the last value set and not since removed, reports the matching size, and iterates every entry exactly once in ascending key order (a foreach callback can stop early and the call reports it). Unsupported keys are rejected without changing the map. This holds at every size and insertion order, through the concrete and the generic map interface alike.",
["histories","inputs"],"all operation histories over integer, string and blob keys, sizes from empty to several thousand entries with any insertion order",
"Tests build small maps in a few fixed orders; the deferred-insertion path only becomes active above a thousand entries with out-of-order keys, interleaved with lookups, overwrites and removals.",
[S+"as_orderedmap.c",S+"as_map.c",I+"as_orderedmap.h",I+"as_map.h",I+"as_stringmap.h"],
[("sorted table with deferred insertions",S+"as_orderedmap.c set/merge/find"),("generic map hooks",S+"as_orderedmap.c hooks, "+I+"as_map.h")],
["as_orderedmap_get/size/iterator/foreach results","as_map_* results"],
[("pending insertions","entries accepted but not yet merged into the sorted table",S+"as_orderedmap.c hold table")])

p("C09","Array list behaves as a sequence under any history",
"Under any sequence of append, prepend, insert, set, remove, trim, concat, take, drop, head, tail, get, iterate and foreach calls, an array list holds exactly the elements a plain sequence would, with gaps created by writing past the end reading as nil. A call that is refused (index out of range, or growth not allowed) reports the documented error and leaves the list unchanged. This holds for every initial capacity and growth block size and through the concrete and generic list interface alike.",
["histories","configurations"],"all operation histories crossed with initial capacity, block size, stack or heap list, generic or concrete interface",
"Tests run a fixed script with a fixed capacity; growth arithmetic, gaps and derived lists over all capacities and histories are not reached.",
[S+"as_arraylist.c",S+"as_arraylist_hooks.c",S+"as_list.c",S+"as_arraylist_iterator.c",I+"as_arraylist.h",I+"as_list.h"],
[("growth",S+"as_arraylist.c ensure"),("derived lists",S+"as_arraylist.c take/drop/tail/concat"),("generic hooks",S+"as_arraylist_hooks.c")],
["element values, size and return codes after every call"])

p("C10","Values are released exactly once when their last reference goes",
"In any single-threaded program that creates values, shares them by reservation, stores them in lists, maps, pairs, records and results, derives new lists from old ones, overwrites and removes entries and destroys everything it owns, every value stays intact while a reference to it exists and every block of memory is freed exactly once, none remaining at the end. Stack-allocated values and constants are never freed.",
["programs","histories"],"all programs over the value and container constructors, reserve/destroy, and container mutations including their refused calls",
"Leaks and double frees do not fail the existing assertions; sharing the same value between containers and dropping references in every order is not explored.",
[S+"as_val.c",S+"as_arraylist.c",S+"as_orderedmap.c",S+"as_pair.c",S+"as_boolean.c",S+"as_string.c",S+"as_bytes.c",S+"as_geojson.c",S+"as_result.c",S+"as_rec.c"],
[("reference counts",S+"as_val.c reserve/destroy"),("container element ownership",S+"as_arraylist.c, "+S+"as_orderedmap.c set/remove/clear/destroy")],
["every allocation and free performed by the library","readability of values through remaining references"])

p("C11","A value shared between threads is destroyed exactly once, by the last user",
"When several threads each hold a reference to a value or reference-counted block and reserve, read, and release it concurrently in any interleaving, it is destroyed exactly once, never while any thread still holds a reference, and the destruction happens after every other thread's use in the memory order the language guarantees. The reserve and release calls report counts consistent with some sequential order.",
["schedules","programs"],"all interleavings of small multi-threaded reserve/read/release programs over values, containers and counted blocks, including the weak-memory orderings allowed by the atomics used",
"Tests are single-threaded; a lost update or an ordering gap needs a particular interleaving and an order-aware detector.",
[S+"as_val.c",C+"cf_alloc.c",I+"as_atomic.h",I+"as_atomic_gcc.h",CI+"alloc.h"],
[("atomic reference counts",S+"as_val.c as_val_val_reserve/as_val_val_destroy"),("counted blocks",C+"cf_alloc.c cf_rc_*"),("atomic operations",I+"as_atomic_gcc.h")],
["frees observed by an interposed allocator","happens-before between uses and the free"])

p("C12","Byte buffers behave as bounded byte arrays under any history",
"Under any sequence of set, append, fixed-width and variable-length integer writes and reads, copy, truncate and ensure calls, a byte buffer holds exactly the bytes a bounded byte array would and keeps its type tag, for stack, wrapped and heap storage, growing only when asked. A write or read that does not fit is refused, for all index and size arguments, without touching memory outside the buffer or changing its contents.",
["histories","inputs"],"all operation histories with all 32-bit index and size arguments, over every way of creating the buffer",
"Tests use in-range arguments; overflowing index plus size and truncated variable-length integers are never tried.",
[S+"as_bytes.c",I+"as_bytes.h"],
[("bounds checks",S+"as_bytes.c as_bytes_copy/as_bytes_set/as_bytes_get_var_int/as_bytes_set_var_int"),("growth",S+"as_bytes.c as_bytes_ensure")],
["bytes, size and return values after every call","memory accesses"])

p("C13","Hex text of a blob converts both ways and never overflows",
"Converting bytes to hexadecimal text, with or without prefix, succeeds exactly when the text and its terminator fit, and parsing that text (either letter case, optional prefix) gives the same bytes back. Text that is odd-length, has a non-hex character, or denotes more bytes than the destination holds is rejected. No call writes outside the destination whatever its size, including zero and one.",
["inputs"],"all byte strings, all texts, all destination sizes from zero up",
"Tests convert one or two fixed blobs with ample room.",
[S+"as_bytes.c",I+"as_bytes.h"],
[("hex rendering",S+"as_bytes.c as_bytes_to_string*"),("hex parsing",S+"as_bytes.c as_bytes_from_string")],
["destination bytes and guard bytes","return value"])

p("C14","String builder output is the concatenation of what was appended",
"After any sequence of appends (text, characters, integers of every width, byte blobs, newlines) and resets, a growable builder's text is exactly the concatenation of the renderings, NUL-terminated, with the matching length. A builder over a fixed buffer never writes outside it, stays NUL-terminated, reports failure exactly when the result no longer fits, and until then equals the concatenation, after a failure holding a prefix of it.",
["histories","configurations"],"all append histories crossed with stack, heap and fixed storage of every small capacity",
"Tests use a few appends; growth boundaries and truncation at every offset of a multi-character rendering are not enumerated.",
[S+"as_string_builder.c",I+"as_string_builder.h"],
[("growth and truncation",S+"as_string_builder.c append functions")],
["builder text, length and return values","guard bytes around fixed storage"])

p("C15","Text rendering of a value shows every element completely",
"Rendering any value as text yields a complete NUL-terminated string: a container's text is its fixed frame around the renderings of all its elements in order, whatever their lengths, and scalars render to text that identifies their value; an element without text of its own shows as <NULL>. Rendering never fails, truncates, reads or writes out of bounds, or leaks, for any nesting or element length, including empty strings, blobs and containers.",
["inputs"],"all value trees including empty blobs, empty containers, long strings and deep nesting",
"Tests render a few short values; internal buffer growth while rendering containers and elements with no text of their own are not exercised.",
[S+"as_arraylist_hooks.c",S+"as_orderedmap.c",S+"as_map.c",S+"as_list.c",S+"as_pair.c",S+"as_string.c",S+"as_bytes.c",S+"as_integer.c",S+"as_double.c",S+"as_geojson.c",S+"as_val.c"],
[("container rendering buffers",S+"as_list.c, "+S+"as_map.c, "+S+"as_pair.c tostring")],
["as_val_tostring result"])

p("C16","Array queue operations match a sequence model under any history",
"Under any single-threaded sequence of push, limited, unique, indexed and head pushes, peek, pop, reduce in both directions, conditional pop and delete, the general-purpose queue holds exactly the elements a plain sequence would, in order, and every return code matches. This holds for every element size and capacity, across growth while wrapped around, and after more than a billion operations on a queue that never empties.",
["histories","configurations"],"all operation histories crossed with element size, initial capacity and thread-safe flag, plus very long histories that make internal counters wrap",
"There is no test of this queue at all in the suite; wrap-around position at the time of growth, middle deletion and counter wrap need long or specific histories.",
[C+"cf_queue.c",CI+"cf_queue.h"],
[("ring offsets and growth",C+"cf_queue.c resize/unwrap"),("middle deletion",C+"cf_queue.c delete_offset"),("indexed insertion",C+"cf_queue.c push_index")],
["popped elements","reduce callback sequence","size and return codes"])

p("C17","Client queue operations match a deque model under any history",
"Under any sequence of push, limited push, head push, pop and tail pop, the fixed-element queue holds exactly the elements a double-ended sequence would, in order, with matching results, size and emptiness, for stack and heap storage, every element size and capacity, across growth while wrapped around. The slot accounting (total counter) admits a limited acquisition exactly while below the limit.",
["histories","configurations"],"all operation histories crossed with element size, initial capacity, stack or heap storage, plus long histories",
"Tests push and pop a few integers at one capacity.",
[S+"as_queue.c",I+"as_queue.h"],
[("ring buffer and growth",S+"as_queue.c"),("inline push/pop",I+"as_queue.h")],
["popped elements, size and return values"])

p("C18","Vector operations match an array model under any history",
"Under any sequence of append, unique append, set, get, reserve, remove, clear, and conversion to an array, a vector holds exactly the elements an array would, in order, with reserved slots zeroed, for stack and heap storage, every element size and capacity of at least one. Converting to an array transfers exactly the current elements.",
["histories","configurations"],"all operation histories crossed with element size, capacity and storage kind",
"No tests exist for this container; growth from stack storage and removal at every index are not exercised.",
[S+"as_vector.c",I+"as_vector.h"],
[("growth",S+"as_vector.c as_vector_increase_capacity"),("removal",S+"as_vector.c as_vector_remove")],
["element bytes, size and return values","allocation balance"])

p("C19","Thread-safe array queue delivers each item once and never strands a waiter",
"With any number of producer and consumer threads on a thread-safe queue, in any interleaving, each pushed item is delivered to exactly one consumer, items from one producer reach any one consumer in order, and the whole history is equivalent to some sequential order of the calls. A consumer waiting without limit returns only with an item and never stays blocked while an item is available; a timed wait may end empty-handed only if the queue was empty at that moment, and no schedule deadlocks.",
["schedules","histories"],"all interleavings of small producer/consumer programs, including spurious wake-ups, timeouts and choice of awakened waiter",
"No test of this queue exists; lost wake-ups and unlocked paths need particular schedules.",
[C+"cf_queue.c",CI+"cf_queue.h",CI+"cf_clock.h"],
[("mutex and condition protocol",C+"cf_queue.c push*/pop/reduce_pop/delete")],
["sequence of call results per thread","deadlock detection by a controlled scheduler"])

p("C20","Thread-safe client queue delivers each item once and never strands a waiter",
"With any number of producer and consumer threads on the synchronized client queue, in any interleaving, each accepted item is delivered to exactly one consumer and the whole history is equivalent to some sequential order of the calls on a double-ended queue. A consumer waiting without limit returns only with an item and never stays blocked while an item is available; timed and non-waiting calls may come back empty only if the queue was empty at that moment, and no schedule deadlocks.",
["schedules","histories"],"all interleavings of small programs of push, limited push, head push, pop and tail pop with every wait mode, including spurious wake-ups and timeouts",
"The existing multi-threaded test runs one free-running schedule of one pattern.",
[S+"as_queue_mt.c",I+"as_queue_mt.h",S+"as_queue.c"],
[("mutex and condition protocol",I+"as_queue_mt.h and "+S+"as_queue_mt.c")],
["sequence of call results per thread","deadlock detection by a controlled scheduler"])

p("C21","Thread pool runs every accepted task exactly once before shutdown returns",
"Every task accepted by a thread pool is run exactly once, on some pool thread, before the pool's destruction returns, after which each started thread has run the finalizer exactly once and no pool memory remains. A pool in which some threads could not be started reports it and the same guarantees hold with the threads that did start; repeated destruction, even by two threads at once, is harmless and tasks offered to a pool without threads are refused.",
["schedules","fault_sequences","configurations"],"all interleavings of task submission, execution and shutdown, all pool sizes, every subset of failing thread starts",
"No test of the pool exists; shutdown races and failed thread starts need a scheduler and fault injection.",
[S+"as_thread_pool.c",I+"as_thread_pool.h",C+"cf_queue.c"],
[("worker loop and shutdown markers",S+"as_thread_pool.c"),("thread start accounting",S+"as_thread_pool.c as_thread_pool_init")],
["task execution counts","join targets and allocation balance","deadlock detection"])

p("C22","Buffer pool never hands one buffer to two holders",
"Under any history or interleaving of pool get, put, limited put and drop calls, every buffer handed out is at least as large as reported and requested, is exclusively the caller's until given back, and is either reused or freed exactly once. Oversized requests are served separately and never enter the pool, the limited put keeps the pool within its limit, drop reports how many buffers it released, and destruction frees all pooled buffers.",
["histories","schedules"],"all histories over all request sizes, header and buffer sizes, and interleavings of several threads",
"No test of the buffer pool exists.",
[S+"as_buffer_pool.c",I+"as_buffer_pool.h",C+"cf_queue.c"],
[("pool queue and size classes",S+"as_buffer_pool.c")],
["returned buffers, capacities and codes","every allocation and free"])

p("C23","Linked list operations match a sequence model under any history",
"Under any sequence of prepend, append, insert before or after, delete, indexed access, search, ordered insertion and reduce with deletion in either direction, the linked list enumerates exactly the elements a plain sequence would, forwards and backwards, with matching size. The destructor is called exactly once for each deleted element, and on a locking list concurrent calls behave as if executed one after another.",
["histories","schedules"],"all operation histories, both directions, and interleavings of several threads on a locking list",
"No test of the linked list exists; head/tail/only-element cases in each direction and deletion during traversal are unexercised.",
[C+"cf_ll.c",CI+"cf_ll.h"],
[("link updates",C+"cf_ll.c *_lockfree"),("traversal with deletion and insertion",C+"cf_ll.c reduce/insert_reduce")],
["enumeration forwards, backwards and by index","destructor calls"])

p("C24","Base64 encodes, validates and decodes as the standard says",
"For every byte string, base64 encoding yields the standard padded text of the predicted length, and decoding that text (separately or in place, with or without validation) gives the bytes and size back. The validating decoder accepts exactly the non-empty texts made of whole four-character groups of the standard alphabet with padding only at the very end, and rejects everything else, and no call reads or writes outside its buffers.",
["inputs"],"all byte strings and all candidate texts of all lengths",
"No test of the codec exists.",
[C+"cf_b64.c",CI+"cf_b64.h"],
[("alphabet tables and padding",C+"cf_b64.c")],
["encoded text, decoded bytes, sizes and return values"])

p("C25","Message digests equal the published algorithms for any chunking",
"For every message, the SHA-1 and RIPEMD-160 digests, computed in one call or incrementally over any division into chunks, equal those of an independent implementation of the published algorithms, and the two-part RIPEMD-160 form equals the digest of the concatenation. The printable form of a digest is the 0x-prefixed lowercase hexadecimal of its bytes, and digests compare as byte strings.",
["inputs"],"all messages, all lengths including padding boundaries, all divisions into chunks",
"No test of the digests exists; the padding and block-buffering boundaries over all chunkings need generation and an independent oracle.",
[C+"cf_crypto.c",CI+"cf_crypto.h",CI+"cf_digest.h",C+"cf_digest.c"],
[("block buffering and padding",C+"cf_crypto.c")],
["digest bytes"])

p("C26","Password hashing matches standard bcrypt and verifies only the password",
"For every password text and every well-formed salt and cost, the produced hash equals that of an independent bcrypt implementation, malformed or unsupported settings are refused, and verification accepts a password exactly when it hashes to the stored hash. Generated salts are well-formed, and the constant-salt hash is a fixed function of the password.",
["inputs","configurations"],"all password byte strings (any length, high-bit characters), all salts and low costs, all scheme variants, malformed settings",
"Tests check a single constant vector.",
[S+"as_password.c",S+"crypt_blowfish.c",I+"as_password.h"],
[("bcrypt",S+"crypt_blowfish.c"),("salt, hash and verify",S+"as_password.c")],
["hash text and return values"])

p("C27","TLS peer name checks accept exactly the names the certificate states",
"A peer name is accepted against a certificate exactly when it equals, ignoring letter case, one of the certificate's DNS names or common names, or when wildcards are allowed and it is matched by a name whose wildcard is the complete left-most label standing for exactly one label. The stricter alternative-name check accepts exactly the listed DNS names and IP addresses, IPv6 in any textual form. No certificate content, including embedded NUL or control characters, makes a different name match.",
["inputs"],"all non-empty printable host names as peer names, crossed with all certificates' subject and alternative names, wildcard option, address forms, and hostile name bytes",
"There are no tests of certificate name matching.",
[S+"ssl_util.c",I+"ssl_util.h"],
[("name extraction and comparison",S+"ssl_util.c as_tls_match_name"),("alternative-name comparison",S+"ssl_util.c as_tls_match_san")],
["boolean match result"])

p("C28","Random generators are reproducible, in-bounds and never repeat handed-out bytes",
"From a given seed the client generator produces exactly the published xorshift128+ sequence, and its byte-fill and text-fill calls write exactly the requested length (text drawn from all alphanumeric characters, and terminated), whatever the mix of calls and lengths. The system-seeded generator hands every byte of its entropy source to at most one caller, under any mix of request sizes and any interleaving of threads, refuses oversized requests and reports failure of its entropy source instead of returning stale bytes.",
["histories","schedules","fault_sequences"],"all seeds, all call mixes and lengths, all interleavings of callers, entropy-source failures",
"Tests draw a few numbers and look at their length; byte reuse across callers and failure paths are invisible to them.",
[S+"as_random.c",I+"as_random.h",C+"cf_random.c",CI+"cf_random.h"],
[("xorshift128+ state",I+"as_random.h"),("shared entropy buffer",C+"cf_random.c")],
["returned numbers and bytes","guard bytes","bytes supplied by a stand-in entropy source"])

p("C29","Clock conversions floor correctly and deadlines are exact valid times",
"For every current time and non-negative delay, the computed deadline is exactly the current time plus the delay expressed as a normalized time (nanoseconds below one billion), and the clock readings in nanoseconds, microseconds, milliseconds and seconds are the floor of the same instant. Conversions between the product's epoch and Unix time are exact inverses above the epoch, zero below it, and the expiry-to-lifetime conversion never reports an expired or zero lifetime for a record that has none.",
["inputs"],"all clock readings (including whole-second and nanosecond edges) and all delays and timestamps",
"No tests; the failing instants are a handful of nanoseconds per second, so real-clock tests never see them.",
[CI+"cf_clock.h",C+"cf_clock.c"],
[("deadline arithmetic",CI+"cf_clock.h"),("epoch conversions",CI+"cf_clock.h")],
["returned times under a stand-in clock"])

p("C30","Running out of memory fails cleanly and changes nothing",
"When a memory request fails inside an operation that reports allocation failure (constructors, container and queue growth, typed setters, byte-buffer growth, serialization, deserialization, measuring and comparing deep encodings, buffer and thread pools, base names, text rendering), the operation reports failure, every object still holds exactly what it held before and remains fully usable, and nothing leaks or is freed twice. An operation that can do without the memory may instead succeed with its full normal effect, a growable string builder may keep the terminated part that fitted, and a text may show a placeholder for a part that could not be rendered. Retrying after memory is available succeeds with the normal result.",
["fault_sequences","histories"],"every allocation point of every operation in generated histories failing one at a time, and every allocation from some point on failing, followed by further use",
"The tests never inject allocation failure.",
[C+"cf_queue.c",S+"as_queue.c",S+"as_arraylist.c",S+"as_orderedmap.c",S+"as_bytes.c",S+"as_msgpack_serializer.c",S+"as_msgpack.c",S+"as_buffer_pool.c",S+"as_string_builder.c",I+"as_stringmap.h",C+"cf_alloc.c"],
[("failure paths of growth",C+"cf_queue.c cf_queue_resize; "+S+"as_queue.c; "+S+"as_arraylist.c ensure; "+S+"as_orderedmap.c set; "+S+"as_bytes.c ensure"),("failure paths of encoding and decoding",S+"as_msgpack.c; "+S+"as_msgpack_serializer.c")],
["return codes, contents and allocation balance under an interposed allocator"])

p("C31","Hash and byte-order helpers equal their published definitions",
"For every input, the FNV-1a, Jenkins one-at-a-time, MurmurHash3 128-bit and wyhash functions return the value of the published algorithm and read only the given bytes, the pointer hash returns the upper half of the product with its constant, and the byte-order helpers convert every integer and floating-point value to and from big- and little-endian storage exactly and losslessly.",
["inputs"],"all byte strings of all lengths and alignments, all scalar bit patterns",
"No tests; tail handling by length class and the exact constants need an independent oracle over many lengths.",
[CI+"cf_hash_math.h",CI+"cf_byte_order.h"],
[("hash functions",CI+"cf_hash_math.h"),("byte swaps",CI+"cf_byte_order.h")],
["returned hash values and converted scalars"])

p("C32","A waiter on a monitor resumes exactly when notified, in every schedule",
"A thread waiting on a monitor resumes only after a notification made since the wait period began, never because of a spurious wake-up, and never remains blocked after such a notification, in any interleaving and for any number of reuse rounds. What the notifier did before notifying is visible to the resumed waiter, which may destroy the monitor at once even though the notifying call has not returned yet.",
["schedules","histories"],"all interleavings of notifier and waiter threads over several rounds, with spurious wake-ups",
"No test of the monitor exists; a lost wake-up needs a specific interleaving.",
[I+"as_monitor.h"],
[("completion flag under mutex and condition",I+"as_monitor.h")],
["order of events per thread","deadlock detection by a controlled scheduler"])
p("C33","Typed accessors return exactly what was stored and never another type",
"For every value stored in a list, a text-keyed map or a record through any of the typed setters, each typed reader at that position or key returns exactly that value when the types agree, and otherwise the documented default (zero, no text or no object), without changing anything. The conversions and get-or-else readers of the scalar values, pairs and byte blobs likewise give the content exactly for their own type and the fallback for any other type or no value.",
["inputs","histories"],"all sequences of typed stores crossed with all typed readers, for every value type including extreme numbers, empty and long texts",
"Tests read each position back with the one matching accessor; the cross product of stored type and reader type is never exercised.",
[I+"as_list.h",I+"as_arraylist.h",S+"as_arraylist.c",I+"as_stringmap.h",I+"as_rec.h",I+"as_pair.h",I+"as_integer.h",I+"as_double.h",I+"as_boolean.h",I+"as_string.h",I+"as_geojson.h",I+"as_bytes.h"],
[("typed readers and setters",I+"as_list.h; "+I+"as_stringmap.h; "+I+"as_rec.h"),("conversions from the generic value",I+"as_util.h as_util_fromval")],
["values, objects and defaults returned by the readers"])

p("C34","Interface objects forward each call once, unchanged, or give the default",
"Every call on an interface object (record, stream, timer, runtime, module, iterator, serializer, list, map) reaches the implementation's function exactly once with exactly the caller's arguments and returns its result unchanged. When that function, the function table or the object itself is missing, the call does nothing and returns its documented default. Destroying the object releases it exactly as it was made: heap objects once, caller storage never.",
["inputs","configurations"],"all subsets of implemented functions, all calls and argument values and results, heap and caller-held objects",
"Tests use complete implementations only; missing functions and swapped or dropped arguments go unnoticed.",
[I+"as_rec.h",S+"as_rec.c",I+"as_stream.h",S+"as_stream.c",I+"as_timer.h",S+"as_timer.c",I+"as_aerospike.h",S+"as_aerospike.c",I+"as_module.h",S+"as_module.c",I+"as_iterator.h",S+"as_iterator.c",I+"as_serializer.h",S+"as_serializer.c",I+"as_list.h",S+"as_list.c",I+"as_map.h",S+"as_map.c"],
[("hook dispatch",I+"as_util.h as_util_hook and the per-type wrappers"),("constructors and release",S+"as_*.c")],
["calls, arguments and results recorded by stand-in implementations","allocation balance"])

p("C35","Atomics are exact and indivisible; spin locks exclude and order",
"Every atomic operation, for every operand type, changes only its target, returns exactly what its name says and takes effect indivisibly, and its acquire and release forms and fences order what surrounds them. At most one thread is inside a spin lock; the single-writer lock (whose writers are kept apart by their callers) admits one writer alone or any number of readers together. Whoever enters sees everything done in earlier conflicting sections, and no thread waits for ever once the lock is free.",
["inputs","schedules"],"all operations, operand types and values; all interleavings of small multi-threaded programs over atomics and locks",
"No tests of atomics or locks exist; a lost update or a missing ordering needs a specific interleaving and is invisible on strongly ordered machines.",
[I+"as_atomic.h",I+"as_atomic_gcc.h"],
[("atomic operations",I+"as_atomic_gcc.h"),("spin locks",I+"as_atomic_gcc.h as_spinlock, as_swlock")],
["returned and stored values","history of calls checked for linearizability","happens-before relation tracked by a controlled scheduler"])

p("C36","Bounded copies, base names and acquired passwords are exact and in bounds",
"Copying a text into a buffer of given size stores its longest prefix that fits, always terminated, never touches more than the buffer and reports truncation exactly when something was cut. The base name of a path is its last component without trailing separators (slash or backslash), a dot for an empty path and a slash for a path of separators only. A password is acquired from the given text or, if that is missing or empty, from the first input line without its line end, cut to the buffer and read without echo on a terminal that is afterwards as before, and hashes as the same password passed directly.",
["inputs"],"all texts, paths and buffer sizes from 1; all input lines including empty, unterminated, over-long and ones with zero bytes, from a terminal or not",
"Tests cover a few base names only.",
[S+"as_string.c",I+"as_string.h",S+"as_password.c",I+"as_password.h"],
[("bounded copy and base name",S+"as_string.c as_strncpy, as_basename"),("password input",S+"as_password.c")],
["target buffers placed at the edge of their memory","returned texts, lengths and flags"])

p("C37","Equal values have equal hash codes, however they were made",
"Two values of the same type with equal content have the same hash code, whatever way each was made: copied, wrapped, with or without a stated length, in a larger block, filled in another order or read back from its serialized form. Computing the hash code reads only the value's own content and does not change it, and the code stays the same while the value is read, rendered, serialized or shared.",
["inputs"],"all values of all types, nested, crossed with the ways of making them",
"No tests of hash codes exist.",
[S+"as_val.c",S+"as_string.c",S+"as_bytes.c",S+"as_geojson.c",S+"as_integer.c",S+"as_double.c",S+"as_boolean.c",S+"as_arraylist.c",S+"as_orderedmap.c",S+"as_pair.c"],
[("hash functions per type",S+"as_string.c, "+S+"as_bytes.c and others: *_val_hashcode")],
["hash codes of differently made equal values"])

p("C38","Log messages arrive exactly when enabled, complete and unaltered",
"A message reaches the most recently set callback exactly once if its level is within the current threshold, and not at all if it is above it or no callback is set. It arrives with its own level, source position, format and arguments, which are evaluated only when it is delivered. The enabled queries agree with this, the initial threshold is information, and each level has its documented name.",
["inputs","histories"],"all sequences of threshold and callback changes and messages of all levels",
"No tests of logging exist.",
[I+"as_log.h",I+"as_log_macros.h",S+"as_log.c"],
[("level filter",I+"as_log_macros.h"),("callback and level state",I+"as_log.h")],
["calls received by a recording callback"])
p("C39","Decoding, skipping or comparing damaged input stays in bounds and fails",
"For arbitrary bytes, whole-value decoding, skipping and comparison, the type probe and the nil and boolean readers read only bytes of the input, terminate and leave no memory behind. Skipping succeeds exactly when a complete well-formed element is present, decoding never succeeds without one, and both then advance by exactly its length. Decoding requests no memory out of proportion to the input, and comparison gives mirrored answers when its operands are exchanged.",
["inputs"],"all byte strings and positions (nesting up to some hundred levels): every string of up to three bytes, and damaged, truncated and random longer ones",
"The tests decode only what the library itself encoded.",
[I+"as_msgpack.h",S+"as_msgpack.c",S+"as_msgpack_serializer.c"],
[("bounds tests of the decoder",S+"as_msgpack.c"),("element skipping",S+"as_msgpack.c"),("blob and container length readers of the comparison",S+"as_msgpack.c")],
["results, reading positions, allocation requests and live blocks of the decode, skip, probe and compare calls; memory errors"])
p("C40","Directory listing, thread names and sleeps do exactly what was asked",
"Reading an opened directory gives each entry present exactly once and nothing else, opening and the existence test succeed exactly for existing directories, and closing leaves no descriptor open. A thread gets exactly the name given, with the index in decimal appended when asked and cut to the fifteen characters a name can have. A sleep asks the system for exactly the given number of milliseconds, whatever expression gives it.",
["inputs"],"all directory contents, names of any bytes, all 32-bit indexes, sleeps up to half an hour",
"No tests of these helpers exist.",
[I+"as_dir.h",I+"as_thread.h",I+"as_sleep.h"],
[("directory iteration",I+"as_dir.h"),("name formatting",I+"as_thread.h"),("millisecond conversion",I+"as_sleep.h")],
["entries read, open descriptors, the name the system reports, the recorded sleep request"])
p("C41","Allocated and counted blocks have their full size and live until freed",
"Every block obtained has at least the requested usable size, is aligned for what it can hold (to a page where asked), is zero-filled where asked and keeps its content up to the smaller size when resized, and a duplicated text is the original or its first characters up to the limit, terminated, read no further than needed. A reference-counted block stays allocated and unchanged while references remain, each reserve and release reports the number now held, and it is freed exactly once, by the last release-and-free or by an explicit free. A request that cannot be met, including one whose total size would wrap around, gives nothing and leaves an existing block intact.",
["inputs","histories","fault_sequences"],"all sequences of requests, resizes, reserves and releases over sizes from one byte to past 4 GiB and up to the largest number, with memory running out at any request; all texts and limits",
"No tests of these calls exist; only small blocks occur indirectly.",
[C+"cf_alloc.c",CI+"alloc.h"],
[("counter stored in front of the block",C+"cf_alloc.c cf_rc_alloc"),("wrappers of the system allocator",C+"cf_alloc.c")],
["block contents and addresses, reported counts, live blocks of the allocator underneath; memory errors"])
p("C42","Looking at a value never changes it or any later answer",
"Serializing, sizing, rendering, hashing, comparing, looking up in and iterating over values, any number of times, in any order and also when interrupted or asked for something absent, leaves every value with the content it had. Each repeated question gets the same answer whatever was asked in between, elements read again are the same objects, and after the values are destroyed no memory remains.",
["histories","inputs"],"all value trees and all sequences of reading calls over them",
"Tests look at a value once or twice in a fixed order; an answer that depends on earlier reads (lazily ordered entries, cached lengths) needs mixed histories.",
[S+"as_orderedmap.c",S+"as_arraylist.c",S+"as_msgpack.c",S+"as_string.c",S+"as_val.c",S+"as_map.c",S+"as_list.c"],
[("entries put in order at the first read",S+"as_orderedmap.c"),("cached text lengths",S+"as_string.c, "+S+"as_geojson.c"),("temporary references while reading",S+"as_msgpack.c, "+S+"as_map.c")],
["results of repeated reading calls","identity of elements","allocation balance"])
p("C43","Threads using only their own objects get the results they get alone",
"Threads that each work only on objects of their own (values, serializers, text and byte builders, digests, encoders, password hashes, single-threaded queues, lists and generators) get, in every interleaving, exactly the results each gets when it runs alone. No such call writes memory that a call of another thread also writes without synchronisation between them.",
["schedules","programs"],"all interleavings of threads running any sequence of calls on their own objects",
"Tests call these functions from one thread; a scratch buffer or cache shared behind the interface shows only when two calls overlap at the right place.",
[S+"as_msgpack.c",S+"as_string_builder.c",S+"as_bytes.c",S+"as_orderedmap.c",S+"as_password.c",S+"crypt_blowfish.c",S+"as_random.c","src/main/citrusleaf/cf_crypto.c","src/main/citrusleaf/cf_b64.c","src/main/citrusleaf/cf_queue.c","src/main/citrusleaf/cf_ll.c"],
[("work memory on the stack or in the object",S+"crypt_blowfish.c, "+"src/main/citrusleaf/cf_crypto.c"),("blocks allocated per call",S+"as_msgpack.c"),("generator state per thread",S+"as_random.c")],
["results of the calls in each thread","write/write conflicts between threads"])
p("C44","Values with equal content cannot be told apart, however they came to be",
"Two values with equal content, reached by any histories of insertions, overwrites, removals, joins and decodings and held in heap or caller memory, compare equal, have the same hash code and order alike against any third value. They give the same bytes, size, text and iteration order, and each finds its entries by the other's keys.",
["histories","inputs"],"all value trees and all pairs of construction histories leading to the same content",
"Tests build each value one way; traces of its history (spare memory, entries not yet in place, removed items) show only against a twin built differently.",
[S+"as_orderedmap.c",S+"as_arraylist.c",S+"as_bytes.c",S+"as_msgpack.c",S+"as_string.c",S+"as_geojson.c",S+"as_boolean.c"],
[("entries put in place late",S+"as_orderedmap.c"),("growing, trimming and joining",S+"as_arraylist.c"),("spare capacity",S+"as_bytes.c"),("comparison of values",S+"as_msgpack.c")],
["comparison results","serialized bytes","text","iteration order","allocation balance"])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x["statement"]))
    if n>3: print(x["id"],n)
print(len(P))
