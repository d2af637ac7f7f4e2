From 741cb618f7c1a7c1e51a63739a03b48163608864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:04 +0000
Subject: [PATCH 01/61] fix: keep direct string and blob packers inside a fixed
 buffer

as_pack_str() and as_pack_bytes() let their header grow the packer, so a
fixed caller buffer that was too small was silently replaced by a heap
block. Make them report an error like the other direct packers.
---
 src/main/aerospike/as_msgpack.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b4e6fbf..a1af44b 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -476,35 +476,35 @@ pack_as_double(as_packer *pk, const as_double *d)
 }
 
 static int
-pack_string_header(as_packer *pk, uint32_t size)
+pack_string_header(as_packer *pk, uint32_t size, bool resize)
 {
 	if (size < 32) {
-		return pack_byte(pk, (uint8_t)(0xa0 | size), true);
+		return pack_byte(pk, (uint8_t)(0xa0 | size), resize);
 	}
 
 	if (size < 256) {
-		return pack_type_uint8(pk, 0xd9, (uint8_t)size, true);
+		return pack_type_uint8(pk, 0xd9, (uint8_t)size, resize);
 	}
 
 	if (size < 65536) {
-		return pack_type_uint16(pk, 0xda, (uint16_t)size, true);
+		return pack_type_uint16(pk, 0xda, (uint16_t)size, resize);
 	}
 
-	return pack_type_uint32(pk, 0xdb, size, true);
+	return pack_type_uint32(pk, 0xdb, size, resize);
 }
 
 static inline int
-pack_byte_array_header(as_packer *pk, uint32_t size)
+pack_byte_array_header(as_packer *pk, uint32_t size, bool resize)
 {
 	// Use string header codes for byte arrays.
-	return pack_string_header(pk, size);
+	return pack_string_header(pk, size, resize);
 }
 
 static int
 pack_string(as_packer *pk, as_string *s)
 {
 	uint32_t length = (uint32_t)as_string_len(s);
-	int rc = pack_string_header(pk, length + 1);
+	int rc = pack_string_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_STRING, true);
@@ -521,7 +521,7 @@ static int
 pack_geojson(as_packer *pk, as_geojson *s)
 {
 	uint32_t length = (uint32_t)as_geojson_len(s);
-	int rc = pack_byte_array_header(pk, length + 1);
+	int rc = pack_byte_array_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_GEOJSON, true);
@@ -537,7 +537,7 @@ pack_geojson(as_packer *pk, as_geojson *s)
 static int
 pack_bytes(as_packer *pk, const as_bytes *b)
 {
-	int rc = pack_byte_array_header(pk, b->size + 1);
+	int rc = pack_byte_array_header(pk, b->size + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, b->type, true);
@@ -1354,10 +1354,10 @@ as_pack_double(as_packer *pk, double val)
 int
 as_pack_bytes(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_byte_array_header(pk, sz + 1);
+	int rc = pack_byte_array_header(pk, sz + 1, false);
 
 	if (rc == 0) {
-		rc = pack_byte(pk, AS_BYTES_BLOB, true);
+		rc = pack_byte(pk, AS_BYTES_BLOB, false);
 	}
 
 	if (rc == 0) {
@@ -1393,7 +1393,7 @@ as_pack_bin_size(uint32_t buf_sz)
 int
 as_pack_str(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_string_header(pk, sz);
+	int rc = pack_string_header(pk, sz, false);
 
 	if (rc == 0 && buf) {
 		return pack_append(pk, buf, sz, false);
-- 
2.43.0


From ddeb4e8206c903fbfa47306f47f11000b6c84b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:57 +0000
Subject: [PATCH 02/61] fix: reject string, bin and ext sizes that exceed the
 buffer

The 32 bit sums used by the bounds checks wrapped around for declared
sizes close to 4 GB, so such items were accepted and the returned data
pointed outside the buffer.
---
 src/main/aerospike/as_msgpack.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index a1af44b..11b45f3 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2233,14 +2233,14 @@ unpack_str_bin(as_unpacker *pk, uint32_t *sz_r)
 		return NULL;
 	}
 
+	if (*sz_r > pk->length - pk->offset) {
+		return NULL;
+	}
+
 	const uint8_t *buf = &pk->buffer[pk->offset];
 
 	pk->offset += *sz_r;
 
-	if (pk->offset > pk->length) {
-		return NULL;
-	}
-
 	return buf;
 }
 
@@ -2299,7 +2299,8 @@ as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 		return -3;
 	}
 
-	if (pk->length - pk->offset < 1 + ext->size) {
+	// The type byte and the data must both fit.
+	if (pk->length - pk->offset <= ext->size) {
 		return -4;
 	}
 
-- 
2.43.0


From cb95127e7c98e19338a0aac0bf3736cdbd33f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:28 +0000
Subject: [PATCH 03/61] fix: leave both readers behind the maps after comparing
 them

A map holds two items per entry, but only one item per entry was skipped
when the maps had different sizes or different metadata. After equal
metadata one entry too many was skipped. A map nested in a list or another
map was then followed by reading at the wrong position.
---
 src/main/aerospike/as_msgpack.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 11b45f3..6add3ed 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2697,11 +2697,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 	}
 
 	if (len1 != len2) {
-		if (! msgpack_skip(pk1, len1)) {
+		if (! msgpack_skip(pk1, 2 * len1)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
-		if (! msgpack_skip(pk2, len2)) {
+		if (! msgpack_skip(pk2, 2 * len2)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
@@ -2724,11 +2724,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		}
 
 		if (ret != MSGPACK_COMPARE_EQUAL) {
-			if (! msgpack_skip(pk1, len1 - 1)) {
+			if (! msgpack_skip(pk1, 2 * (len1 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_skip(pk2, len2 - 1)) {
+			if (! msgpack_skip(pk2, 2 * (len2 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
@@ -2736,6 +2736,8 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		}
 
 		minlen--;
+		len1--;
+		len2--;
 	}
 
 	for (int64_t i = 0; i < minlen; i++) {
-- 
2.43.0


From 06837447acb98b924dfcf4074eb0cbbd566b402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:32 +0000
Subject: [PATCH 04/61] fix: do not unwind the outermost container twice when
 comparing

The non-recursive comparison skips the rest of the outermost container on
two of its exits, and the caller then skipped it again.
---
 src/main/aerospike/as_msgpack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 6add3ed..326ee4d 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2821,6 +2821,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 			}
 
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				(*block)->count = 0; // nothing left to unwind
 				return state->default_compare_type;
 			}
 
@@ -2896,6 +2897,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 			}
 
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				(*block)->count = 0; // nothing left to unwind
 				return MSGPACK_COMPARE_EQUAL;
 			}
 
-- 
2.43.0


From 44615267e9ca6da4493f355639e95ab360e8dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:35 +0000
Subject: [PATCH 05/61] fix: compare metadata of lists and of deeply nested
 maps

The metadata item in front of the elements was only handled for maps up to
the recursion limit. Comparing two lists with metadata, or two maps with
metadata nested deeper than that limit, returned an error.
---
 src/main/aerospike/as_msgpack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 326ee4d..2bc2195 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -90,6 +90,7 @@ static bool msgpack_skip(as_unpacker *pk, size_t n);
 static bool msgpack_compare_unwind(as_unpacker *pk1, as_unpacker *pk2, const msgpack_parse_state *state);
 static bool msgpack_compare_unwind_all(as_unpacker *pk1, as_unpacker *pk2, msgpack_parse_memblock **block);
 static msgpack_compare_t msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth);
+static msgpack_compare_t compare_ext(as_unpacker *pk1, as_unpacker *pk2);
 static msgpack_compare_t msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth);
 static inline msgpack_compare_t msgpack_peek_compare_type(const as_unpacker *pk1, const as_unpacker *pk2, as_val_t *type);
 static msgpack_compare_t msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2, msgpack_parse_memblock **block, msgpack_parse_state *state);
@@ -2958,6 +2959,8 @@ msgpack_compare_type(as_unpacker *pk1, as_unpacker *pk2, as_val_t type,
 		pk1->offset += 3;
 		pk2->offset += 3;
 		break;
+	case AS_CMP_EXT:
+		return compare_ext(pk1, pk2);
 	default:
 		return MSGPACK_COMPARE_ERROR;
 	}
-- 
2.43.0


From 1548f35610fac8a628a241bc5629378b63e045fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:18 +0000
Subject: [PATCH 06/61] fix: allow concatenating a list with itself

The loop bound was the size of the list being extended, so the copy never
ended and ran past the end of the allocated elements.
---
 src/main/aerospike/as_arraylist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 230bdfd..1724b3a 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -385,13 +385,15 @@ as_arraylist_remove(as_arraylist* list, uint32_t index)
 int
 as_arraylist_concat(as_arraylist* list, const as_arraylist* list2)
 {
-	int rc = as_arraylist_ensure(list, list2->size);
+	// The lists may be the same, so the size must not change while copying.
+	uint32_t n = list2->size;
+	int rc = as_arraylist_ensure(list, n);
 
 	if (rc != AS_ARRAYLIST_OK) {
 		return rc;
 	}
 
-	for (uint32_t i = 0; i < list2->size; i++) {
+	for (uint32_t i = 0; i < n; i++) {
 		if (list2->elements[i]) {
 			as_val_reserve(list2->elements[i]);
 		}
-- 
2.43.0


From 069e29b6ccea79d9050c4e62ccd4bc15cc577a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:34 +0000
Subject: [PATCH 07/61] fix: return the elements after the first from
 as_arraylist_tail

The elements were read from the new list instead of the given one, past
its end for the last one, and the size of the new list stayed zero.
---
 src/main/aerospike/as_arraylist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 1724b3a..5d690a4 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -436,10 +436,11 @@ as_arraylist_tail(const as_arraylist* list)
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
 
+	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
 		if (list->elements[i]) {
 			as_val_reserve(list->elements[i]);
-			list2->elements[j] = list2->elements[i];
+			list2->elements[j] = list->elements[i];
 		}
 		else {
 			list2->elements[j] = 0;
-- 
2.43.0


From 2b5995f1d1b7e059dea0cb488326a67957fc0cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:47 +0000
Subject: [PATCH 08/61] fix: return NULL from as_arraylist_head for an empty
 list

The first element was read without checking that there is one.
---
 src/main/aerospike/as_arraylist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 5d690a4..caa4e5b 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -426,7 +426,7 @@ as_arraylist_trim(as_arraylist* list, uint32_t index)
 as_val*
 as_arraylist_head(const as_arraylist* list)
 {
-	return list->elements[0];
+	return as_arraylist_get(list, 0);
 }
 
 as_arraylist*
-- 
2.43.0


From 5feab38a5a749db1c8f6900ad4b3d32f08e08a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:18 +0000
Subject: [PATCH 09/61] fix: compute the needed list capacity without overflow

Writing at an index near the top of the 32 bit range wrapped the needed
capacity around to a small number. The write was accepted and went far
outside of the elements.
---
 src/main/aerospike/as_arraylist.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index caa4e5b..cd5d661 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -106,7 +106,7 @@ as_arraylist_destroy(as_arraylist* l)
  ******************************************************************************/
 
 static int
-as_arraylist_ensure(as_arraylist* list, uint32_t delta)
+as_arraylist_ensure(as_arraylist* list, uint64_t delta)
 {
 	// Check for capacity (in terms of elements, NOT size in bytes), and if we
 	// need to allocate more, do a realloc.
@@ -117,12 +117,15 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 			return AS_ARRAYLIST_ERR_MAX;
 		}
 		// Compute how much room we're missing for the new stuff
-		int new_room = (list->size + delta) - list->capacity;
+		uint64_t new_room = (list->size + delta) - list->capacity;
 		// Compute new capacity in terms of multiples of block_size
 		// This will get us (conservatively) at least one block
-		int new_blocks = (new_room + list->block_size) / list->block_size;
-		int new_capacity = list->capacity + (new_blocks * list->block_size);
-		size_t new_bytes = sizeof(as_val*) * new_capacity;
+		uint64_t new_blocks = (new_room + list->block_size) / list->block_size;
+		uint64_t new_capacity = list->capacity + (new_blocks * list->block_size);
+		if (new_capacity > UINT32_MAX) {
+			return AS_ARRAYLIST_ERR_ALLOC;
+		}
+		size_t new_bytes = sizeof(as_val*) * (size_t)new_capacity;
 		as_val** elements = (as_val**) cf_realloc(list->elements, new_bytes);
 		if (! elements) {
 			return AS_ARRAYLIST_ERR_ALLOC;
@@ -132,7 +135,7 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 		memset((uint8_t *)elements + old_bytes, 0, new_bytes - old_bytes);
 		// Set the new array pointer and capacity.
 		list->elements = elements;
-		list->capacity = new_capacity;
+		list->capacity = (uint32_t)new_capacity;
 		list->free = true;
 	}
 
@@ -193,7 +196,7 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 	int rc = AS_ARRAYLIST_OK;
 
 	if (index >= list->capacity) {
-		rc = as_arraylist_ensure(list, (index + 1) - list->size);
+		rc = as_arraylist_ensure(list, ((uint64_t)index + 1) - list->size);
 
 		if (rc != AS_ARRAYLIST_OK) {
 			return rc;
@@ -247,10 +250,10 @@ as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 int
 as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 {
-	uint32_t delta = 1;
+	uint64_t delta = 1;
 
 	if (index > list->size) {
-		delta = index + 1 - list->size;
+		delta = (uint64_t)index + 1 - list->size;
 	}
 
 	int rc = as_arraylist_ensure(list, delta);
-- 
2.43.0


From 30e18391d6cae9ad6e86f0feeabd523b18f12952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:43 +0000
Subject: [PATCH 10/61] fix: count references to booleans

as_boolean_new() returns a reference counted value, but reserving it did
not count. A boolean held by two lists was freed while still in use, and
freed again when the second list was destroyed.
---
 src/main/aerospike/as_val.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_val.c b/src/main/aerospike/as_val.c
index 87a91ef..4e794cb 100644
--- a/src/main/aerospike/as_val.c
+++ b/src/main/aerospike/as_val.c
@@ -48,6 +48,7 @@ static uint32_t as_val_hashcode_noop(const as_val *);
 static char *   as_val_tostring_noop(const as_val *);
 static as_val * as_val_reserve_noop(as_val * v);
 static as_val * as_val_reserve_count(as_val * v);
+static as_val * as_val_reserve_boolean(as_val * v);
 
 /******************************************************************************
  *	VARIABLES
@@ -107,7 +108,7 @@ static const as_val_hashcode_callback as_val_hashcode_callbacks[] = {
 static const as_val_reserve_callback as_val_reserve_callbacks[] = {
 	[AS_UNKNOWN]	= as_val_reserve_noop,
 	[AS_NIL]		= as_val_reserve_noop,
-	[AS_BOOLEAN]	= as_val_reserve_noop,
+	[AS_BOOLEAN]	= as_val_reserve_boolean,
 	[AS_INTEGER]	= as_val_reserve_count,
 	[AS_STRING]		= as_val_reserve_count,
 	[AS_BYTES]		= as_val_reserve_count,
@@ -142,6 +143,12 @@ static as_val * as_val_reserve_count(as_val * v)
 	return v;
 }
 
+static as_val * as_val_reserve_boolean(as_val * v)
+{
+	// as_true and as_false are constants which are not ref-counted.
+	return v->count == 0 ? v : as_val_reserve_count(v);
+}
+
 static uint32_t as_val_hashcode_noop(const as_val * v)
 { 
 	return 0;
-- 
2.43.0


From 1e336e59ed735fb0a32aeb31e36c2fa57909eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:53 +0000
Subject: [PATCH 11/61] fix: release values that a typed list store could not
 add

The typed append, prepend, insert and set functions create the value they
store. When the list was full and not allowed to grow, that value was
leaked.
---
 src/main/aerospike/as_arraylist.c | 46 +++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index cd5d661..45a42fd 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -190,6 +190,16 @@ as_arraylist_get_str(const as_arraylist* list, uint32_t index)
  * SET FUNCTIONS
  ******************************************************************************/
 
+// Release a value which was created for the list but could not be stored.
+static inline int
+as_arraylist_stored(int rc, as_val* value)
+{
+	if (rc != AS_ARRAYLIST_OK) {
+		as_val_destroy(value);
+	}
+	return rc;
+}
+
 int
 as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 {
@@ -228,19 +238,22 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 int
 as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+	return as_arraylist_stored(as_arraylist_set(list, index, val), val);
 }
 
 int
 as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+	return as_arraylist_stored(as_arraylist_set(list, index, val), val);
 }
 
 int
 as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_stored(as_arraylist_set(list, index, val), val);
 }
 
 /*******************************************************************************
@@ -285,19 +298,22 @@ as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 int
 as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+	return as_arraylist_stored(as_arraylist_insert(list, index, val), val);
 }
 
 int
 as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+	return as_arraylist_stored(as_arraylist_insert(list, index, val), val);
 }
 
 int
 as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_stored(as_arraylist_insert(list, index, val), val);
 }
 
 /*******************************************************************************
@@ -313,19 +329,22 @@ as_arraylist_append(as_arraylist* list, as_val* value)
 int
 as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_append(list, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+	return as_arraylist_stored(as_arraylist_append(list, val), val);
 }
 
 int
 as_arraylist_append_double(as_arraylist* list, double value)
 {
-	return as_arraylist_append(list, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+	return as_arraylist_stored(as_arraylist_append(list, val), val);
 }
 
 int
 as_arraylist_append_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_append(list, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_stored(as_arraylist_append(list, val), val);
 }
 
 /*******************************************************************************
@@ -341,19 +360,22 @@ as_arraylist_prepend(as_arraylist* list, as_val* value)
 int
 as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+	return as_arraylist_stored(as_arraylist_prepend(list, val), val);
 }
 
 int
 as_arraylist_prepend_double(as_arraylist* list, double value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+	return as_arraylist_stored(as_arraylist_prepend(list, val), val);
 }
 
 int
 as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_stored(as_arraylist_prepend(list, val), val);
 }
 
 /*******************************************************************************
-- 
2.43.0


From c89e6f13cfc179d4da08f26c8968398319a18d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:14 +0000
Subject: [PATCH 12/61] fix: keep byte buffer accesses inside the buffer

An index near the 32-bit maximum made index plus size wrap around, so reads
and writes far outside the buffer were accepted. Reading a variable-length
integer had no bound at all, and writing one that did not fit left part of it
in the buffer.
---
 src/main/aerospike/as_bytes.c | 46 ++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index fc814bc..a24b4e9 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -153,7 +153,7 @@ as_bytes * as_bytes_new_wrap(uint8_t * value, uint32_t size, bool free)
  */
 uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value, uint32_t size)
 {
-	uint32_t sz = index + size > bytes->size ? 0 : size;
+	uint32_t sz = (uint64_t)index + size > bytes->size ? 0 : size;
 	if ( sz == 0 ) return sz;
 	memcpy(value, &bytes->value[index], sz);
     return sz;
@@ -177,15 +177,24 @@ uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value,
  */
 uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t * value)
 {
+	if (index >= bytes->capacity) {
+		return 0;
+	}
+
 	uint8_t* begin = bytes->value + index;
+	uint8_t* end = bytes->value + bytes->capacity;
 	uint8_t* p = begin;
 	uint32_t val = 0;
 	uint32_t shift = 0;
 	uint8_t b;
 	
 	do {
+		// Stop at the end of the buffer and at the longest encoding of 32 bits.
+		if (p >= end || shift >= 32) {
+			return 0;
+		}
 		b = *p++;
-		val |= (b & 0x7F) << shift;
+		val |= (uint32_t)(b & 0x7F) << shift;
 		shift += 7;
 	} while ((b & 0x80));
 	
@@ -218,7 +227,7 @@ uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t *
  */
 bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint32_t size)
 {
-    if ( index + size > bytes->capacity ) return false;
+    if ( (uint64_t)index + size > bytes->capacity ) return false;
     memcpy(&bytes->value[index], value, size);
     if ( index + size > bytes->size ) {
     	bytes->size = index + size;
@@ -244,20 +253,29 @@ bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint3
  */
 uint32_t as_bytes_set_var_int(const as_bytes * bytes, uint32_t index, uint32_t value)
 {
-	uint8_t* begin = bytes->value + index;
-	uint8_t* end = bytes->value + bytes->capacity;
-	uint8_t* p = begin;
-	
-	while (p < end && value >= 0x80) {
+	if (index >= bytes->capacity) {
+		return 0;
+	}
+
+	uint8_t* p = bytes->value + index;
+
+	// Find encoded length first, so nothing is written when it does not fit.
+	uint32_t len = 1;
+
+	for (uint32_t v = value; v >= 0x80; v >>= 7) {
+		len++;
+	}
+
+	if (len > bytes->capacity - index) {
+		return 0;
+	}
+
+	while (value >= 0x80) {
 		*p++ = (uint8_t)(value | 0x80);
 		value >>= 7;
 	}
-	
-	if (p < end) {
-		*p++ = (uint8_t)value;
-		return (uint32_t)(p - begin);
-	}
-	return 0;
+	*p++ = (uint8_t)value;
+	return len;
 }
 
 /******************************************************************************
-- 
2.43.0


From 1c66ba599743f83cffd6c4de46c8eec04003829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:50 +0000
Subject: [PATCH 13/61] fix: refuse hex text that does not fit its destination

The needed length was computed in 32 bits and wrapped for large inputs, and
the prefixed form subtracted the prefix from destinations shorter than it.
---
 src/main/aerospike/as_bytes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index a24b4e9..503013f 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -454,7 +454,7 @@ bool
 as_bytes_to_string(const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size)
 {
 	// Ensure hex string has enough space including null terminator.
-	if ((bytes_size * 2 + 1) > str_size) {
+	if (((uint64_t)bytes_size * 2 + 1) > str_size) {
 		if (str_size > 0) {
 			*str = 0;
 		}
@@ -476,7 +476,7 @@ as_bytes_to_string_with_prefix(
 	const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size
 	)
 {
-	if (as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
+	if (str_size > 2 && as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
 		*str++ = '0';
 		*str = 'x';
 		return true;
-- 
2.43.0


From 04de6862e8afa4b94b7bf8ea9b87614ff31b3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:17 +0000
Subject: [PATCH 14/61] fix: keep the opening bracket of an empty byte sequence

With no bytes there is no trailing separator to drop, so dropping one removed
the opening bracket instead.
---
 src/main/aerospike/as_string_builder.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index d7a8b58..921eab5 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -164,8 +164,8 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 	if (sb->resize) {
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
-		// - 1 extra separator + 1 null byte.
-		uint32_t min_capacity = sb->length + (size * 3) + 2;
+		// - 1 extra separator (when there is one) + 1 null byte.
+		uint32_t min_capacity = sb->length + (size * 3) + (size > 0 ? 2 : 3);
 
 		if (min_capacity > sb->capacity) {
 			if (! as_sb_increase_capacity(sb, min_capacity)) {
@@ -182,7 +182,10 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 			*trg++ = as_hex_chars[b & 0xf];
 			*trg++ = ' ';
 		}
-		trg--; // truncate last separator
+
+		if (size > 0) {
+			trg--; // truncate last separator
+		}
 		*trg++ = ']';
 		*trg = 0;
 		sb->length = (int)(trg - sb->data);
@@ -197,7 +200,10 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 				return false;
 			}
 		}
-		sb->length--; // truncate last separator
+
+		if (size > 0) {
+			sb->length--; // truncate last separator
+		}
 
 		if (! as_sb_append_char(sb, ']')) {
 			return false;
-- 
2.43.0


From 300d2baea2b5ac1aca74807d52460ae585543937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:38 +0000
Subject: [PATCH 15/61] fix: print every element of maps and pairs

An element without text of its own, such as an empty blob, cut the text of a
map short and crashed the text of a pair. Use the placeholder lists use.
---
 src/main/aerospike/as_map.c  | 21 ++++++++++++---------
 src/main/aerospike/as_pair.c |  8 ++++++--
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index a436ff2..8cf747a 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -68,21 +68,22 @@ typedef struct as_map_val_tostring_data_s {
 	bool		sep;
 } as_map_val_tostring_data;
 
+extern const char NULL_STR[];
+
 static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, void* udata)
 {
 	as_map_val_tostring_data * data = (as_map_val_tostring_data *) udata;
 
 	char * keystr = as_val_tostring(key);
 	if (!keystr) {
-		return false;
+		keystr = (char *)NULL_STR;
 	}
 	int keylen = (int)strlen(keystr);
 
 	char * valstr = as_val_tostring(val);
-    if (!valstr) {
-		cf_free(keystr);
-    	return false;
-    }
+	if (!valstr) {
+		valstr = (char *)NULL_STR;
+	}
 	int vallen = (int)strlen(valstr);
 
 	uint32_t entlen = keylen + 2 + vallen + 2;
@@ -111,11 +112,13 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	data->sep = true;
 
-	cf_free(keystr);
-	keystr = NULL;
+	if (keystr != NULL_STR) {
+		cf_free(keystr);
+	}
 
-	cf_free(valstr);
-	valstr = NULL;
+	if (valstr != NULL_STR) {
+		cf_free(valstr);
+	}
 
 	return true;
 }
diff --git a/src/main/aerospike/as_pair.c b/src/main/aerospike/as_pair.c
index 0e8c017..6b0ef4f 100644
--- a/src/main/aerospike/as_pair.c
+++ b/src/main/aerospike/as_pair.c
@@ -60,14 +60,18 @@ uint32_t as_pair_val_hashcode(const as_val * v)
 	return 0;
 }
 
+extern const char NULL_STR[];
+
 char *as_pair_val_tostring(const as_val * v)
 {
 	as_pair * p = as_pair_fromval(v);
 	if ( p == NULL ) return NULL;
 
 	char * a = as_val_tostring(p->_1);
+	if ( !a ) a = (char *)NULL_STR;
 	size_t al = strlen(a);
 	char * b = as_val_tostring(p->_2);
+	if ( !b ) b = (char *)NULL_STR;
 	size_t bl = strlen(b);
 	
 	size_t l = al + bl + 5;
@@ -81,8 +85,8 @@ char *as_pair_val_tostring(const as_val * v)
 	strcpy(str+1+al+2+bl,")");
 	*(str+1+al+2+bl+1) = '\0';
 	
-	cf_free(a);
-	cf_free(b);
+	if ( a != NULL_STR ) cf_free(a);
+	if ( b != NULL_STR ) cf_free(b);
 
 	return str;
 }
-- 
2.43.0


From 96a855acf87e5a85f2b0446043425ba73ddb783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:03 +0000
Subject: [PATCH 16/61] fix: delete every matching element from a wrapped queue

Deleting an element by moving the tail puts the next element at the same
index, which was then skipped.
---
 src/main/citrusleaf/cf_queue.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 99f9f07..1ccff0e 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -674,12 +674,19 @@ cf_queue_delete(cf_queue *q, const void *ptr, bool only_one)
 			}
 
 			if (rv == 0) {
+				uint32_t old_write_offset = q->write_offset;
+
 				cf_queue_delete_offset(q, i);
 				found = true;
 
 				if (only_one) {
 					break;
 				}
+
+				// If the tail moved, the next element is now at this index.
+				if (q->write_offset != old_write_offset) {
+					i--;
+				}
 			}
 		}
 	}
-- 
2.43.0


From 26dc0d95ebae913a5b3ac22aece3389e30b201c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:42 +0000
Subject: [PATCH 17/61] fix: acquire before freeing a counted block on its last
 release

cf_rc_releaseandfree() freed the block after a release decrement without
the acquire fence cf_rc_release() uses, so the free was not ordered after
the other threads' use of the block.
---
 src/main/citrusleaf/cf_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 745c8e1..c1d4e7e 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -130,6 +130,8 @@ cf_rc_releaseandfree(void* addr)
 	uint32_t rc = as_aaf_uint32_rls(&head->count, -1);
 
 	if (rc == 0) {
+		// Other threads' use of the block must be complete before freeing it.
+		as_fence_acq();
 		free(head);
 	}
 
-- 
2.43.0


From 01a55cdfba3c57809f628ecbe5b2c447f980977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:01 +0000
Subject: [PATCH 18/61] fix: order destruction of a result after its other
 holders' use

as_result_destroy() dropped its reference with a relaxed decrement, so the
last holder could destroy the value and free the result without being
ordered after the other holders' use.
---
 src/main/aerospike/as_result.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 5139105..cd45984 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -48,7 +48,10 @@ as_result * as_result_reserve(as_result * r) {
 
 void as_result_destroy(as_result *r) {
     // if we reach the last reference, call the destructor, and free
-	if (as_aaf_uint32(&r->count, -1) == 0) {
+	if (as_aaf_uint32_rls(&r->count, -1) == 0) {
+        // Destruction must follow the other holders' use of the result.
+        as_fence_acq();
+
         if (r->value) {
             as_val_destroy(r->value); 
             r->value = NULL;
-- 
2.43.0


From 9f76d908fd2d432cbc3f89a8a7826b1c99d4e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:12 +0000
Subject: [PATCH 19/61] fix: join and free the right threads when some could
 not be started

A failed pthread_create() left a hole in the thread array, so destroying
the pool joined an invalid handle and missed a running thread. When no
thread started, the array and the queue were never freed.
---
 src/main/aerospike/as_thread_pool.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 5a81e42..cd7e4f2 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -75,12 +75,20 @@ as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 	pool->fini_fn = NULL;
 	pool->thread_size = 0;
 
-	// Start threads.
+	// Start threads. Keep the started ones at the front of the array.
 	for (uint32_t i = 0; i < thread_size; i++) {
-		if (pthread_create(&pool->threads[i], NULL, as_thread_worker, pool) == 0) {
+		if (pthread_create(&pool->threads[pool->thread_size], NULL, as_thread_worker, pool) == 0) {
 			pool->thread_size++;
 		}
 	}
+
+	if (thread_size != 0 && pool->thread_size == 0) {
+		// No thread started, so as_thread_pool_destroy() has nothing to do.
+		cf_free(pool->threads);
+		cf_queue_destroy(pool->dispatch_queue);
+		pool->threads = NULL;
+		pool->dispatch_queue = NULL;
+	}
 	return (pool->thread_size == thread_size)? 0 : -3;
 }
 
-- 
2.43.0


From 936d9086e2adac08403df1695774f2864e52459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:43 +0000
Subject: [PATCH 20/61] fix: run tasks that running tasks queue while the pool
 shuts down

A task queued by another task between the check for running threads and
the push could land behind the shutdown signals. The call reported
success, but every worker stopped before reaching it.
---
 src/main/aerospike/as_thread_pool.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index cd7e4f2..9bb365e 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -33,6 +33,18 @@ typedef struct as_thread_pool_task_s {
 // Functions
 //---------------------------------
 
+static int
+as_thread_pool_find_task(void* buf, void* udata)
+{
+	as_thread_pool_task* task = buf;
+
+	if (! task->task_fn) {
+		return 0;
+	}
+	*(bool*)udata = true;
+	return -1;
+}
+
 void*
 as_thread_worker(void* data)
 {
@@ -47,6 +59,14 @@ as_thread_worker(void* data)
 	while (cf_queue_pop(pool->dispatch_queue, &task, CF_QUEUE_FOREVER) == CF_QUEUE_OK) {
 		// A null task indicates thread should be shut down.
 		if (! task.task_fn) {
+			// A running task may have queued another task behind the shutdown signals.
+			// Process it first, and shut down on the signal when it comes around again.
+			bool found = false;
+			cf_queue_reduce(pool->dispatch_queue, as_thread_pool_find_task, &found);
+
+			if (found && cf_queue_push(pool->dispatch_queue, &task) == CF_QUEUE_OK) {
+				continue;
+			}
 			break;
 		}
 
-- 
2.43.0


From 407331360b9c1d8d93b6d27240719a4e493b8009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:58 +0000
Subject: [PATCH 21/61] fix: do not wrap around when adding the header to a
 buffer pool request

A request within header_size of 4 GB wrapped around and was served with a
small buffer that was reported as large, and a buffer of such a capacity
could enter the pool.
---
 src/main/aerospike/as_buffer_pool.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_buffer_pool.c b/src/main/aerospike/as_buffer_pool.c
index 08691ef..b6029fd 100644
--- a/src/main/aerospike/as_buffer_pool.c
+++ b/src/main/aerospike/as_buffer_pool.c
@@ -35,18 +35,19 @@ as_buffer_pool_init(as_buffer_pool* pool, uint32_t header_size, uint32_t buffer_
 int
 as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer)
 {
-	size += pool->header_size;
+	// The sum of size and header may not fit in 32 bits.
+	uint64_t total = (uint64_t)size + pool->header_size;
 	
-	if (size > pool->buffer_size) {
+	if (total > pool->buffer_size) {
 		// Requested size is greater than fixed buffer size.
 		// Allocate new buffer, but don't put back into pool.
-		buffer->data = cf_malloc(size);
+		buffer->data = cf_malloc(total);
 		
 		if (! buffer->data) {
 			return -1;
 		}
 		
-		buffer->capacity = size - pool->header_size;
+		buffer->capacity = size;
 		return 2;
 	}
 	
@@ -76,7 +77,7 @@ as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer
 int
 as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool.
 		if (cf_queue_push(pool->queue, &buffer) == CF_QUEUE_OK) {
 			return 0;
@@ -96,7 +97,7 @@ as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 int
 as_buffer_pool_push_limit(as_buffer_pool* pool, void* buffer, uint32_t capacity, uint32_t max_buffers)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool up to a limit.
 		if (cf_queue_push_limit(pool->queue, &buffer, max_buffers)) {
 			// Success.
-- 
2.43.0


From 5c3a93390b0581b385815c438d07893b644e5119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:30 +0000
Subject: [PATCH 22/61] fix: Compute the base64 decode buffer size without
 overflow

Multiplying the text length by three before dividing wraps for texts longer than 1431655765 characters, so the size returned is too small for the data and decoding overruns the buffer. Divide first; the length is a multiple of four.
---
 src/include/citrusleaf/cf_b64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/citrusleaf/cf_b64.h b/src/include/citrusleaf/cf_b64.h
index fd7039b..a5c29e5 100644
--- a/src/include/citrusleaf/cf_b64.h
+++ b/src/include/citrusleaf/cf_b64.h
@@ -42,7 +42,7 @@ void cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out);
 static inline uint32_t
 cf_b64_decoded_buf_size(uint32_t in_len)
 {
-	return (in_len * 3) >> 2;
+	return (in_len >> 2) * 3;
 }
 
 void cf_b64_decode(const char* in, uint32_t in_len, uint8_t* out, uint32_t* out_size);
-- 
2.43.0


From 5168a56451ce4e6c25bbbf673f79bd1eaf23b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:52 +0000
Subject: [PATCH 23/61] fix: Use unsigned indexes in the base64 encoder

The output index is an int, which overflows when the encoded text is longer than 2^31 - 1 characters although lengths are passed as uint32_t. The decoder already uses uint32_t.
---
 src/main/citrusleaf/cf_b64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_b64.c b/src/main/citrusleaf/cf_b64.c
index 4178786..67f7008 100644
--- a/src/main/citrusleaf/cf_b64.c
+++ b/src/main/citrusleaf/cf_b64.c
@@ -82,8 +82,8 @@ static const uint8_t base64_decode_a[] = {
 void
 cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out)
 {
-	int i = 0;
-	int j = 0;
+	uint32_t i = 0;
+	uint32_t j = 0;
 
 	while (in_size >= 3) {
 		uint8_t i0 = in[i];
-- 
2.43.0


From 5086bcad59267895809532e755c08cc1d5426d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:54 +0000
Subject: [PATCH 24/61] fix: Hash all of a message of 4 GB or more with SHA-1

The one-call interface takes a size_t length but truncates it to 32 bits, so the digest silently covers only part of a longer message.
---
 src/main/citrusleaf/cf_crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/citrusleaf/cf_crypto.c b/src/main/citrusleaf/cf_crypto.c
index 6978e04..c0cb93c 100644
--- a/src/main/citrusleaf/cf_crypto.c
+++ b/src/main/citrusleaf/cf_crypto.c
@@ -64,7 +64,7 @@ typedef struct cf_SHA1Context_s {
 //
 
 static int cf_SHA1Reset(cf_SHA1Context *context);
-static int cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array, unsigned length);
+static int cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array, size_t length);
 static int cf_SHA1Result(cf_SHA1Context *context, uint8_t Message_Digest[CF_SHA1HashSize]);
 
 static void cf_SHA1ProcessMessageBlock(cf_SHA1Context *);
@@ -89,7 +89,7 @@ cf_SHA1(const uint8_t* d, size_t n, uint8_t* md)
 	cf_SHA1Context sha;
 
 	cf_SHA1Reset(&sha);
-	cf_SHA1Input(&sha, d, (unsigned)n);
+	cf_SHA1Input(&sha, d, n);
 	cf_SHA1Result(&sha, md);
 }
 
@@ -123,7 +123,7 @@ cf_SHA1Reset(cf_SHA1Context *context)
 
 static int
 cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array,
-		unsigned length)
+		size_t length)
 {
 	if (! length) {
 		return cf_shaSuccess;
-- 
2.43.0


From 9d63c685e4bea4752d2379c33d4ca2c359395e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:13 +0000
Subject: [PATCH 25/61] fix: Count all bytes of a RIPEMD-160 chunk of 4 GB or
 more

Only the low 32 bits of the chunk size were added to the message length, so the length appended to the message was wrong.
---
 src/main/citrusleaf/cf_crypto.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/citrusleaf/cf_crypto.c b/src/main/citrusleaf/cf_crypto.c
index c0cb93c..ea72fed 100644
--- a/src/main/citrusleaf/cf_crypto.c
+++ b/src/main/citrusleaf/cf_crypto.c
@@ -428,6 +428,8 @@ cf_RIPEMD160_Update(cf_RIPEMD160_CTX* ctx, const void* v_input, size_t ilen)
 		ctx->total[1]++;
 	}
 
+	ctx->total[1] += (uint32_t) ((uint64_t)ilen >> 32);
+
 	if (left && ilen >= fill) {
 		memcpy((void*)(ctx->buffer + left), input, fill);
 
-- 
2.43.0


From 445e3c342332c89bc093adcdbd1626ba1453ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:22 +0000
Subject: [PATCH 26/61] fix: Compare the whole DNS alternative name of a
 certificate

The name was compared as a C string, so a certificate issued for a name with an embedded null byte was accepted for the part in front of it.
---
 src/main/aerospike/ssl_util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 3d8280e..48cc263 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -457,8 +457,10 @@ bool as_tls_match_san(X509 *x509, const char *name) {
 #else
 			char *san = (char*)ASN1_STRING_get0_data(dns_name);
 #endif
+			size_t san_length = (size_t)ASN1_STRING_length(dns_name);
 
-			if (strcmp(name, san) == 0) {
+			// The encoded name may contain embedded null bytes.
+			if (strlen(name) == san_length && memcmp(name, san, san_length) == 0) {
 				match = true;
 				break;
 			}
-- 
2.43.0


From 776716410cb8caafc30d1e17792928b7401ae329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:37 +0000
Subject: [PATCH 27/61] fix: Do not let a TLS wildcard stand for an empty label

A peer name starting with a dot was accepted against a wildcard name although no label stands in place of the wildcard.
---
 src/main/aerospike/ssl_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 48cc263..2fb98a7 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -337,7 +337,8 @@ static BOOL modssl_X509_match_name(apr_pool_t *p, X509 *x509, const char *name,
              * to match a dot. Otherwise, try a simple string compare.
              */
             if ((allow_wildcard == TRUE && is_wildcard == TRUE &&
-                 (cp = strchr(name, '.')) && !strcasecmp(id[i]+1, cp)) ||
+                 (cp = strchr(name, '.')) && cp != name &&
+                 !strcasecmp(id[i]+1, cp)) ||
                 !strcasecmp(id[i], name)) {
                 matched = TRUE;
             }
-- 
2.43.0


From 92a6ab417a5fe4fceda432f98ede05ab65330507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:20 +0000
Subject: [PATCH 28/61] fix: Normalize deadlines that fall on a whole second

A sum of exactly one billion nanoseconds was left as it is. Such a timespec is invalid and makes timed waits return EINVAL at once.
---
 src/include/citrusleaf/cf_clock.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/citrusleaf/cf_clock.h b/src/include/citrusleaf/cf_clock.h
index f8a14af..9dd26d8 100644
--- a/src/include/citrusleaf/cf_clock.h
+++ b/src/include/citrusleaf/cf_clock.h
@@ -91,7 +91,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec += ms_wait / 1000;
 	out->tv_nsec += (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -104,7 +104,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec += delta->tv_sec;
 	out->tv_nsec += delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -167,7 +167,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec = now.tv_sec + (ms_wait / 1000);
 	out->tv_nsec = now.tv_usec * 1000 + (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -182,7 +182,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = now.tv_sec + delta->tv_sec;
 	out->tv_nsec = now.tv_usec * 1000 + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -275,7 +275,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = nanos / (1000 * 1000 * 1000) + delta->tv_sec;
 	out->tv_nsec = (nanos % (1000 * 1000 * 1000)) + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
-- 
2.43.0


From c93b068e2f70547f22dc1eb56caaca8f55bb519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:13 +0000
Subject: [PATCH 29/61] fix: hex text of 2^32 digits or more overflows the
 destination

as_bytes_from_string() kept the length of the text in an int. A text whose
length does not fit wraps to a small or negative number, passes the check
against the size of the destination and is then written past its end.
---
 src/main/aerospike/as_bytes.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 503013f..41e9092 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -513,9 +513,9 @@ as_bytes_from_string(uint8_t* bytes, uint32_t bytes_size, const char* str)
 		str += 2;
 	}
 
-	int len = (int)strlen(str);
-	int count = len / 2;
-	int rem = len - (count * 2);
+	size_t len = strlen(str);
+	size_t count = len / 2;
+	size_t rem = len - (count * 2);
 
 	// Hex string length must be even (2 chars per byte).
 	if (rem != 0) {
@@ -523,7 +523,7 @@ as_bytes_from_string(uint8_t* bytes, uint32_t bytes_size, const char* str)
 	}
 
 	// Byte array must have enough space.
-	if ((uint32_t)count > bytes_size) {
+	if (count > bytes_size) {
 		return -1;
 	}
 
@@ -544,5 +544,5 @@ as_bytes_from_string(uint8_t* bytes, uint32_t bytes_size, const char* str)
 		}
 		*bytes++ = (hb << 4) + lb;
 	}
-	return count;
+	return (int)count;
 }
-- 
2.43.0


From 7cec5222007314123357d4a8e36f1b84665dd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 30/61] fix: Keep queued elements when a queue cannot grow

Both queues replaced their storage pointer with the result of a failed realloc.
The push returned an error, but the queued elements were lost and leaked.
---
 src/main/aerospike/as_queue.c  | 5 +++--
 src/main/citrusleaf/cf_queue.c | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index ff47756..46f9f98 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -75,11 +75,12 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			queue->data = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* tmp = cf_realloc(queue->data, new_capacity * queue->item_size);
 			
-			if (! queue->data) {
+			if (! tmp) {
 				return false;
 			}
+			queue->data = tmp;
 			queue->head = 0;
 			queue->tail = queue->capacity;
 			queue->capacity = new_capacity;
diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 1ccff0e..001e231 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -129,12 +129,14 @@ cf_queue_resize(cf_queue *q, uint32_t new_sz)
 	// The rare case where the queue is not fragmented, and realloc makes sense
 	// and none of the offsets need to move.
 	if (0 == q->read_offset % q->alloc_sz) {
-		q->elements = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
+		uint8_t *newq =
+				(uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
 
-		if (! q->elements) {
+		if (! newq) {
 			return CF_QUEUE_ERR;
 		}
 
+		q->elements = newq;
 		q->read_offset = 0;
 		q->write_offset = q->alloc_sz;
 	}
-- 
2.43.0


From 9ef94f15ccadbedcd80d860e00ec3176cccf5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 31/61] fix: Report a list whose elements cannot be allocated

The constructors returned a list with a capacity but no elements, so the first
append dereferenced NULL. tail, drop and take dereferenced a list that could
not be created.
---
 src/main/aerospike/as_arraylist.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 45a42fd..89cc116 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -43,6 +43,10 @@ as_arraylist_init(as_arraylist* list, uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+
+		if (! list->elements) {
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -64,6 +68,11 @@ as_arraylist_new(uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+
+		if (! list->elements) {
+			cf_free(list);
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -461,6 +470,8 @@ as_arraylist_tail(const as_arraylist* list)
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
 
+	if (! list2) return NULL;
+
 	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
 		if (list->elements[i]) {
@@ -481,7 +492,9 @@ as_arraylist_drop(const as_arraylist* list, uint32_t n)
 	uint32_t		sz		= list->size;
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(sz-c, list->block_size);
-	
+
+	if (! list2) return NULL;
+
 	list2->size = sz-c;
 	for(uint32_t i = c, j = 0; j < list2->size; i++, j++) {
 		if (list->elements[i]) {
@@ -503,6 +516,8 @@ as_arraylist_take(const as_arraylist* list, uint32_t n)
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(c, list->block_size);
 
+	if (! list2) return NULL;
+
 	list2->size = c;
 	for(uint32_t i = 0; i < c; i++) {
 		if (list->elements[i]) {
-- 
2.43.0


From 0b75d9fe9a07abe542487599f71b8f09d551342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 32/61] fix: Report a list element that cannot be allocated

The typed list functions stored nil and returned success when the value for the
new element could not be allocated.
---
 src/main/aerospike/as_arraylist.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 89cc116..8db9ef3 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -209,6 +209,10 @@ as_arraylist_stored(int rc, as_val* value)
 	return rc;
 }
 
+// Store a value which was created for the list, unless it could not be created.
+#define as_arraylist_store(__val, __call) \
+	((__val) ? as_arraylist_stored((__call), (__val)) : AS_ARRAYLIST_ERR_ALLOC)
+
 int
 as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 {
@@ -248,21 +252,21 @@ int
 as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
-	return as_arraylist_stored(as_arraylist_set(list, index, val), val);
+	return as_arraylist_store(val, as_arraylist_set(list, index, val));
 }
 
 int
 as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
-	return as_arraylist_stored(as_arraylist_set(list, index, val), val);
+	return as_arraylist_store(val, as_arraylist_set(list, index, val));
 }
 
 int
 as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
-	return as_arraylist_stored(as_arraylist_set(list, index, val), val);
+	return as_arraylist_store(val, as_arraylist_set(list, index, val));
 }
 
 /*******************************************************************************
@@ -308,21 +312,21 @@ int
 as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
-	return as_arraylist_stored(as_arraylist_insert(list, index, val), val);
+	return as_arraylist_store(val, as_arraylist_insert(list, index, val));
 }
 
 int
 as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
-	return as_arraylist_stored(as_arraylist_insert(list, index, val), val);
+	return as_arraylist_store(val, as_arraylist_insert(list, index, val));
 }
 
 int
 as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
-	return as_arraylist_stored(as_arraylist_insert(list, index, val), val);
+	return as_arraylist_store(val, as_arraylist_insert(list, index, val));
 }
 
 /*******************************************************************************
@@ -339,21 +343,21 @@ int
 as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
-	return as_arraylist_stored(as_arraylist_append(list, val), val);
+	return as_arraylist_store(val, as_arraylist_append(list, val));
 }
 
 int
 as_arraylist_append_double(as_arraylist* list, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
-	return as_arraylist_stored(as_arraylist_append(list, val), val);
+	return as_arraylist_store(val, as_arraylist_append(list, val));
 }
 
 int
 as_arraylist_append_str(as_arraylist* list, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
-	return as_arraylist_stored(as_arraylist_append(list, val), val);
+	return as_arraylist_store(val, as_arraylist_append(list, val));
 }
 
 /*******************************************************************************
@@ -370,21 +374,21 @@ int
 as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
-	return as_arraylist_stored(as_arraylist_prepend(list, val), val);
+	return as_arraylist_store(val, as_arraylist_prepend(list, val));
 }
 
 int
 as_arraylist_prepend_double(as_arraylist* list, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
-	return as_arraylist_stored(as_arraylist_prepend(list, val), val);
+	return as_arraylist_store(val, as_arraylist_prepend(list, val));
 }
 
 int
 as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
-	return as_arraylist_stored(as_arraylist_prepend(list, val), val);
+	return as_arraylist_store(val, as_arraylist_prepend(list, val));
 }
 
 /*******************************************************************************
-- 
2.43.0


From 2002a4040be34a9feb57cc49e951a541f3437d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 33/61] fix: Report a string copy that cannot be allocated

The constructors which copy their text returned a value without text when the
copy failed, and leaked the copy when the value itself could not be allocated.
---
 src/main/aerospike/as_geojson.c | 9 ++++++++-
 src/main/aerospike/as_string.c  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_geojson.c b/src/main/aerospike/as_geojson.c
index 3212643..c1c319c 100644
--- a/src/main/aerospike/as_geojson.c
+++ b/src/main/aerospike/as_geojson.c
@@ -69,7 +69,14 @@ as_geojson * as_geojson_new_wlen(char * value, size_t len, bool free)
 
 as_geojson *as_geojson_new_strdup(const char * s)
 {
-	return as_geojson_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if ( !value ) return NULL;
+
+	as_geojson * string = as_geojson_new(value, true);
+	if ( !string ) {
+		cf_free(value);
+	}
+	return string;
 }
 
 /******************************************************************************
diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index a37c542..ad9b666 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -57,7 +57,14 @@ as_string * as_string_new_wlen(char * value, size_t len, bool free)
 
 as_string *as_string_new_strdup(const char * s)
 {
-	return as_string_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if ( !value ) return NULL;
+
+	as_string * string = as_string_new(value, true);
+	if ( !string ) {
+		cf_free(value);
+	}
+	return string;
 }
 
 /******************************************************************************
-- 
2.43.0


From 5ab8629c9f7bf6790e9a31dffc1c44fcf1af9156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 34/61] fix: Report a byte buffer that cannot be allocated

The constructors returned a buffer with a capacity but no storage, and the first
append dereferenced NULL. They are documented to return NULL.
---
 src/main/aerospike/as_bytes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 41e9092..9e56987 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -44,6 +44,11 @@ static inline as_bytes * as_bytes_cons(
 
     if ( value == NULL && size == 0 && capacity > 0 ) {
 	    bytes->value = cf_calloc(capacity, sizeof(uint8_t));
+
+	    if ( !bytes->value ) {
+		    if ( free ) cf_free(bytes);
+		    return NULL;
+	    }
     }
     
 	return bytes;
-- 
2.43.0


From a9b25872fed419cfe59724d2c5c495d8d1b24933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 35/61] fix: Keep a map intact when it cannot grow

Growth recorded the larger capacity before the reallocation, so a failed one made
later inserts write past the table. The two hold arrays were not checked. A new
map leaked when its table could not be allocated.
---
 src/main/aerospike/as_orderedmap.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 01217a0..ba693aa 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -214,7 +214,12 @@ as_orderedmap_new(uint32_t capacity)
 
 	as_map_cons((as_map*)map, true, 1, &as_orderedmap_map_hooks);
 
-	return as_orderedmap_cons(map, capacity);
+	if (as_orderedmap_cons(map, capacity) == NULL) {
+		cf_free(map);
+		return NULL;
+	}
+
+	return map;
 }
 
 bool
@@ -296,16 +301,17 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 		// Near end of main table - insert directly.
 
 		if (map->count == map->capacity) {
-			map->capacity *= 2;
+			uint32_t new_capacity = map->capacity * 2;
 
 			map_entry* table = (map_entry*)cf_realloc(map->table,
-					map->capacity * sizeof(map_entry));
+					new_capacity * sizeof(map_entry));
 
 			if (table == NULL) {
 				return -1;
 			}
 
 			map->table = table;
+			map->capacity = new_capacity;
 		}
 
 		memmove(&map->table[ix + 1], &map->table[ix],
@@ -320,8 +326,17 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	// Far from end of main table - insert in hold table.
 
 	if (map->hold_table == NULL) {
-		map->hold_table = cf_malloc(HOLD_TABLE_CAP * sizeof(map_entry));
-		map->hold_locations = cf_malloc(HOLD_TABLE_CAP * sizeof(uint32_t));
+		map_entry* hold_table = cf_malloc(HOLD_TABLE_CAP * sizeof(map_entry));
+		uint32_t* hold_locations = cf_malloc(HOLD_TABLE_CAP * sizeof(uint32_t));
+
+		if (hold_table == NULL || hold_locations == NULL) {
+			cf_free(hold_table);
+			cf_free(hold_locations);
+			return -1;
+		}
+
+		map->hold_table = hold_table;
+		map->hold_locations = hold_locations;
 	}
 
 	uint32_t hold_ix;
-- 
2.43.0


From 287c2bfd0dbcc4aa334c28d0205182f5abbd1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 36/61] fix: Let a map insert retry a merge that failed

When the merge of the hold table failed for lack of memory, every later insert far
from the end failed too, even when memory was available again.
---
 src/main/aerospike/as_orderedmap.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index ba693aa..7191ed5 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -279,6 +279,11 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 		return -1;
 	}
 
+	// Retry a merge that failed for lack of memory.
+	if (map->hold_count == HOLD_TABLE_CAP && ! as_orderedmap_merge(map)) {
+		return -1;
+	}
+
 	as_val* cval = (as_val*)(val != NULL ? val : &as_nil);
 	as_val* ckey = (as_val*)key;
 	uint32_t ix;
@@ -356,10 +361,6 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 		return 0;
 	}
 
-	if (map->hold_count == HOLD_TABLE_CAP) {
-		return -1; // previous merge failed
-	}
-
 	memmove(&map->hold_table[hold_ix + 1], &map->hold_table[hold_ix],
 			sizeof(map_entry) * (map->hold_count - hold_ix));
 	map->hold_table[hold_ix].key = ckey;
-- 
2.43.0


From 817136d06258ebd32daa407b2e505d17442e2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 37/61] fix: Report serialization that runs out of memory

A second output buffer that could not be allocated leaked the first one. The
buffer that combines several was not checked and crashed.
---
 src/main/aerospike/as_msgpack.c            |  5 ++++-
 src/main/aerospike/as_msgpack_serializer.c | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 2bc2195..d11b0e1 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -279,11 +279,14 @@ pack_resize(as_packer *pk, uint32_t sz)
 
 	size_t newcap = (size_t)((sz > (uint32_t)pk->capacity) ? sz : pk->capacity);
 
-	if (! (pk->buffer = (unsigned char *)cf_malloc(newcap))) {
+	unsigned char *newbuf = (unsigned char *)cf_malloc(newcap);
+
+	if (! newbuf) {
 		cf_free(entry);
 		return -1;
 	}
 
+	pk->buffer = newbuf;
 	pk->capacity = (int)newcap;
 	pk->offset = 0;
 
diff --git a/src/main/aerospike/as_msgpack_serializer.c b/src/main/aerospike/as_msgpack_serializer.c
index 4371f85..82955da 100644
--- a/src/main/aerospike/as_msgpack_serializer.c
+++ b/src/main/aerospike/as_msgpack_serializer.c
@@ -154,7 +154,9 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 		int offset = 0;
 
 		while (p) {
-			memcpy(target + offset, p->buffer, p->length);
+			if (target) {
+				memcpy(target + offset, p->buffer, p->length);
+			}
 			offset += p->length;
 			
 			as_packer_buffer *tmp = p;
@@ -165,11 +167,17 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 			cf_free(tmp);
 		}
 
-		memcpy(target + offset, packer.buffer, packer.offset);
+		if (target) {
+			memcpy(target + offset, packer.buffer, packer.offset);
+		}
 
 		// Free original main buffer.
 		cf_free(packer.buffer);
 
+		if (! target) {
+			return 1;
+		}
+
 		// Transfer new buffer.
 		buff->data = target;
 		buff->size = size;
-- 
2.43.0


From 815c4a473320cff3d1df3539153898b30c653a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 38/61] fix: Report deserialization that runs out of memory

Numbers and booleans were read as no value with a success result, so pairs of a
map could be dropped silently. Strings were made without text, or leaked it.
---
 src/main/aerospike/as_msgpack.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index d11b0e1..bf4aeca 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -924,21 +924,21 @@ static inline int
 unpack_boolean(bool b, as_val **v)
 {
 	*v = (as_val *)as_boolean_new(b);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_integer_val(int64_t i, as_val **v)
 {
 	*v = (as_val *)as_integer_new(i);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_double_val(double d, as_val **v)
 {
 	*v = (as_val *)as_double_new(d);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static int
@@ -953,11 +953,29 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 
 	if (type == AS_BYTES_STRING) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val*)as_string_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else if (type == AS_BYTES_GEOJSON) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val *)as_geojson_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else {
 		as_bytes *b;
-- 
2.43.0


From 8dcfb20488b2f38acff2e1aca74f320a2e758876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:13 +0000
Subject: [PATCH 39/61] fix: Report measuring and comparing deep values that
 run out of memory

The state blocks used beyond the recursion limit were not checked. When measuring
a malformed value failed, all but the first block leaked.
---
 src/main/aerospike/as_msgpack.c | 52 ++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index bf4aeca..d1b9ca3 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -108,7 +108,7 @@ static inline int pack_ext_header_internal(as_packer *pk, uint32_t content_size,
 static int64_t unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static int64_t unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static inline as_val_t bytes_internal_type_to_as_val_t(uint8_t type);
-static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block, msgpack_parse_state *state);
+static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block, msgpack_parse_state *state);
 static inline int64_t unpack_size_internal(as_unpacker *pk, uint32_t depth);
 static inline const uint8_t *unpack_str_bin(as_unpacker *pk, uint32_t *sz_r);
 
@@ -121,6 +121,11 @@ static msgpack_parse_memblock *
 msgpack_parse_memblock_create(msgpack_parse_memblock *prev)
 {
 	msgpack_parse_memblock *p = cf_malloc(sizeof(msgpack_parse_memblock));
+
+	if (! p) {
+		return NULL;
+	}
+
 	p->prev = prev;
 	p->count = 0;
 	return p;
@@ -141,8 +146,13 @@ msgpack_parse_memblock_next(msgpack_parse_memblock **block)
 {
 	msgpack_parse_memblock *ptr = *block;
 
-	if (ptr->count >= MSGPACK_PARSE_MEMBLOCK_STATE_COUNT) {
+	if (! ptr || ptr->count >= MSGPACK_PARSE_MEMBLOCK_STATE_COUNT) {
 		ptr = msgpack_parse_memblock_create(ptr);
+
+		if (! ptr) {
+			return NULL;
+		}
+
 		*block = ptr;
 	}
 
@@ -1597,15 +1607,19 @@ static int64_t
 unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
-		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+		msgpack_parse_memblock *block = NULL;
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
+		if (! state) {
+			return -1;
+		}
+
 		state->index = 0;
 		state->map_pair = 0;
 		state->len = ele_count;
 		state->type = AS_LIST;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 
 		msgpack_parse_memblock_destroy(block);
 
@@ -1636,15 +1650,19 @@ static int64_t
 unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
-		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+		msgpack_parse_memblock *block = NULL;
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
+		if (! state) {
+			return -1;
+		}
+
 		state->index = 0;
 		state->map_pair = 0;
 		state->len = ele_count;
 		state->type = AS_MAP;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 		msgpack_parse_memblock_destroy(block);
 
 		return ret;
@@ -1809,18 +1827,18 @@ as_unpack_buf_peek_type(const uint8_t *buf, uint32_t size)
 }
 
 static int64_t
-unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
+unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		msgpack_parse_state *state)
 {
 	int start = pk->offset;
 
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_parse_memblock_has_prev(block)) {
+			if (! msgpack_parse_memblock_has_prev(*block)) {
 				return (int64_t)(pk->offset - start);
 			}
 
-			state = msgpack_parse_memblock_prev(&block);
+			state = msgpack_parse_memblock_prev(block);
 		}
 
 		if (state->type == AS_LIST) {
@@ -1846,9 +1864,9 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_LIST ) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
 			}
 
@@ -1856,9 +1874,9 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_MAP) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
 			}
 
@@ -2621,10 +2639,10 @@ static msgpack_compare_t
 msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
-		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+		msgpack_parse_memblock *block = NULL;
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
-		if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
+		if (! state || ! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
 			msgpack_parse_memblock_destroy(block);
 			return MSGPACK_COMPARE_ERROR;
 		}
@@ -2891,7 +2909,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_LIST ) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
@@ -2901,7 +2919,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_MAP) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-- 
2.43.0


From be1566676b70bbbc98bd5b165b4ff39db1e286db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:13 +0000
Subject: [PATCH 40/61] fix: Report comparing maps that runs out of memory

Comparing two maps used the iterators even when they could not be initialized.
---
 src/main/aerospike/as_msgpack.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index d1b9ca3..06783d0 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -673,8 +673,10 @@ as_map_cmp(const as_map* map1, const as_map* map2)
 	as_orderedmap_iterator it1;
 	as_orderedmap_iterator it2;
 
-	as_orderedmap_iterator_init(&it1, (const as_orderedmap*)map1);
-	as_orderedmap_iterator_init(&it2, (const as_orderedmap*)map2);
+	if (! as_orderedmap_iterator_init(&it1, (const as_orderedmap*)map1) ||
+			! as_orderedmap_iterator_init(&it2, (const as_orderedmap*)map2)) {
+		return MSGPACK_COMPARE_ERROR;
+	}
 
 	for (uint32_t i = 0; i < sz; i++) {
 		as_pair* p1 = (as_pair*)as_orderedmap_iterator_next(&it1);
-- 
2.43.0


From 000e88d0630fd6eb746787e540e1c546581af0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:13 +0000
Subject: [PATCH 41/61] fix: Terminate builder text when growth fails

The part of the text that fitted was left without a terminator when the builder
could not grow.
---
 src/main/aerospike/as_string_builder.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 921eab5..ce96fcf 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -106,13 +106,12 @@ as_string_builder_append(as_string_builder* sb, const char* src)
 		// Optimistic increase of length failed. Roll it back.
 		sb->length--;
 
-		if (sb->resize) {
-			return as_sb_expand(sb, src);
-		}
-		else {
-			*trg = 0;
-			return false;
+		if (sb->resize && as_sb_expand(sb, src)) {
+			return true;
 		}
+
+		*trg = 0;
+		return false;
 	}
 	*trg = 0;
 	return true;
-- 
2.43.0


From 58385d58e9e38b55df9ef482a99981d9a983fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:13 +0000
Subject: [PATCH 42/61] fix: Report a counted block that cannot be allocated

The header was written without checking the allocation.
---
 src/main/citrusleaf/cf_alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index c1d4e7e..49ac3c8 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -96,6 +96,10 @@ cf_rc_alloc(size_t sz)
 {
 	cf_rc_hdr* head = malloc(sizeof(cf_rc_hdr) + sz);
 
+	if (! head) {
+		return NULL;
+	}
+
 	head->count = 1;
 	head->sz = (uint32_t)sz;
 
-- 
2.43.0


From da5444c4c5c3064518cb1758b727aa830664a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:13 +0000
Subject: [PATCH 43/61] fix: Report map entries keyed by text that cannot be
 allocated

The setters stored nil, or passed a key without text, when the key or the value
could not be allocated. They leaked both when the map could not take the entry.
---
 src/include/aerospike/as_stringmap.h | 40 +++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/include/aerospike/as_stringmap.h b/src/include/aerospike/as_stringmap.h
index 7b60f8d..0df4210 100644
--- a/src/include/aerospike/as_stringmap.h
+++ b/src/include/aerospike/as_stringmap.h
@@ -39,7 +39,12 @@ extern "C" {
  */
 static inline int as_stringmap_set(as_map * m, const char * k, as_val * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), v);
+	as_val * key = (as_val *) as_string_new_strdup(k);
+	int rc = key ? as_util_hook(set, 1, m, key, v) : -1;
+	if ( rc != 0 ) {
+		as_val_destroy(key);
+	}
+	return rc;
 }
 
 /**
@@ -47,7 +52,12 @@ static inline int as_stringmap_set(as_map * m, const char * k, as_val * v)
  */
 static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_integer_new(v));
+	as_val * val = (as_val *) as_integer_new(v);
+	int rc = val ? as_stringmap_set(m, k, val) : -1;
+	if ( rc != 0 ) {
+		as_val_destroy(val);
+	}
+	return rc;
 }
 
 /**
@@ -55,7 +65,12 @@ static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v)
  */
 static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_double_new(v));
+	as_val * val = (as_val *) as_double_new(v);
+	int rc = val ? as_stringmap_set(m, k, val) : -1;
+	if ( rc != 0 ) {
+		as_val_destroy(val);
+	}
+	return rc;
 }
 
 /**
@@ -63,7 +78,12 @@ static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
  */
 static inline int as_stringmap_set_str(as_map * m, const char * k, const char * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_string_new_strdup(v));
+	as_val * val = (as_val *) as_string_new_strdup(v);
+	int rc = val ? as_stringmap_set(m, k, val) : -1;
+	if ( rc != 0 ) {
+		as_val_destroy(val);
+	}
+	return rc;
 }
 
 /**
@@ -71,7 +91,7 @@ static inline int as_stringmap_set_str(as_map * m, const char * k, const char *
  */
 static inline int as_stringmap_set_integer(as_map * m, const char * k, as_integer * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -79,7 +99,7 @@ static inline int as_stringmap_set_integer(as_map * m, const char * k, as_intege
  */
 static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_double * v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 	
 /**
@@ -87,7 +107,7 @@ static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_doub
  */
 static inline int as_stringmap_set_string(as_map * m, const char * k, as_string * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -95,7 +115,7 @@ static inline int as_stringmap_set_string(as_map * m, const char * k, as_string
  */
 static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -103,7 +123,7 @@ static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes *
  */
 static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -111,7 +131,7 @@ static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v)
  */
 static inline int as_stringmap_set_map(as_map * m, const char * k, as_map * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /******************************************************************************
-- 
2.43.0


From dc3b77dd53a88030b20e096846339644112e6eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:35 +0000
Subject: [PATCH 44/61] fix: Limit recursion when comparing nested maps

Only nested lists counted towards the recursion limit. Comparing encoded maps
nested tens of thousands of levels deep overflowed the stack.
---
 src/main/aerospike/as_msgpack.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 06783d0..044a507 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2730,6 +2730,32 @@ compare_ext(as_unpacker *pk1, as_unpacker *pk2)
 static msgpack_compare_t
 msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 {
+	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
+		msgpack_parse_memblock *block = NULL;
+		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
+
+		if (! state || ! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
+			msgpack_parse_memblock_destroy(block);
+			return MSGPACK_COMPARE_ERROR;
+		}
+
+		msgpack_compare_t ret = state->default_compare_type;
+
+		if (ret == MSGPACK_COMPARE_EQUAL) {
+			ret = msgpack_compare_non_recursive(pk1, pk2, &block, state);
+		}
+
+		if (ret == MSGPACK_COMPARE_ERROR ||
+				! msgpack_compare_unwind_all(pk1, pk2, &block)) {
+			msgpack_parse_memblock_destroy(block);
+			return MSGPACK_COMPARE_ERROR;
+		}
+
+		msgpack_parse_memblock_destroy(block);
+
+		return ret;
+	}
+
 	int64_t len1 = as_unpack_map_header_element_count(pk1);
 	int64_t len2 = as_unpack_map_header_element_count(pk2);
 	int64_t minlen = (len1 < len2) ? len1 : len2;
-- 
2.43.0


From 6ac0506c1fc6ad11d9cec500708a0abd8d573afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:22 +0000
Subject: [PATCH 45/61] fix: Record whether a timer was allocated

Neither constructor set the flag that tells whether the timer is to be freed,
so destroying a timer in caller storage could free it and a heap timer could leak.
---
 src/main/aerospike/as_timer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_timer.c b/src/main/aerospike/as_timer.c
index 6a56fbc..6abdacd 100644
--- a/src/main/aerospike/as_timer.c
+++ b/src/main/aerospike/as_timer.c
@@ -27,6 +27,7 @@
  */
 as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks * hooks) {
     if ( timer == NULL ) return timer;
+    timer->is_malloc = false;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
@@ -38,6 +39,7 @@ as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks *
 as_timer * as_timer_new(void * source, const as_timer_hooks * hooks) {
     as_timer * timer = (as_timer *) cf_malloc(sizeof(as_timer));
     if (!timer) return timer;
+    timer->is_malloc = true;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
-- 
2.43.0


From 6fe08ac7c3ef8c87dc3a6e1482fb754a7129f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:15 +0000
Subject: [PATCH 46/61] fix: order a reader after the writer whose unlock it
 observes

as_swlock_read_lock() tests the writer bit with an acquire load, then adds itself with a relaxed read-modify-write. A writer that locks and unlocks between the two is observed only by the latter, so the reader was not ordered after that writer's stores. Make the read-modify-write an acquire operation.
---
 src/include/aerospike/as_atomic_gcc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aerospike/as_atomic_gcc.h b/src/include/aerospike/as_atomic_gcc.h
index 67e5b49..e318eec 100644
--- a/src/include/aerospike/as_atomic_gcc.h
+++ b/src/include/aerospike/as_atomic_gcc.h
@@ -832,7 +832,7 @@ as_swlock_read_lock(as_swlock* rw)
 			as_arch_pause();
 		}
 
-		uint32_t l = as_faa_uint32(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
+		uint32_t l = as_faa_acq(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
 
 		if (l == 0) {
 			break;
-- 
2.43.0


From d1ad0826dd7fce0f4ce86ad2d21a56db7affd5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:38 +0000
Subject: [PATCH 47/61] fix: do not access memory before an empty password

fgets() leaves an empty string when the buffer holds one character or when the line starts with a zero byte. The test for a trailing newline then looked at password[-1].
---
 src/main/aerospike/as_password.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_password.c b/src/main/aerospike/as_password.c
index be53dc2..e093b94 100644
--- a/src/main/aerospike/as_password.c
+++ b/src/main/aerospike/as_password.c
@@ -117,7 +117,7 @@ as_password_prompt(char* password, int size)
 	if (s) {
 		int len = (int)strlen(password);
 
-		if (password[len - 1] == '\n') {
+		if (len > 0 && password[len - 1] == '\n') {
 			password[--len] = 0;
 		}
 	}
-- 
2.43.0


From d5b1a1ea6a8e93dc0ddd5c1426a606ed741a8828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:54 +0000
Subject: [PATCH 48/61] fix: check bounds when unpacking a value

as_unpack_val() read scalars, blobs and container elements without looking at the length of the input, so truncated or malformed input was read past its end. A container header could also request memory for up to 2^32 elements. Check that each element's fixed part, each blob and at least one byte per container element are present.
---
 src/main/aerospike/as_msgpack.c | 88 ++++++++++++++++++++++++++++++++-
 1 file changed, 87 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 044a507..545b2f0 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -905,6 +905,67 @@ extract_double(as_unpacker *pk)
 	return *(double*)&swapped;
 }
 
+// Is there room for n more bytes?
+static inline bool
+unpack_has(const as_unpacker *pk, uint32_t n)
+{
+	return pk->offset <= pk->length && pk->length - pk->offset >= n;
+}
+
+// Number of bytes which always follow the first byte of an element.
+static inline uint32_t
+unpack_fixed_size(uint8_t type)
+{
+	switch (type) {
+	case 0xc4: // string/raw bytes with 8 bit header
+	case 0xd9:
+	case 0xcc: // 8 bit integer
+	case 0xd0:
+		return 1;
+
+	case 0xc5: // string/raw bytes with 16 bit header
+	case 0xda:
+	case 0xcd: // 16 bit integer
+	case 0xd1:
+	case 0xdc: // list with 16 bit header
+	case 0xde: // map with 16 bit header
+	case 0xc7: // ext 8 header and type
+	case 0xd4: // fixext 1
+		return 2;
+
+	case 0xd5: // fixext 2
+	case 0xc8: // ext 16 header and type
+		return 3;
+
+	case 0xc6: // string/raw bytes with 32 bit header
+	case 0xdb:
+	case 0xca: // float
+	case 0xce: // 32 bit integer
+	case 0xd2:
+	case 0xdd: // list with 32 bit header
+	case 0xdf: // map with 32 bit header
+		return 4;
+
+	case 0xd6: // fixext 4
+	case 0xc9: // ext 32 header and type
+		return 5;
+
+	case 0xcb: // double
+	case 0xcf: // 64 bit integer
+	case 0xd3:
+		return 8;
+
+	case 0xd7: // fixext 8
+		return 9;
+
+	case 0xd8: // fixext 16
+		return 17;
+
+	default:
+		return 0;
+	}
+}
+
 static inline int
 unpack_nil(as_val **v)
 {
@@ -958,6 +1019,10 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	unsigned char type = 0;
 
+	if (! unpack_has(pk, size)) {
+		return -5;
+	}
+
 	if (size != 0) {
 		type = pk->buffer[pk->offset++];
 		size--;
@@ -1045,6 +1110,11 @@ unpack_list(as_unpacker *pk, uint32_t size, as_val **val)
 		size--;
 	}
 
+	// Each element has at least one byte.
+	if (! unpack_has(pk, size)) {
+		return -4;
+	}
+
 	as_arraylist *list = as_arraylist_new(size, 8);
 
 	if (! list) {
@@ -1164,6 +1234,11 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 		ele_count--;
 	}
 
+	// Each key and each value has at least one byte.
+	if (ele_count > UINT32_MAX / 2 || ! unpack_has(pk, 2 * ele_count)) {
+		return -6;
+	}
+
 	// Check preserve order bit.
 	if ((flags & AS_PACKED_MAP_FLAG_PRESERVE_ORDER) != 0) {
 		return unpack_map_create_list(pk, ele_count, val);
@@ -1176,13 +1251,24 @@ int
 as_unpack_val(as_unpacker *pk, as_val **val)
 {
 	if (as_unpack_peek_is_ext(pk)) {
-		as_unpack_size(pk);
+		if (as_unpack_size(pk) < 0) {
+			return -3;
+		}
+
 		*val = NULL;
 		return 0;
 	}
 
+	if (! unpack_has(pk, 1)) {
+		return -4;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (! unpack_has(pk, unpack_fixed_size(type))) {
+		return -5;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 		return unpack_nil(val);
-- 
2.43.0


From 1cf760781771a80c06eb3158b0c67233fe6057b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:58 +0000
Subject: [PATCH 49/61] fix: check bounds when skipping an element

as_unpack_size() moved past headers and data without looking at the length of the input. It read length fields beyond the end of truncated input and reported success with an offset outside of it. With a 32 bit length near 2^32 the offset wrapped around.
---
 src/main/aerospike/as_msgpack.c | 42 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 545b2f0..c27f769 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1979,6 +1979,19 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 	return -6;
 }
 
+// Skip n bytes of data after a header which is already extracted.
+static inline int64_t
+unpack_skip_size(as_unpacker *pk, uint32_t header, uint32_t n)
+{
+	if (! unpack_has(pk, n)) {
+		return -1;
+	}
+
+	pk->offset += n;
+
+	return (int64_t)header + n;
+}
+
 static inline int64_t
 unpack_size_internal(as_unpacker *pk, uint32_t depth)
 {
@@ -1988,6 +2001,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (! unpack_has(pk, unpack_fixed_size(type))) {
+		return -9;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 	case 0xc3: // boolean true
@@ -2019,22 +2036,19 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += length;
-		return 1 + 1 + length;
+		return unpack_skip_size(pk, 1 + 1, length);
 	}
 
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
 		uint16_t length = extract_uint16(pk);
-		pk->offset += length;
-		return 1 + 2 + length;
+		return unpack_skip_size(pk, 1 + 2, length);
 	}
 
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
 		uint32_t length = extract_uint32(pk);
-		pk->offset += length;
-		return 1 + 4 + length;
+		return unpack_skip_size(pk, 1 + 4, length);
 	}
 
 	case 0xdc: { // list with 16 bit header
@@ -2090,27 +2104,25 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 		return 1 + 1 + 16;
 	case 0xc7: { // ext 8
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += 1 + length;
-		return 1 + 1 + 1 + length;
+		pk->offset++;
+		return unpack_skip_size(pk, 1 + 1 + 1, length);
 	}
 	case 0xc8: { // ext 16
 		uint16_t length = extract_uint16(pk);
-		pk->offset += 1 + length;
-		return 1 + 2 + 1 + length;
+		pk->offset++;
+		return unpack_skip_size(pk, 1 + 2 + 1, length);
 	}
 	case 0xc9: { // ext 32
 		uint32_t length = extract_uint32(pk);
-		pk->offset += 1 + length;
-		return 1 + 4 + 1 + length;
+		pk->offset++;
+		return unpack_skip_size(pk, 1 + 4 + 1, length);
 	}
 	default:
 		break;
 	}
 
 	if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-		int length = type & 0x1f;
-		pk->offset += length;
-		return 1 + length;
+		return unpack_skip_size(pk, 1, type & 0x1f);
 	}
 
 	if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
-- 
2.43.0


From d9bf785acc012986e5409b27be0a9aa8ad96bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:19 +0000
Subject: [PATCH 50/61] fix: check bounds when probing a type or reading a
 boolean or nil

as_unpack_peek_type() looked for a blob's or extension's type byte beyond the end of truncated input. For an empty blob it took the first byte of the next element for it. as_unpack_boolean() and as_unpack_nil() read at any offset.
---
 src/main/aerospike/as_msgpack.c | 47 ++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index c27f769..18b9f02 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1792,6 +1792,20 @@ bytes_internal_type_to_as_val_t(uint8_t type)
 	return AS_BYTES;
 }
 
+// Get type of a blob from its type byte, which follows the header.
+static inline as_val_t
+peek_blob_type(const as_unpacker *pk)
+{
+	as_unpacker blob = *pk;
+
+	if (as_unpack_blob_size(&blob) <= 0 || ! unpack_has(&blob, 1)) {
+		// No type byte.
+		return AS_BYTES;
+	}
+
+	return bytes_internal_type_to_as_val_t(blob.buffer[blob.offset]);
+}
+
 as_val_t
 as_unpack_peek_type(const as_unpacker *pk)
 {
@@ -1824,22 +1838,12 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_DOUBLE;
 
 	case 0xc4:
-	case 0xd9: { // string/raw bytes with 8 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 2];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
-
+	case 0xd9: // string/raw bytes with 8 bit header
 	case 0xc5:
-	case 0xda: { // string/raw bytes with 16 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 3];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
-
+	case 0xda: // string/raw bytes with 16 bit header
 	case 0xc6:
-	case 0xdb: { // string/raw bytes with 32 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 5];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xdb: // string/raw bytes with 32 bit header
+		return peek_blob_type(pk);
 
 	case 0xdc: // list with 16 bit header
 	case 0xdd: // list with 32 bit header
@@ -1850,6 +1854,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_MAP;
 
 	case 0xd4: { // fixext1
+		if (! unpack_has(pk, 3)) {
+			return AS_CMP_EXT;
+		}
+
 		uint8_t ext_type = pk->buffer[pk->offset + 1];
 
 		if (ext_type == ASVAL_CMP_EXT_TYPE) {
@@ -1876,8 +1884,7 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_CMP_EXT;
 	default:
 		if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-			uint8_t type1 = pk->buffer[pk->offset + 1];
-			return bytes_internal_type_to_as_val_t(type1);
+			return peek_blob_type(pk);
 		}
 
 		if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
@@ -2155,6 +2162,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 int
 as_unpack_boolean(as_unpacker *pk, bool *value)
 {
+	if (! unpack_has(pk, 1)) {
+		return -2;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	if (type == 0xc3 || type == 0xc2) {
@@ -2168,6 +2179,10 @@ as_unpack_boolean(as_unpacker *pk, bool *value)
 int
 as_unpack_nil(as_unpacker *pk)
 {
+	if (! unpack_has(pk, 1)) {
+		return -2;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	return type == 0xc0 ? 0 : -1;
-- 
2.43.0


From df072acde0d3c36865353457ac56f20f626b983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:43 +0000
Subject: [PATCH 51/61] fix: check bounds when comparing truncated blobs

The length reader of the comparison stepped over the type byte of a blob
even if the header could not be read or the byte was missing, so the number
of bytes left wrapped around.
---
 src/main/aerospike/as_msgpack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 18b9f02..c172fa0 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2622,7 +2622,8 @@ msgpack_get_blob_len(as_unpacker *pk)
 {
 	int64_t len = as_unpack_blob_size(pk);
 
-	if (len == 0) {
+	// A blob has at least its type byte.
+	if (len <= 0 || pk->offset >= pk->length) {
 		return -1;
 	}
 
-- 
2.43.0


From 8f2648457f7b98d9b06585f830cb34701d973712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:07 +0000
Subject: [PATCH 52/61] fix: return NULL when a result or runtime object cannot
 be allocated

as_success_new(), as_failure_new() and as_aerospike_new() wrote through
the pointer without checking that the allocation succeeded.
---
 src/main/aerospike/as_aerospike.c | 1 +
 src/main/aerospike/as_result.c    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/main/aerospike/as_aerospike.c b/src/main/aerospike/as_aerospike.c
index f954f4b..db29f4b 100644
--- a/src/main/aerospike/as_aerospike.c
+++ b/src/main/aerospike/as_aerospike.c
@@ -33,6 +33,7 @@ as_aerospike * as_aerospike_init(as_aerospike * a, void * s, const as_aerospike_
 as_aerospike * as_aerospike_new(void * s, const as_aerospike_hooks * h)
 {
 	as_aerospike * a = (as_aerospike *) cf_rc_alloc(sizeof(as_aerospike));
+	if (!a) return a;
 	a->is_rcalloc = true;
 	a->source = s;
 	a->hooks = h;
diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index cd45984..02b0472 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -66,6 +66,7 @@ void as_result_destroy(as_result *r) {
 
 as_result * as_success_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = true;
     r->value = v;
     return(r);
@@ -73,6 +74,7 @@ as_result * as_success_new(as_val * v) {
 
 as_result * as_failure_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = false;
     r->value = v;
     return(r);
-- 
2.43.0


From beda61be673e3f980613c423920280b19c713d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:17 +0000
Subject: [PATCH 53/61] fix: refuse string builder appends that pass 4 GiB

The needed capacity was computed in 32 bits. Appending a blob of 0x55555555
bytes or a text of 4 GiB wrapped it to a small number and wrote past the
buffer. Compute it in size_t and refuse what the builder cannot count.
---
 src/main/aerospike/as_string_builder.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index ce96fcf..b190062 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -79,15 +79,16 @@ as_sb_increase_capacity(as_string_builder* sb, uint32_t min_capacity)
 static bool
 as_sb_expand(as_string_builder* sb, const char* src)
 {
-	uint32_t remaining_len = (uint32_t)strlen(src);
-	uint32_t min_capacity = sb->length + remaining_len + 1;
+	size_t remaining_len = strlen(src);
+	size_t min_capacity = sb->length + remaining_len + 1;
 
-	if (! as_sb_increase_capacity(sb, min_capacity)) {
+	if (min_capacity > UINT32_MAX ||
+		! as_sb_increase_capacity(sb, (uint32_t)min_capacity)) {
 		return false;
 	}
 
 	memcpy(&sb->data[sb->length], src, remaining_len);
-	sb->length += remaining_len;
+	sb->length += (uint32_t)remaining_len;
 	sb->data[sb->length] = 0;
 	return true;
 }
@@ -164,10 +165,11 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
 		// - 1 extra separator (when there is one) + 1 null byte.
-		uint32_t min_capacity = sb->length + (size * 3) + (size > 0 ? 2 : 3);
+		size_t min_capacity = sb->length + ((size_t)size * 3) + (size > 0 ? 2 : 3);
 
 		if (min_capacity > sb->capacity) {
-			if (! as_sb_increase_capacity(sb, min_capacity)) {
+			if (min_capacity > UINT32_MAX ||
+				! as_sb_increase_capacity(sb, (uint32_t)min_capacity)) {
 				return false;
 			}
 		}
-- 
2.43.0


From 367f349534aed5426c1fb5deb920c8b88d0224e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:38 +0000
Subject: [PATCH 54/61] fix: compute the text size of a blob in size_t

The size of the text and the position in it were kept in 32 bits. A blob of
1 GiB got a buffer of 3 bytes for its text.
---
 src/main/aerospike/as_bytes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 9e56987..f98f23b 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -430,14 +430,14 @@ char * as_bytes_val_tostring(const as_val * v)
 
     uint8_t * 	s = bytes->value;
     uint32_t 	sl = bytes->size;
-    size_t		st = (4 * sl) + 3;
+    size_t		st = (4 * (size_t)sl) + 3;
     char * 		str = (char *) cf_malloc(st);
 
     if ( !str ) {
     	return NULL;
     }
     
-    int j=0;
+    size_t j=0;
     for ( uint32_t i=0; i < sl; i++ ) {
         str[j] = as_hex_chars[(s[i] >> 4) & 0xf];
         str[j+1] = as_hex_chars[s[i] & 0xf];
-- 
2.43.0


From ee828710e142eaead62d286a36eba5ff35b87708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:25 +0000
Subject: [PATCH 55/61] fix: compute queue block sizes in size_t

The product of capacity and item size was computed in 32 bits. A queue of
4096 items of 1 MiB got an empty block, and items past 4 GiB shared the place
of earlier ones.
---
 src/include/aerospike/as_queue.h |  2 +-
 src/main/aerospike/as_queue.c    | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/include/aerospike/as_queue.h b/src/include/aerospike/as_queue.h
index bba65ac..c8b03e5 100644
--- a/src/include/aerospike/as_queue.h
+++ b/src/include/aerospike/as_queue.h
@@ -155,7 +155,7 @@ as_queue_push_head_limit(as_queue* queue, const void* ptr);
 static inline void*
 as_queue_get(as_queue* queue, uint32_t index)
 {
-	return &queue->data[(index % queue->capacity) * queue->item_size];
+	return &queue->data[(size_t)(index % queue->capacity) * queue->item_size];
 }
 	
 /**
diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index 46f9f98..65b8a45 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -43,17 +43,17 @@ as_queue_unwrap(as_queue* queue)
 static bool
 as_queue_copy(as_queue* queue, uint32_t new_capacity, bool free_old)
 {
-	uint8_t* tmp = cf_malloc(new_capacity * queue->item_size);
+	uint8_t* tmp = cf_malloc((size_t)new_capacity * queue->item_size);
 	
 	if (! tmp) {
 		return false;
 	}
 	
 	// end_sz is used bytes in old queue from insert point to end.
-	size_t end_sz = (queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
+	size_t end_sz = (size_t)(queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
 	
 	memcpy(tmp, as_queue_get(queue, queue->head), end_sz);
-	memcpy(&tmp[end_sz], queue->data, (queue->capacity * queue->item_size) - end_sz);
+	memcpy(&tmp[end_sz], queue->data, ((size_t)queue->capacity * queue->item_size) - end_sz);
 	
 	if (free_old) {
 		cf_free(queue->data);
@@ -75,7 +75,7 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			uint8_t* tmp = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* tmp = cf_realloc(queue->data, (size_t)new_capacity * queue->item_size);
 			
 			if (! tmp) {
 				return false;
@@ -106,7 +106,7 @@ as_queue_increase_capacity(as_queue* queue)
 bool
 as_queue_init(as_queue* queue, uint32_t item_size, uint32_t capacity)
 {
-	queue->data = cf_malloc(capacity * item_size);
+	queue->data = cf_malloc((size_t)capacity * item_size);
 	
 	if (! queue->data) {
 		return false;
-- 
2.43.0


From da7cec49bcf4c799c457980a9dbc2fae54ea509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:48 +0000
Subject: [PATCH 56/61] fix: compute vector block sizes in size_t

The product of item count and item size was computed in 32 bits. A vector of
4096 items of 1 MiB got an empty block, and items past 4 GiB shared the place
of earlier ones.
---
 src/include/aerospike/as_vector.h | 10 +++++-----
 src/main/aerospike/as_vector.c    | 16 ++++++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/include/aerospike/as_vector.h b/src/include/aerospike/as_vector.h
index 7bd909a..d3535b6 100644
--- a/src/include/aerospike/as_vector.h
+++ b/src/include/aerospike/as_vector.h
@@ -111,7 +111,7 @@ as_vector_clear(as_vector* vector)
 static inline void*
 as_vector_get(as_vector* vector, uint32_t index)
 {
-	return (void *) ((uint8_t *)vector->list + (vector->item_size * index));
+	return (void *) ((uint8_t *)vector->list + ((size_t)vector->item_size * index));
 }
 
 /**
@@ -120,7 +120,7 @@ as_vector_get(as_vector* vector, uint32_t index)
 static inline void*
 as_vector_get_ptr(as_vector* vector, uint32_t index)
 {
-	return *(void**) ((uint8_t *)vector->list + (vector->item_size * index));
+	return *(void**) ((uint8_t *)vector->list + ((size_t)vector->item_size * index));
 }
 
 /**
@@ -135,7 +135,7 @@ as_vector_increase_capacity(as_vector* vector);
 static inline void
 as_vector_set(as_vector* vector, uint32_t index, void* value)
 {
-	memcpy((uint8_t *)vector->list + (index * vector->item_size), value, vector->item_size);
+	memcpy((uint8_t *)vector->list + ((size_t)index * vector->item_size), value, vector->item_size);
 }
 
 /**
@@ -147,7 +147,7 @@ as_vector_append(as_vector* vector, void* value)
 	if (vector->size >= vector->capacity) {
 		as_vector_increase_capacity(vector);
 	}
-	memcpy((uint8_t *)vector->list + (vector->size * vector->item_size), value, vector->item_size);
+	memcpy((uint8_t *)vector->list + ((size_t)vector->size * vector->item_size), value, vector->item_size);
 	vector->size++;
 }
 
@@ -173,7 +173,7 @@ as_vector_reserve(as_vector* vector)
 	if (vector->size >= vector->capacity) {
 		as_vector_increase_capacity(vector);
 	}
-	void* item = (uint8_t *)vector->list + (vector->size * vector->item_size);
+	void* item = (uint8_t *)vector->list + ((size_t)vector->size * vector->item_size);
 	memset(item, 0, vector->item_size);
 	vector->size++;
 	return item;
diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 0cfe2a2..7bfd680 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -23,7 +23,7 @@
 void
 as_vector_init(as_vector* vector, uint32_t item_size, uint32_t capacity)
 {
-	vector->list = cf_malloc(capacity * item_size);
+	vector->list = cf_malloc((size_t)capacity * item_size);
 	vector->capacity = capacity;
 	vector->item_size = item_size;
 	vector->size = 0;
@@ -56,12 +56,12 @@ as_vector_increase_capacity(as_vector* vector)
 {
 	if (vector->flags & FLAGS_HEAP) {
 		vector->capacity *= 2;
-		vector->list = cf_realloc(vector->list, vector->capacity * vector->item_size);
+		vector->list = cf_realloc(vector->list, (size_t)vector->capacity * vector->item_size);
 	}
 	else {
 		uint32_t capacity = vector->capacity * 2;
-		void* tmp = cf_malloc(capacity * vector->item_size);
-		memcpy(tmp, vector->list, vector->capacity * vector->item_size);
+		void* tmp = cf_malloc((size_t)capacity * vector->item_size);
+		memcpy(tmp, vector->list, (size_t)vector->capacity * vector->item_size);
 		vector->list = tmp;
 		vector->capacity = capacity;
 		vector->flags |= FLAGS_HEAP;
@@ -85,7 +85,7 @@ as_vector_append_unique(as_vector* vector, void* value)
 void*
 as_vector_to_array(as_vector* vector, uint32_t* size)
 {
-	size_t len = vector->size * vector->item_size;
+	size_t len = (size_t)vector->size * vector->item_size;
 	void* array = cf_malloc(len);
 	memcpy(array, vector->list, len);
 	*size = vector->size;
@@ -99,9 +99,9 @@ as_vector_remove(as_vector* vector, uint32_t index)
 		return false;
 	}
 
-	memmove((uint8_t*)vector->list + (index * vector->item_size),
-		    (uint8_t*)vector->list + ((index + 1) * vector->item_size),
-		    (vector->size - index - 1) * vector->item_size);
+	memmove((uint8_t*)vector->list + ((size_t)index * vector->item_size),
+		    (uint8_t*)vector->list + ((size_t)(index + 1) * vector->item_size),
+		    (size_t)(vector->size - index - 1) * vector->item_size);
 
 	vector->size--;
 	return true;
-- 
2.43.0


From 2253a689c549d1eb4b5374f79db2c3ce368fbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:03 +0000
Subject: [PATCH 57/61] fix: refuse counted blocks whose size would wrap around

cf_rc_alloc added the size of its counter to the requested size without
looking for overflow.  A request close to SIZE_MAX was met with a tiny
block, and storing the counter overran it.  Such a request now fails.
---
 src/main/citrusleaf/cf_alloc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 49ac3c8..0ee4691 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -22,6 +22,7 @@
 
 #include <citrusleaf/alloc.h>
 #include <aerospike/as_atomic.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -94,6 +95,10 @@ cf_rc_reserve(void* addr)
 void*
 cf_rc_alloc(size_t sz)
 {
+	if (sz > SIZE_MAX - sizeof(cf_rc_hdr)) {
+		return NULL;
+	}
+
 	cf_rc_hdr* head = malloc(sizeof(cf_rc_hdr) + sz);
 
 	if (! head) {
-- 
2.43.0


From 0e52df9304689049e37372ae86ded49644cb4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:58 +0000
Subject: [PATCH 58/61] fix: render lists and maps of any text length

The text of a list or map was measured and placed with 32-bit numbers, so
an element with a text past 4 GiB was cut or written out of bounds.
Sizes are now size_t.  When memory runs out, rendering returns NULL instead
of writing through a null pointer.
---
 src/main/aerospike/as_list.c | 33 +++++++++++++++++++++++------
 src/main/aerospike/as_map.c  | 41 ++++++++++++++++++++++++++++--------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/main/aerospike/as_list.c b/src/main/aerospike/as_list.c
index 31779d5..45f7104 100644
--- a/src/main/aerospike/as_list.c
+++ b/src/main/aerospike/as_list.c
@@ -76,9 +76,9 @@ uint32_t as_list_val_hashcode(const as_val * v)
 
 typedef struct as_list_val_tostring_data_s {
 	char *		buf;
-	uint32_t	blk;
-	uint32_t	cap;
-	uint32_t	pos;
+	size_t		blk;
+	size_t		cap;
+	size_t		pos;
 	bool		sep;
 } as_list_val_tostring_data;
 
@@ -94,11 +94,22 @@ static bool as_list_val_tostring_foreach(as_val * val, void * udata)
 		str = (char *)NULL_STR;
 	}
 
-	uint32_t len = (uint32_t)strlen(str);
+	size_t len = strlen(str);
 
 	if ( data->pos + len + 2 >= data->cap ) {
-		uint32_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		size_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+
+		if ( !buf ) {
+			cf_free(data->buf);
+			data->buf = NULL;
+
+			if ( str != NULL_STR ) {
+				cf_free(str);
+			}
+			return false;
+		}
+		data->buf = buf;
 		data->cap += adj;
 	}
 
@@ -130,16 +141,24 @@ char * as_list_val_tostring(const as_val * v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if ( !data.buf ) return NULL;
 
 	strcpy(data.buf, "[");
 	data.pos += 1;
 
 	if ( v ) {
 		as_list_foreach((as_list *) v, as_list_val_tostring_foreach, &data);
+		if ( !data.buf ) return NULL;
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+		data.buf = buf;
 		data.cap += 2;
 	}
 
diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index 8cf747a..06aff7c 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -62,9 +62,9 @@ uint32_t as_map_val_hashcode(const as_val* v) {
 
 typedef struct as_map_val_tostring_data_s {
 	char *		buf;
-	uint32_t	blk;
-	uint32_t	cap;
-	uint32_t	pos;
+	size_t		blk;
+	size_t		cap;
+	size_t		pos;
 	bool		sep;
 } as_map_val_tostring_data;
 
@@ -78,19 +78,34 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 	if (!keystr) {
 		keystr = (char *)NULL_STR;
 	}
-	int keylen = (int)strlen(keystr);
+	size_t keylen = strlen(keystr);
 
 	char * valstr = as_val_tostring(val);
 	if (!valstr) {
 		valstr = (char *)NULL_STR;
 	}
-	int vallen = (int)strlen(valstr);
+	size_t vallen = strlen(valstr);
 
-	uint32_t entlen = keylen + 2 + vallen + 2;
+	size_t entlen = keylen + 2 + vallen + 2;
 
 	if ( data->pos + entlen >= data->cap ) {
-		uint32_t adj = entlen > data->blk ? entlen : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		size_t adj = entlen > data->blk ? entlen : data->blk;
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+
+		if (!buf) {
+			cf_free(data->buf);
+			data->buf = NULL;
+
+			if (keystr != NULL_STR) {
+				cf_free(keystr);
+			}
+
+			if (valstr != NULL_STR) {
+				cf_free(valstr);
+			}
+			return false;
+		}
+		data->buf = buf;
 		memset(data->buf + data->cap, 0, sizeof(char) * adj);
 		data->cap += adj;
 	}
@@ -134,16 +149,24 @@ char * as_map_val_tostring(const as_val* v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if ( !data.buf ) return NULL;
 
 	strcpy(data.buf, "{");
 	data.pos += 1;
 	
 	if ( v ) {
 		as_map_foreach((as_map*) v, as_map_val_tostring_foreach, &data);
+		if ( !data.buf ) return NULL;
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+		data.buf = buf;
 		data.cap += 2;
 	}
 
-- 
2.43.0


From 923b726a72c79aa75a131c7993d90ae566b01022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:03 +0000
Subject: [PATCH 59/61] fix: render scalars and pairs safely when memory runs
 out

Rendering an integer or double wrote through a null pointer, and rendering
a pair leaked the texts of its halves.
---
 src/main/aerospike/as_double.c  | 1 +
 src/main/aerospike/as_integer.c | 1 +
 src/main/aerospike/as_pair.c    | 7 ++++++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_double.c b/src/main/aerospike/as_double.c
index 0eb51e2..e2bec92 100644
--- a/src/main/aerospike/as_double.c
+++ b/src/main/aerospike/as_double.c
@@ -80,6 +80,7 @@ as_double_val_tostring(const as_val * val)
 {
 	as_double* value_ptr = (as_double*)val;
 	char* str = (char*)cf_malloc(sizeof(char) * 64);
+	if (!str) return str;
 	sprintf(str, "%.16g", value_ptr->value);
 	return str;
 }
diff --git a/src/main/aerospike/as_integer.c b/src/main/aerospike/as_integer.c
index 2384453..f4da430 100644
--- a/src/main/aerospike/as_integer.c
+++ b/src/main/aerospike/as_integer.c
@@ -65,6 +65,7 @@ char * as_integer_val_tostring(const as_val * v)
 {
 	as_integer * i = (as_integer *) v;
 	char * str = (char *) cf_malloc(sizeof(char) * 32);
+	if (!str) return str;
 	memset(str, 0, 32);
 	sprintf(str, "%" PRId64, i->value);
 	return str;
diff --git a/src/main/aerospike/as_pair.c b/src/main/aerospike/as_pair.c
index 6b0ef4f..c75f460 100644
--- a/src/main/aerospike/as_pair.c
+++ b/src/main/aerospike/as_pair.c
@@ -76,7 +76,12 @@ char *as_pair_val_tostring(const as_val * v)
 	
 	size_t l = al + bl + 5;
 	char * str = (char *) cf_malloc(sizeof(char) * l);
-	if (!str) return str;
+
+	if (!str) {
+		if ( a != NULL_STR ) cf_free(a);
+		if ( b != NULL_STR ) cf_free(b);
+		return NULL;
+	}
 
 	strcpy(str, "(");
 	strcpy(str+1, a);
-- 
2.43.0


From 3e85efb557c27107db25e377035790fc744c6ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:08 +0000
Subject: [PATCH 60/61] fix: report a base name that cannot be allocated

as_basename() copied into a null pointer when there was no memory for the
name of a path with trailing separators.  It now returns NULL and leaves an
empty string.
---
 src/main/aerospike/as_string.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index ad9b666..15e5734 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -140,6 +140,11 @@ const char* as_basename(as_string * filename, const char* path)
 
 		size_t len = (end - p) + 1;
 		char* str = cf_malloc(len + 1);
+
+		if (! str) {
+			as_string_cons(filename, false, NULL, 0, false);
+			return NULL;
+		}
 		memcpy(str, p, len);
 		*(str + len) = 0;
 		as_string_cons(filename, false, str, len, true);
-- 
2.43.0


From a688cad10646a2adbeb4d546ef848b9606519957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:13 +0000
Subject: [PATCH 61/61] fix: fail thread pool creation when memory runs out

as_thread_pool_init() used its thread array and task queue without looking
whether they could be created.
---
 src/main/aerospike/as_thread_pool.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 9bb365e..9a59ad4 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -95,6 +95,18 @@ as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 	pool->fini_fn = NULL;
 	pool->thread_size = 0;
 
+	if (thread_size != 0 && (! pool->threads || ! pool->dispatch_queue)) {
+		// Leave a pool without threads, as below.
+		cf_free(pool->threads);
+
+		if (pool->dispatch_queue) {
+			cf_queue_destroy(pool->dispatch_queue);
+		}
+		pool->threads = NULL;
+		pool->dispatch_queue = NULL;
+		return -3;
+	}
+
 	// Start threads. Keep the started ones at the front of the array.
 	for (uint32_t i = 0; i < thread_size; i++) {
 		if (pthread_create(&pool->threads[pool->thread_size], NULL, as_thread_worker, pool) == 0) {
-- 
2.43.0

