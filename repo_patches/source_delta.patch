From 3b0538ecf037c72434c3f07978993cc7c25ef668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:35 +0000
Subject: [PATCH 01/64] fix: check the list size under the lock in cf_ll_delete

The size was read before the list lock was taken, racing with every other
list operation.
---
 src/main/citrusleaf/cf_ll.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/citrusleaf/cf_ll.c b/src/main/citrusleaf/cf_ll.c
index d328283..f9c9a35 100644
--- a/src/main/citrusleaf/cf_ll.c
+++ b/src/main/citrusleaf/cf_ll.c
@@ -166,13 +166,13 @@ void cf_ll_delete_lockfree(cf_ll *ll, cf_ll_element *e ) {
 }
 
 void cf_ll_delete(cf_ll *ll, cf_ll_element *e ) {
-	// extra check for fun
-	if (ll->sz == 0)	return;
-
 	LL_LOCK(ll);
 
-	cf_ll_delete_lockfree(ll, e);
-	
+	// extra check for fun
+	if (ll->sz != 0) {
+		cf_ll_delete_lockfree(ll, e);
+	}
+
 	LL_UNLOCK(ll);
 	
 }
-- 
2.43.0


From cdf035261cd61a978d294ef24e3a8102d058c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:35 +0000
Subject: [PATCH 02/64] fix: wait forever for every negative wait time in
 cf_queue pops

The documentation says any ms_wait < 0 waits forever, but only -1 did. Other
negative values waited on an uninitialised deadline.
---
 src/main/citrusleaf/cf_queue.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 99f9f07..27929b8 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -437,7 +437,7 @@ cf_queue_pop(cf_queue *q, void *buf, int ms_wait)
 		// others will find the queue empty and go back to waiting.
 
 		while (CF_Q_EMPTY(q)) {
-			if (CF_QUEUE_FOREVER == ms_wait) {
+			if (ms_wait < 0) {
 				pthread_cond_wait(&q->CV, &q->LOCK);
 			}
 			else if (CF_QUEUE_NOWAIT == ms_wait) {
@@ -570,7 +570,7 @@ cf_queue_reduce_pop(cf_queue *q, void *buf, int ms_wait, cf_queue_reduce_fn cb,
 		// others will find the queue empty and go back to waiting.
 
 		while (CF_Q_EMPTY(q)) {
-			if (CF_QUEUE_FOREVER == ms_wait) {
+			if (ms_wait < 0) {
 				pthread_cond_wait(&q->CV, &q->LOCK);
 			}
 			else if (CF_QUEUE_NOWAIT == ms_wait) {
-- 
2.43.0


From 811a7b789cb1a00af859bd22ac0bc7958e3d54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:40 +0000
Subject: [PATCH 03/64] fix: do not read past the end in as_unpack_boolean and
 as_unpack_nil

---
 src/main/aerospike/as_msgpack.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b4e6fbf..c412f63 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -844,6 +844,13 @@ as_pack_val(as_packer *pk, const as_val *val)
  * UNPACK FUNCTIONS
  ******************************************************************************/
 
+// Are there at least n bytes left to read?
+static inline bool
+unpack_has(const as_unpacker *pk, uint32_t n)
+{
+	return pk->offset <= pk->length && pk->length - pk->offset >= n;
+}
+
 static inline uint16_t
 extract_uint16(as_unpacker *pk)
 {
@@ -2015,6 +2022,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 int
 as_unpack_boolean(as_unpacker *pk, bool *value)
 {
+	if (! unpack_has(pk, 1)) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	if (type == 0xc3 || type == 0xc2) {
@@ -2028,6 +2039,10 @@ as_unpack_boolean(as_unpacker *pk, bool *value)
 int
 as_unpack_nil(as_unpacker *pk)
 {
+	if (! unpack_has(pk, 1)) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	return type == 0xc0 ? 0 : -1;
-- 
2.43.0


From 6429d66152c78c70c271b166436111e8ca716b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:40 +0000
Subject: [PATCH 04/64] fix: as_unpack_peek_type reads past the end of a
 truncated value

---
 src/main/aerospike/as_msgpack.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index c412f63..fd9767e 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1704,18 +1704,30 @@ as_unpack_peek_type(const as_unpacker *pk)
 
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
+		if (! unpack_has(pk, 3)) {
+			return AS_UNDEF;
+		}
+
 		uint8_t type1 = pk->buffer[pk->offset + 2];
 		return bytes_internal_type_to_as_val_t(type1);
 	}
 
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
+		if (! unpack_has(pk, 4)) {
+			return AS_UNDEF;
+		}
+
 		uint8_t type1 = pk->buffer[pk->offset + 3];
 		return bytes_internal_type_to_as_val_t(type1);
 	}
 
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
+		if (! unpack_has(pk, 6)) {
+			return AS_UNDEF;
+		}
+
 		uint8_t type1 = pk->buffer[pk->offset + 5];
 		return bytes_internal_type_to_as_val_t(type1);
 	}
@@ -1729,6 +1741,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_MAP;
 
 	case 0xd4: { // fixext1
+		if (! unpack_has(pk, 3)) {
+			return AS_UNDEF;
+		}
+
 		uint8_t ext_type = pk->buffer[pk->offset + 1];
 
 		if (ext_type == ASVAL_CMP_EXT_TYPE) {
@@ -1755,6 +1771,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_CMP_EXT;
 	default:
 		if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
+			if (! unpack_has(pk, 2)) {
+				return AS_UNDEF;
+			}
+
 			uint8_t type1 = pk->buffer[pk->offset + 1];
 			return bytes_internal_type_to_as_val_t(type1);
 		}
-- 
2.43.0


From e207a975cb6de350f429cb1d0e8fdbcd18429b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:40 +0000
Subject: [PATCH 05/64] fix: as_unpack_size reads past the end of a truncated
 header

---
 src/main/aerospike/as_msgpack.c | 41 +++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index fd9767e..076ecd9 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -851,6 +851,43 @@ unpack_has(const as_unpacker *pk, uint32_t n)
 	return pk->offset <= pk->length && pk->length - pk->offset >= n;
 }
 
+// Number of bytes after the type byte that hold a fixed size value or a length.
+static inline uint32_t
+unpack_header_size(uint8_t type)
+{
+	switch (type) {
+	case 0xcc:
+	case 0xd0:
+	case 0xc4:
+	case 0xd9:
+	case 0xc7:
+		return 1;
+	case 0xcd:
+	case 0xd1:
+	case 0xc5:
+	case 0xda:
+	case 0xc8:
+	case 0xdc:
+	case 0xde:
+		return 2;
+	case 0xca:
+	case 0xce:
+	case 0xd2:
+	case 0xc6:
+	case 0xdb:
+	case 0xc9:
+	case 0xdd:
+	case 0xdf:
+		return 4;
+	case 0xcb:
+	case 0xcf:
+	case 0xd3:
+		return 8;
+	default:
+		return 0;
+	}
+}
+
 static inline uint16_t
 extract_uint16(as_unpacker *pk)
 {
@@ -1887,6 +1924,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (! unpack_has(pk, unpack_header_size(type))) {
+		return -9;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 	case 0xc3: // boolean true
-- 
2.43.0


From 1254081092e0fd046f0e57e502baef23eab74dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:40 +0000
Subject: [PATCH 06/64] fix: reject ext sizes that wrap around in as_unpack_ext

---
 src/main/aerospike/as_msgpack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 076ecd9..c6766b4 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2336,7 +2336,7 @@ int
 as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 {
 	// Need at least 3 bytes.
-	if (pk->length - pk->offset < 3) {
+	if (! unpack_has(pk, 3)) {
 		return -1;
 	}
 
@@ -2366,7 +2366,7 @@ as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 		break;
 	case 0xc9: // ext 32
 		// Need at least 4 more bytes.
-		if (pk->length - pk->offset < 4) {
+		if (! unpack_has(pk, 4)) {
 			return -2;
 		}
 		ext->size = extract_uint32(pk);
@@ -2375,7 +2375,7 @@ as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 		return -3;
 	}
 
-	if (pk->length - pk->offset < 1 + ext->size) {
+	if (! unpack_has(pk, 1) || pk->length - pk->offset - 1 < ext->size) {
 		return -4;
 	}
 
-- 
2.43.0


From b59fbecf78c9d266b8d4737869bc486f0516a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:40 +0000
Subject: [PATCH 07/64] fix: reject string lengths that wrap around in
 as_unpack_str/bin

---
 src/main/aerospike/as_msgpack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index c6766b4..5d7cd6c 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2309,14 +2309,14 @@ unpack_str_bin(as_unpacker *pk, uint32_t *sz_r)
 		return NULL;
 	}
 
+	if (! unpack_has(pk, *sz_r)) {
+		return NULL;
+	}
+
 	const uint8_t *buf = &pk->buffer[pk->offset];
 
 	pk->offset += *sz_r;
 
-	if (pk->offset > pk->length) {
-		return NULL;
-	}
-
 	return buf;
 }
 
-- 
2.43.0


From 7ce9a28ad3783e2a6e695585ff2ce6ed445dcc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:40 +0000
Subject: [PATCH 08/64] fix: comparing a truncated blob reads past the end

---
 src/main/aerospike/as_msgpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 5d7cd6c..a854d04 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2542,7 +2542,7 @@ msgpack_get_blob_len(as_unpacker *pk)
 {
 	int64_t len = as_unpack_blob_size(pk);
 
-	if (len == 0) {
+	if (len <= 0 || ! unpack_has(pk, 1)) {
 		return -1;
 	}
 
-- 
2.43.0


From db17bd7b735693f17766e18fbe3a28937e834a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:40 +0000
Subject: [PATCH 09/64] fix: as_unpack_val reads past the end of truncated
 input

---
 src/main/aerospike/as_msgpack.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index a854d04..c755172 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -943,6 +943,10 @@ unpack_nil(as_val **v)
 static inline int
 unpack_ext(as_unpacker *pk, uint8_t type, as_val **v)
 {
+	if (! unpack_has(pk, 2)) {
+		return -2;
+	}
+
 	uint8_t ext_type = pk->buffer[pk->offset++];
 	uint8_t data = pk->buffer[pk->offset++];
 
@@ -986,6 +990,10 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	unsigned char type = 0;
 
+	if (! unpack_has(pk, size)) {
+		return -5;
+	}
+
 	if (size != 0) {
 		type = pk->buffer[pk->offset++];
 		size--;
@@ -1185,14 +1193,25 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 int
 as_unpack_val(as_unpacker *pk, as_val **val)
 {
+	if (! unpack_has(pk, 1)) {
+		return -1;
+	}
+
 	if (as_unpack_peek_is_ext(pk)) {
-		as_unpack_size(pk);
+		if (as_unpack_size(pk) < 0) {
+			return -3;
+		}
+
 		*val = NULL;
 		return 0;
 	}
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (! unpack_has(pk, unpack_header_size(type))) {
+		return -4;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 		return unpack_nil(val);
-- 
2.43.0


From 71275416c1c42a518cc61227f22fe7487c43b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:23 +0000
Subject: [PATCH 10/64] fix: reject as_bytes_copy ranges whose end wraps around

An index close to the 32-bit limit made index + size small again, so the
range check passed and memory far outside the buffer was read.
---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index fc814bc..5b9b972 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -153,7 +153,7 @@ as_bytes * as_bytes_new_wrap(uint8_t * value, uint32_t size, bool free)
  */
 uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value, uint32_t size)
 {
-	uint32_t sz = index + size > bytes->size ? 0 : size;
+	uint32_t sz = index > bytes->size || size > bytes->size - index ? 0 : size;
 	if ( sz == 0 ) return sz;
 	memcpy(value, &bytes->value[index], sz);
     return sz;
-- 
2.43.0


From 31d3af7dbd78f75052b77f3363ea137bd77ce3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:42 +0000
Subject: [PATCH 11/64] fix: reject as_bytes_set ranges whose end wraps around

An index or size close to the 32-bit limit made index + size small again, so
the capacity check passed and memory outside the buffer was overwritten.
as_bytes_append is affected in the same way.
---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 5b9b972..b94dd03 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -218,7 +218,7 @@ uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t *
  */
 bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint32_t size)
 {
-    if ( index + size > bytes->capacity ) return false;
+    if ( index > bytes->capacity || size > bytes->capacity - index ) return false;
     memcpy(&bytes->value[index], value, size);
     if ( index + size > bytes->size ) {
     	bytes->size = index + size;
-- 
2.43.0


From 1b7af2a8dcfca8fae64f0d6e6d210d456b97b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:42 +0000
Subject: [PATCH 12/64] fix: keep as_bytes_get_var_int inside the buffer

The loop followed continuation bits without looking at the size, so it read
past the end of the buffer when the last byte had its high bit set or the index
was out of range. It now returns zero, which is documented as the error value.
---
 src/main/aerospike/as_bytes.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index b94dd03..d3a96e6 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -177,15 +177,23 @@ uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value,
  */
 uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t * value)
 {
+	if (index >= bytes->size) {
+		return 0;
+	}
+
 	uint8_t* begin = bytes->value + index;
+	uint8_t* end = bytes->value + bytes->size;
 	uint8_t* p = begin;
 	uint32_t val = 0;
 	uint32_t shift = 0;
 	uint8_t b;
 	
 	do {
+		if (p == end || shift > 28) {
+			return 0;
+		}
 		b = *p++;
-		val |= (b & 0x7F) << shift;
+		val |= (uint32_t)(b & 0x7F) << shift;
 		shift += 7;
 	} while ((b & 0x80));
 	
-- 
2.43.0


From 69b616bcc75d58654355088d2ea43ecee32c761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:42 +0000
Subject: [PATCH 13/64] fix: compute the hex string length of
 as_bytes_to_string in 64 bits

For 2 GB of input or more the 32-bit product wrapped around, the check passed
and the output was written past the end of the string.
---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index d3a96e6..abe4864 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -444,7 +444,7 @@ bool
 as_bytes_to_string(const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size)
 {
 	// Ensure hex string has enough space including null terminator.
-	if ((bytes_size * 2 + 1) > str_size) {
+	if ((uint64_t)bytes_size * 2 + 1 > str_size) {
 		if (str_size > 0) {
 			*str = 0;
 		}
-- 
2.43.0


From 338cb09f9bf37e165d198d50673a541ea56940e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:42 +0000
Subject: [PATCH 14/64] fix: check for room before writing the hex prefix

as_bytes_to_string_with_prefix subtracted two from the string size without
looking at it. With room for zero or one character the size wrapped around and
the whole hex string was written past the end.
---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index abe4864..e67581c 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -466,7 +466,7 @@ as_bytes_to_string_with_prefix(
 	const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size
 	)
 {
-	if (as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
+	if (str_size >= 2 && as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
 		*str++ = '0';
 		*str = 'x';
 		return true;
-- 
2.43.0


From b4e02ecb632969901c3345a141f8235d744e42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:42 +0000
Subject: [PATCH 15/64] fix: append an empty byte array to a string builder as
 []

The opening bracket was overwritten because the separator to be removed does not
exist when there are no bytes, so the text became a lone closing bracket.
---
 src/main/aerospike/as_string_builder.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index d7a8b58..2dc6def 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -164,8 +164,8 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 	if (sb->resize) {
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
-		// - 1 extra separator + 1 null byte.
-		uint32_t min_capacity = sb->length + (size * 3) + 2;
+		// + 1 null byte.
+		uint32_t min_capacity = sb->length + (size * 3) + 3;
 
 		if (min_capacity > sb->capacity) {
 			if (! as_sb_increase_capacity(sb, min_capacity)) {
@@ -182,7 +182,9 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 			*trg++ = as_hex_chars[b & 0xf];
 			*trg++ = ' ';
 		}
-		trg--; // truncate last separator
+		if (size > 0) {
+			trg--; // truncate last separator
+		}
 		*trg++ = ']';
 		*trg = 0;
 		sb->length = (int)(trg - sb->data);
@@ -197,7 +199,9 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 				return false;
 			}
 		}
-		sb->length--; // truncate last separator
+		if (size > 0) {
+			sb->length--; // truncate last separator
+		}
 
 		if (! as_sb_append_char(sb, ']')) {
 			return false;
-- 
2.43.0


From f457d6f0351436632a7d99d8ee3b5d017cf6e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:35 +0000
Subject: [PATCH 16/64] fix: cf_queue_delete no longer skips elements of a
 wrapped queue

Deleting from the wrapped part of the queue moves the following elements
down by one. The loop then stepped over the element that had taken the
deleted one's place, so repeated matches were left in the queue.
---
 src/main/citrusleaf/cf_queue.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 27929b8..d8fc038 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -674,12 +674,20 @@ cf_queue_delete(cf_queue *q, const void *ptr, bool only_one)
 			}
 
 			if (rv == 0) {
+				uint32_t write_offset = q->write_offset;
+
 				cf_queue_delete_offset(q, i);
 				found = true;
 
 				if (only_one) {
 					break;
 				}
+
+				// If the elements after the deleted one moved down, the next
+				// element is now at this offset.
+				if (q->write_offset != write_offset) {
+					i--;
+				}
 			}
 		}
 	}
-- 
2.43.0


From b73b626928673829ac3fd50825479d47038b2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:35 +0000
Subject: [PATCH 17/64] fix: cf_queue keeps its elements when growing fails

A failed realloc leaves the old block in place. The queue dropped its only
pointer to that block, so the next pop read through NULL.
---
 src/main/citrusleaf/cf_queue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index d8fc038..844a8a5 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -129,12 +129,13 @@ cf_queue_resize(cf_queue *q, uint32_t new_sz)
 	// The rare case where the queue is not fragmented, and realloc makes sense
 	// and none of the offsets need to move.
 	if (0 == q->read_offset % q->alloc_sz) {
-		q->elements = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
+		uint8_t *newq = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
 
-		if (! q->elements) {
+		if (! newq) {
 			return CF_QUEUE_ERR;
 		}
 
+		q->elements = newq;
 		q->read_offset = 0;
 		q->write_offset = q->alloc_sz;
 	}
-- 
2.43.0


From 772f88b0298b916e248840ee6328280cef4c3827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:50 +0000
Subject: [PATCH 18/64] fix: as_queue keeps its items when growing fails

A failed realloc leaves the old block in place. The queue dropped its only
pointer to that block, so the next pop read through NULL.
---
 src/main/aerospike/as_queue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index ff47756..46f9f98 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -75,11 +75,12 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			queue->data = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* tmp = cf_realloc(queue->data, new_capacity * queue->item_size);
 			
-			if (! queue->data) {
+			if (! tmp) {
 				return false;
 			}
+			queue->data = tmp;
 			queue->head = 0;
 			queue->tail = queue->capacity;
 			queue->capacity = new_capacity;
-- 
2.43.0


From 1a6b50265b3ec955199b4315f1fb893c3bbe6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:41 +0000
Subject: [PATCH 19/64] fix: as_arraylist_tail returns the elements after the
 head

The loop copied from the new list to itself, reading one element past its
end, and the size of the new list stayed 0.
---
 src/main/aerospike/as_arraylist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 230bdfd..397bc82 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -434,10 +434,11 @@ as_arraylist_tail(const as_arraylist* list)
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
 
+	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
 		if (list->elements[i]) {
 			as_val_reserve(list->elements[i]);
-			list2->elements[j] = list2->elements[i];
+			list2->elements[j] = list->elements[i];
 		}
 		else {
 			list2->elements[j] = 0;
-- 
2.43.0


From 7d66e019fc42c3f1167fb361ce62f826fc1ec8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:41 +0000
Subject: [PATCH 20/64] fix: as_arraylist_head returns NULL for an empty list

A list created without capacity has no element storage, so asking it for its
head read through NULL.
---
 src/main/aerospike/as_arraylist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 397bc82..cb527ce 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -424,7 +424,7 @@ as_arraylist_trim(as_arraylist* list, uint32_t index)
 as_val*
 as_arraylist_head(const as_arraylist* list)
 {
-	return list->elements[0];
+	return as_arraylist_get(list, 0);
 }
 
 as_arraylist*
-- 
2.43.0


From 288255adc5d5b94b89bf7061768939df16b0c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:41 +0000
Subject: [PATCH 21/64] fix: as_arraylist_concat of a list with itself ends

The loop ran up to the size of the second list, which grows with every
element when both are the same list.
---
 src/main/aerospike/as_arraylist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index cb527ce..8639b11 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -385,13 +385,14 @@ as_arraylist_remove(as_arraylist* list, uint32_t index)
 int
 as_arraylist_concat(as_arraylist* list, const as_arraylist* list2)
 {
-	int rc = as_arraylist_ensure(list, list2->size);
+	uint32_t size2 = list2->size;
+	int rc = as_arraylist_ensure(list, size2);
 
 	if (rc != AS_ARRAYLIST_OK) {
 		return rc;
 	}
 
-	for (uint32_t i = 0; i < list2->size; i++) {
+	for (uint32_t i = 0; i < size2; i++) {
 		if (list2->elements[i]) {
 			as_val_reserve(list2->elements[i]);
 		}
-- 
2.43.0


From 80c3d9236d08c5013cbd8c37c1f5e43637109efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:41 +0000
Subject: [PATCH 22/64] fix: as_arraylist rejects indexes it cannot grow to

Setting or inserting at an index near 2^32 wrapped the computation of the
new capacity. The list did not grow and the value was written far outside
its storage.
---
 src/main/aerospike/as_arraylist.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 8639b11..c76584b 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -106,7 +106,7 @@ as_arraylist_destroy(as_arraylist* l)
  ******************************************************************************/
 
 static int
-as_arraylist_ensure(as_arraylist* list, uint32_t delta)
+as_arraylist_ensure(as_arraylist* list, uint64_t delta)
 {
 	// Check for capacity (in terms of elements, NOT size in bytes), and if we
 	// need to allocate more, do a realloc.
@@ -117,11 +117,14 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 			return AS_ARRAYLIST_ERR_MAX;
 		}
 		// Compute how much room we're missing for the new stuff
-		int new_room = (list->size + delta) - list->capacity;
+		uint64_t new_room = (list->size + delta) - list->capacity;
 		// Compute new capacity in terms of multiples of block_size
 		// This will get us (conservatively) at least one block
-		int new_blocks = (new_room + list->block_size) / list->block_size;
-		int new_capacity = list->capacity + (new_blocks * list->block_size);
+		uint64_t new_blocks = (new_room + list->block_size) / list->block_size;
+		uint64_t new_capacity = list->capacity + (new_blocks * list->block_size);
+		if (new_capacity > UINT32_MAX) {
+			return AS_ARRAYLIST_ERR_ALLOC;
+		}
 		size_t new_bytes = sizeof(as_val*) * new_capacity;
 		as_val** elements = (as_val**) cf_realloc(list->elements, new_bytes);
 		if (! elements) {
@@ -193,7 +196,7 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 	int rc = AS_ARRAYLIST_OK;
 
 	if (index >= list->capacity) {
-		rc = as_arraylist_ensure(list, (index + 1) - list->size);
+		rc = as_arraylist_ensure(list, ((uint64_t)index + 1) - list->size);
 
 		if (rc != AS_ARRAYLIST_OK) {
 			return rc;
@@ -247,10 +250,10 @@ as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 int
 as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 {
-	uint32_t delta = 1;
+	uint64_t delta = 1;
 
 	if (index > list->size) {
-		delta = index + 1 - list->size;
+		delta = (uint64_t)index + 1 - list->size;
 	}
 
 	int rc = as_arraylist_ensure(list, delta);
-- 
2.43.0


From df18e060869c238caa272da7901ca627aec21f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:14 +0000
Subject: [PATCH 23/64] fix: as_arraylist typed setters free the value a full
 list rejects

The int64, double and str variants create a value for the caller. When the
list could not take it, nobody owned that value any more.
---
 src/main/aerospike/as_arraylist.c | 46 +++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index c76584b..f54e63c 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -142,6 +142,16 @@ as_arraylist_ensure(as_arraylist* list, uint64_t delta)
 	return AS_ARRAYLIST_OK;
 }
 
+// Values created here still belong to us when the list did not take them.
+static int
+as_arraylist_taken(int rc, as_val* value)
+{
+	if (rc != AS_ARRAYLIST_OK) {
+		as_val_destroy(value);
+	}
+	return rc;
+}
+
 /*******************************************************************************
  * INFO FUNCTIONS
  ******************************************************************************/
@@ -228,19 +238,22 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 int
 as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_integer_new(value));
+	as_val* v = (as_val*) as_integer_new(value);
+	return as_arraylist_taken(as_arraylist_set(list, index, v), v);
 }
 
 int
 as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_double_new(value));
+	as_val* v = (as_val*) as_double_new(value);
+	return as_arraylist_taken(as_arraylist_set(list, index, v), v);
 }
 
 int
 as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_string_new_strdup(value));
+	as_val* v = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_taken(as_arraylist_set(list, index, v), v);
 }
 
 /*******************************************************************************
@@ -285,19 +298,22 @@ as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 int
 as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_integer_new(value));
+	as_val* v = (as_val*) as_integer_new(value);
+	return as_arraylist_taken(as_arraylist_insert(list, index, v), v);
 }
 
 int
 as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_double_new(value));
+	as_val* v = (as_val*) as_double_new(value);
+	return as_arraylist_taken(as_arraylist_insert(list, index, v), v);
 }
 
 int
 as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_string_new_strdup(value));
+	as_val* v = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_taken(as_arraylist_insert(list, index, v), v);
 }
 
 /*******************************************************************************
@@ -313,19 +329,22 @@ as_arraylist_append(as_arraylist* list, as_val* value)
 int
 as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_append(list, (as_val*) as_integer_new(value));
+	as_val* v = (as_val*) as_integer_new(value);
+	return as_arraylist_taken(as_arraylist_append(list, v), v);
 }
 
 int
 as_arraylist_append_double(as_arraylist* list, double value)
 {
-	return as_arraylist_append(list, (as_val*) as_double_new(value));
+	as_val* v = (as_val*) as_double_new(value);
+	return as_arraylist_taken(as_arraylist_append(list, v), v);
 }
 
 int
 as_arraylist_append_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_append(list, (as_val*) as_string_new_strdup(value));
+	as_val* v = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_taken(as_arraylist_append(list, v), v);
 }
 
 /*******************************************************************************
@@ -341,19 +360,22 @@ as_arraylist_prepend(as_arraylist* list, as_val* value)
 int
 as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_integer_new(value));
+	as_val* v = (as_val*) as_integer_new(value);
+	return as_arraylist_taken(as_arraylist_prepend(list, v), v);
 }
 
 int
 as_arraylist_prepend_double(as_arraylist* list, double value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_double_new(value));
+	as_val* v = (as_val*) as_double_new(value);
+	return as_arraylist_taken(as_arraylist_prepend(list, v), v);
 }
 
 int
 as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_string_new_strdup(value));
+	as_val* v = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_taken(as_arraylist_prepend(list, v), v);
 }
 
 /*******************************************************************************
-- 
2.43.0


From 1b0f83271b829927e804f53e9688c58d0a33f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:52 +0000
Subject: [PATCH 24/64] fix: as_vector with no initial capacity can grow

Doubling a capacity of 0 left the vector without storage, so the next append
wrote past the end of its block.
---
 src/main/aerospike/as_vector.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 0cfe2a2..213b3a5 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -54,12 +54,13 @@ as_vector_destroy(as_vector* vector)
 void
 as_vector_increase_capacity(as_vector* vector)
 {
+	uint32_t capacity = vector->capacity > 0 ? vector->capacity * 2 : 1;
+
 	if (vector->flags & FLAGS_HEAP) {
-		vector->capacity *= 2;
-		vector->list = cf_realloc(vector->list, vector->capacity * vector->item_size);
+		vector->list = cf_realloc(vector->list, capacity * vector->item_size);
+		vector->capacity = capacity;
 	}
 	else {
-		uint32_t capacity = vector->capacity * 2;
 		void* tmp = cf_malloc(capacity * vector->item_size);
 		memcpy(tmp, vector->list, vector->capacity * vector->item_size);
 		vector->list = tmp;
-- 
2.43.0


From 0afbe6a39f58139036250c540061b99b6ba7a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:40 +0000
Subject: [PATCH 25/64] fix: as_orderedmap_set keeps its capacity when growing
 fails

---
 src/main/aerospike/as_orderedmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 01217a0..293fe4c 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -296,15 +296,16 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 		// Near end of main table - insert directly.
 
 		if (map->count == map->capacity) {
-			map->capacity *= 2;
+			uint32_t capacity = map->capacity * 2;
 
 			map_entry* table = (map_entry*)cf_realloc(map->table,
-					map->capacity * sizeof(map_entry));
+					capacity * sizeof(map_entry));
 
 			if (table == NULL) {
 				return -1;
 			}
 
+			map->capacity = capacity;
 			map->table = table;
 		}
 
-- 
2.43.0


From 76b17757c765d345cf968eb38526aaf8f1fae3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:40 +0000
Subject: [PATCH 26/64] fix: as_orderedmap_new frees the map when its table
 cannot be allocated

---
 src/main/aerospike/as_orderedmap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 293fe4c..85944b5 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -214,7 +214,12 @@ as_orderedmap_new(uint32_t capacity)
 
 	as_map_cons((as_map*)map, true, 1, &as_orderedmap_map_hooks);
 
-	return as_orderedmap_cons(map, capacity);
+	if (as_orderedmap_cons(map, capacity) == NULL) {
+		cf_free(map);
+		return NULL;
+	}
+
+	return map;
 }
 
 bool
-- 
2.43.0


From a85b0bb90849ef3e3f05740c739525c83a90e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:40 +0000
Subject: [PATCH 27/64] fix: as_orderedmap_set reports a failed allocation of
 the hold table

---
 src/main/aerospike/as_orderedmap.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 85944b5..74ff172 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -328,6 +328,14 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	if (map->hold_table == NULL) {
 		map->hold_table = cf_malloc(HOLD_TABLE_CAP * sizeof(map_entry));
 		map->hold_locations = cf_malloc(HOLD_TABLE_CAP * sizeof(uint32_t));
+
+		if (map->hold_table == NULL || map->hold_locations == NULL) {
+			cf_free(map->hold_table);
+			cf_free(map->hold_locations);
+			map->hold_table = NULL;
+			map->hold_locations = NULL;
+			return -1;
+		}
 	}
 
 	uint32_t hold_ix;
-- 
2.43.0


From 10504a546cf9a799fbe2a6499abfbea97caa42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:00 +0000
Subject: [PATCH 28/64] fix: as_val_reserve counts references to a boolean

Booleans are created with one reference, which as_val_destroy gives up.
as_val_reserve did not count further references, so the first holder to
destroy the boolean freed it for all others.
The constants as_true and as_false stay uncounted.
---
 src/main/aerospike/as_val.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_val.c b/src/main/aerospike/as_val.c
index 87a91ef..8a9c1f6 100644
--- a/src/main/aerospike/as_val.c
+++ b/src/main/aerospike/as_val.c
@@ -48,6 +48,7 @@ static uint32_t as_val_hashcode_noop(const as_val *);
 static char *   as_val_tostring_noop(const as_val *);
 static as_val * as_val_reserve_noop(as_val * v);
 static as_val * as_val_reserve_count(as_val * v);
+static as_val * as_val_reserve_boolean(as_val * v);
 
 /******************************************************************************
  *	VARIABLES
@@ -107,7 +108,7 @@ static const as_val_hashcode_callback as_val_hashcode_callbacks[] = {
 static const as_val_reserve_callback as_val_reserve_callbacks[] = {
 	[AS_UNKNOWN]	= as_val_reserve_noop,
 	[AS_NIL]		= as_val_reserve_noop,
-	[AS_BOOLEAN]	= as_val_reserve_noop,
+	[AS_BOOLEAN]	= as_val_reserve_boolean,
 	[AS_INTEGER]	= as_val_reserve_count,
 	[AS_STRING]		= as_val_reserve_count,
 	[AS_BYTES]		= as_val_reserve_count,
@@ -142,6 +143,12 @@ static as_val * as_val_reserve_count(as_val * v)
 	return v;
 }
 
+static as_val * as_val_reserve_boolean(as_val * v)
+{
+	// The constants as_true and as_false are not ref-counted.
+	return v->count ? as_val_reserve_count(v) : v;
+}
+
 static uint32_t as_val_hashcode_noop(const as_val * v)
 { 
 	return 0;
-- 
2.43.0


From 7d2693858b14bf4242dd0c08625aeb3b4483f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:00 +0000
Subject: [PATCH 29/64] fix: cf_rc_releaseandfree orders earlier accesses
 before the free

The thread that drops the last reference must see the accesses other
threads made before they dropped theirs. cf_rc_release already has the
acquire barrier for this.
---
 src/main/citrusleaf/cf_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 745c8e1..c6e485a 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -130,6 +130,8 @@ cf_rc_releaseandfree(void* addr)
 	uint32_t rc = as_aaf_uint32_rls(&head->count, -1);
 
 	if (rc == 0) {
+		// Order the accesses of other holders before the free.
+		as_fence_acq();
 		free(head);
 	}
 
-- 
2.43.0


From 41f4d7ce87b08e3ba7ff92fd307a74d6ca65cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:00 +0000
Subject: [PATCH 30/64] fix: cf_rc_alloc returns NULL when memory runs out

The header was written through the NULL pointer.
---
 src/main/citrusleaf/cf_alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index c6e485a..db531cc 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -96,6 +96,10 @@ cf_rc_alloc(size_t sz)
 {
 	cf_rc_hdr* head = malloc(sizeof(cf_rc_hdr) + sz);
 
+	if (head == NULL) {
+		return NULL;
+	}
+
 	head->count = 1;
 	head->sz = (uint32_t)sz;
 
-- 
2.43.0


From b9ca3bd2e7482f5e60ec901331fea114b1c5deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:38 +0000
Subject: [PATCH 31/64] fix: as_swlock_read_lock acquires with the step that
 takes the lock

A writer can lock and unlock between the reader's check of the writer bit
and the step that counts the reader in. That step was relaxed, so the
reader did not necessarily see what the writer wrote.
---
 src/include/aerospike/as_atomic_gcc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aerospike/as_atomic_gcc.h b/src/include/aerospike/as_atomic_gcc.h
index 67e5b49..e318eec 100644
--- a/src/include/aerospike/as_atomic_gcc.h
+++ b/src/include/aerospike/as_atomic_gcc.h
@@ -832,7 +832,7 @@ as_swlock_read_lock(as_swlock* rw)
 			as_arch_pause();
 		}
 
-		uint32_t l = as_faa_uint32(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
+		uint32_t l = as_faa_acq(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
 
 		if (l == 0) {
 			break;
-- 
2.43.0


From 55925602427ca041bc1871438b9ebe0900aa2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:48 +0000
Subject: [PATCH 32/64] fix: as_string_new_strdup handles failed allocations

A failed copy of the text gave a value without text. A failed allocation
of the value lost the copy.
---
 src/main/aerospike/as_string.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index a37c542..d0b4945 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -57,7 +57,12 @@ as_string * as_string_new_wlen(char * value, size_t len, bool free)
 
 as_string *as_string_new_strdup(const char * s)
 {
-	return as_string_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if ( !value ) return NULL;
+
+	as_string * string = as_string_new(value, true);
+	if ( !string ) cf_free(value);
+	return string;
 }
 
 /******************************************************************************
-- 
2.43.0


From ca627920561c57d7eeda0451c20d2b5829a16ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:48 +0000
Subject: [PATCH 33/64] fix: as_geojson_new_strdup handles failed allocations

A failed copy of the text gave a value without text. A failed allocation
of the value lost the copy.
---
 src/main/aerospike/as_geojson.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_geojson.c b/src/main/aerospike/as_geojson.c
index 3212643..f210115 100644
--- a/src/main/aerospike/as_geojson.c
+++ b/src/main/aerospike/as_geojson.c
@@ -69,7 +69,12 @@ as_geojson * as_geojson_new_wlen(char * value, size_t len, bool free)
 
 as_geojson *as_geojson_new_strdup(const char * s)
 {
-	return as_geojson_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if ( !value ) return NULL;
+
+	as_geojson * string = as_geojson_new(value, true);
+	if ( !string ) cf_free(value);
+	return string;
 }
 
 /******************************************************************************
-- 
2.43.0


From 26d2fdb4ad2846b53f796611f0df066bdd612818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:48 +0000
Subject: [PATCH 34/64] fix: as_bytes_new and as_bytes_init fail when there is
 no memory

The bytes were returned with a capacity but no storage, and the first
write went through NULL.
---
 src/main/aerospike/as_bytes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index e67581c..7d7c1cc 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -44,6 +44,11 @@ static inline as_bytes * as_bytes_cons(
 
     if ( value == NULL && size == 0 && capacity > 0 ) {
 	    bytes->value = cf_calloc(capacity, sizeof(uint8_t));
+
+	    if ( bytes->value == NULL ) {
+	    	if ( free ) cf_free(bytes);
+	    	return NULL;
+	    }
     }
     
 	return bytes;
-- 
2.43.0


From cf92fda3c789b42925b2d27abccd4abc54a38415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:52 +0000
Subject: [PATCH 35/64] fix: as_timer_init and as_timer_new record whether the
 timer is on the heap

The mark was never set. as_timer_destroy could free a timer on the stack
or leak a timer on the heap.
---
 src/main/aerospike/as_timer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_timer.c b/src/main/aerospike/as_timer.c
index 6a56fbc..6abdacd 100644
--- a/src/main/aerospike/as_timer.c
+++ b/src/main/aerospike/as_timer.c
@@ -27,6 +27,7 @@
  */
 as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks * hooks) {
     if ( timer == NULL ) return timer;
+    timer->is_malloc = false;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
@@ -38,6 +39,7 @@ as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks *
 as_timer * as_timer_new(void * source, const as_timer_hooks * hooks) {
     as_timer * timer = (as_timer *) cf_malloc(sizeof(as_timer));
     if (!timer) return timer;
+    timer->is_malloc = true;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
-- 
2.43.0


From 0388e07b7f55e08f035eb9152066d0bc510f6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:52 +0000
Subject: [PATCH 36/64] fix: as_success_new and as_failure_new return NULL
 without memory

They wrote through the NULL pointer instead.
---
 src/main/aerospike/as_result.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 5139105..5bc2e45 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -63,6 +63,7 @@ void as_result_destroy(as_result *r) {
 
 as_result * as_success_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = true;
     r->value = v;
     return(r);
@@ -70,6 +71,7 @@ as_result * as_success_new(as_val * v) {
 
 as_result * as_failure_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = false;
     r->value = v;
     return(r);
-- 
2.43.0


From 4d6129c57cda0fbc21e7f11e5f44fee0a1ae9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:52 +0000
Subject: [PATCH 37/64] fix: as_aerospike_new returns NULL without memory

It wrote through the NULL pointer instead.
---
 src/main/aerospike/as_aerospike.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aerospike/as_aerospike.c b/src/main/aerospike/as_aerospike.c
index f954f4b..db29f4b 100644
--- a/src/main/aerospike/as_aerospike.c
+++ b/src/main/aerospike/as_aerospike.c
@@ -33,6 +33,7 @@ as_aerospike * as_aerospike_init(as_aerospike * a, void * s, const as_aerospike_
 as_aerospike * as_aerospike_new(void * s, const as_aerospike_hooks * h)
 {
 	as_aerospike * a = (as_aerospike *) cf_rc_alloc(sizeof(as_aerospike));
+	if (!a) return a;
 	a->is_rcalloc = true;
 	a->source = s;
 	a->hooks = h;
-- 
2.43.0


From 1fdf2fc8f99f78e519899de9dc7175c7cc4b069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:52 +0000
Subject: [PATCH 38/64] fix: as_result_destroy orders the clean-up after other
 holders' accesses

The count was dropped without any ordering, so the last holder could read
and free a result that another thread was still writing.
---
 src/main/aerospike/as_result.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 5bc2e45..0b33c90 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -48,7 +48,10 @@ as_result * as_result_reserve(as_result * r) {
 
 void as_result_destroy(as_result *r) {
     // if we reach the last reference, call the destructor, and free
-	if (as_aaf_uint32(&r->count, -1) == 0) {
+	if (as_aaf_uint32_rls(&r->count, -1) == 0) {
+        // subsequent destructor may require an 'acquire' barrier.
+        as_fence_acq();
+
         if (r->value) {
             as_val_destroy(r->value); 
             r->value = NULL;
-- 
2.43.0


From af699c1aab3a65658b659ba39dada7fa2a364915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:17 +0000
Subject: [PATCH 39/64] fix: packing no longer overruns the buffer when the end
 position wraps

The room left was checked with a 32 bit sum of position and size, which
wraps for sizes close to 4 GB and let the copy run past the buffer.
---
 src/main/aerospike/as_msgpack.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index c755172..386fec8 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -298,11 +298,18 @@ pack_resize(as_packer *pk, uint32_t sz)
 	return 0;
 }
 
+// Is there no room for n more bytes?
+static inline bool
+pack_is_full(const as_packer *pk, uint32_t n)
+{
+	return (uint64_t)pk->offset + n > pk->capacity;
+}
+
 static inline int
 pack_append(as_packer *pk, const unsigned char *src, uint32_t sz, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + sz > pk->capacity) {
+		if (pack_is_full(pk, sz)) {
 			if (! resize || pack_resize(pk, sz) != 0) {
 				return -1;
 			}
@@ -317,7 +324,7 @@ static inline int
 pack_byte(as_packer *pk, uint8_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 1 > pk->capacity) {
+		if (pack_is_full(pk, 1)) {
 			if (! resize || pack_resize(pk, 1) != 0) {
 				return -1;
 			}
@@ -332,7 +339,7 @@ static inline int
 pack_type_uint8(as_packer *pk, unsigned char type, uint8_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 2 > pk->capacity) {
+		if (pack_is_full(pk, 2)) {
 			if (! resize || pack_resize(pk, 2) != 0) {
 				return -1;
 			}
@@ -349,7 +356,7 @@ static inline int
 pack_type_uint16(as_packer *pk, unsigned char type, uint16_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 3 > pk->capacity) {
+		if (pack_is_full(pk, 3)) {
 			if (! resize || pack_resize(pk, 3) != 0) {
 				return -1;
 			}
@@ -369,7 +376,7 @@ static inline int
 pack_type_uint32(as_packer *pk, unsigned char type, uint32_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 5 > pk->capacity) {
+		if (pack_is_full(pk, 5)) {
 			if (! resize || pack_resize(pk, 5) != 0) {
 				return -1;
 			}
@@ -387,7 +394,7 @@ static inline int
 pack_type_uint64(as_packer *pk, unsigned char type, uint64_t val, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + 9 > pk->capacity) {
+		if (pack_is_full(pk, 9)) {
 			if (! resize || pack_resize(pk, 9) != 0) {
 				return -1;
 			}
-- 
2.43.0


From 7520f137dbf6e20e722a6186af7a79a8926122dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:17 +0000
Subject: [PATCH 40/64] fix: keep the packer's buffer when there is no memory
 for another one

The buffer pointer was overwritten with NULL before the failure was
noticed, so the buffer leaked and later calls only counted bytes.
---
 src/main/aerospike/as_msgpack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 386fec8..07e739a 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -277,12 +277,14 @@ pack_resize(as_packer *pk, uint32_t sz)
 	entry->next = 0;
 
 	size_t newcap = (size_t)((sz > (uint32_t)pk->capacity) ? sz : pk->capacity);
+	unsigned char *newbuf = (unsigned char *)cf_malloc(newcap);
 
-	if (! (pk->buffer = (unsigned char *)cf_malloc(newcap))) {
+	if (! newbuf) {
 		cf_free(entry);
 		return -1;
 	}
 
+	pk->buffer = newbuf;
 	pk->capacity = (int)newcap;
 	pk->offset = 0;
 
-- 
2.43.0


From 7a8158af7a82e5bb3c0225e27c7b59f50d453e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:17 +0000
Subject: [PATCH 41/64] fix: as_pack_str and as_pack_bytes stay inside the
 caller's buffer

Like the other direct packers they are given a fixed buffer, but a header
that did not fit was written to a new heap buffer and reported as success.
---
 src/main/aerospike/as_msgpack.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 07e739a..d1702cd 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -485,35 +485,35 @@ pack_as_double(as_packer *pk, const as_double *d)
 }
 
 static int
-pack_string_header(as_packer *pk, uint32_t size)
+pack_string_header(as_packer *pk, uint32_t size, bool resize)
 {
 	if (size < 32) {
-		return pack_byte(pk, (uint8_t)(0xa0 | size), true);
+		return pack_byte(pk, (uint8_t)(0xa0 | size), resize);
 	}
 
 	if (size < 256) {
-		return pack_type_uint8(pk, 0xd9, (uint8_t)size, true);
+		return pack_type_uint8(pk, 0xd9, (uint8_t)size, resize);
 	}
 
 	if (size < 65536) {
-		return pack_type_uint16(pk, 0xda, (uint16_t)size, true);
+		return pack_type_uint16(pk, 0xda, (uint16_t)size, resize);
 	}
 
-	return pack_type_uint32(pk, 0xdb, size, true);
+	return pack_type_uint32(pk, 0xdb, size, resize);
 }
 
 static inline int
-pack_byte_array_header(as_packer *pk, uint32_t size)
+pack_byte_array_header(as_packer *pk, uint32_t size, bool resize)
 {
 	// Use string header codes for byte arrays.
-	return pack_string_header(pk, size);
+	return pack_string_header(pk, size, resize);
 }
 
 static int
 pack_string(as_packer *pk, as_string *s)
 {
 	uint32_t length = (uint32_t)as_string_len(s);
-	int rc = pack_string_header(pk, length + 1);
+	int rc = pack_string_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_STRING, true);
@@ -530,7 +530,7 @@ static int
 pack_geojson(as_packer *pk, as_geojson *s)
 {
 	uint32_t length = (uint32_t)as_geojson_len(s);
-	int rc = pack_byte_array_header(pk, length + 1);
+	int rc = pack_byte_array_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_GEOJSON, true);
@@ -546,7 +546,7 @@ pack_geojson(as_packer *pk, as_geojson *s)
 static int
 pack_bytes(as_packer *pk, const as_bytes *b)
 {
-	int rc = pack_byte_array_header(pk, b->size + 1);
+	int rc = pack_byte_array_header(pk, b->size + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, b->type, true);
@@ -1426,10 +1426,10 @@ as_pack_double(as_packer *pk, double val)
 int
 as_pack_bytes(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_byte_array_header(pk, sz + 1);
+	int rc = pack_byte_array_header(pk, sz + 1, false);
 
 	if (rc == 0) {
-		rc = pack_byte(pk, AS_BYTES_BLOB, true);
+		rc = pack_byte(pk, AS_BYTES_BLOB, false);
 	}
 
 	if (rc == 0) {
@@ -1465,7 +1465,7 @@ as_pack_bin_size(uint32_t buf_sz)
 int
 as_pack_str(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_string_header(pk, sz);
+	int rc = pack_string_header(pk, sz, false);
 
 	if (rc == 0 && buf) {
 		return pack_append(pk, buf, sz, false);
-- 
2.43.0


From 7bea2ac786fc0ccb5c826022c1d18c0891f9b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:02 +0000
Subject: [PATCH 42/64] fix: as_unpack_size fails when the input ends inside
 the value

The body of text and extensions was skipped without looking at the input
length.  The position moved past the end, and with lengths near 4 GB it
wrapped to the start and a size of zero was returned as success.
---
 src/main/aerospike/as_msgpack.c | 49 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index d1702cd..55ff5f4 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1943,6 +1943,18 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 	return -6;
 }
 
+// Skip the n bytes that follow a header, if they are all there.
+static inline int64_t
+unpack_skip(as_unpacker *pk, uint32_t header, uint64_t n)
+{
+	if (pk->offset > pk->length || pk->length - pk->offset < n) {
+		return -10;
+	}
+
+	pk->offset += (uint32_t)n;
+	return (int64_t)(header + n);
+}
+
 static inline int64_t
 unpack_size_internal(as_unpacker *pk, uint32_t depth)
 {
@@ -1987,22 +1999,19 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += length;
-		return 1 + 1 + length;
+		return unpack_skip(pk, 1 + 1, length);
 	}
 
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
 		uint16_t length = extract_uint16(pk);
-		pk->offset += length;
-		return 1 + 2 + length;
+		return unpack_skip(pk, 1 + 2, length);
 	}
 
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
 		uint32_t length = extract_uint32(pk);
-		pk->offset += length;
-		return 1 + 4 + length;
+		return unpack_skip(pk, 1 + 4, length);
 	}
 
 	case 0xdc: { // list with 16 bit header
@@ -2042,43 +2051,33 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	}
 
 	case 0xd4: // fixext 1
-		pk->offset += 1 + 1;
-		return 1 + 1 + 1;
+		return unpack_skip(pk, 1, 1 + 1);
 	case 0xd5: // fixext 2
-		pk->offset += 1 + 2;
-		return 1 + 1 + 2;
+		return unpack_skip(pk, 1, 1 + 2);
 	case 0xd6: // fixext 4
-		pk->offset += 1 + 4;
-		return 1 + 1 + 4;
+		return unpack_skip(pk, 1, 1 + 4);
 	case 0xd7: // fixext 8
-		pk->offset += 1 + 8;
-		return 1 + 1 + 8;
+		return unpack_skip(pk, 1, 1 + 8);
 	case 0xd8: // fixext 16
-		pk->offset += 1 + 16;
-		return 1 + 1 + 16;
+		return unpack_skip(pk, 1, 1 + 16);
 	case 0xc7: { // ext 8
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += 1 + length;
-		return 1 + 1 + 1 + length;
+		return unpack_skip(pk, 1 + 1, 1 + (uint64_t)length);
 	}
 	case 0xc8: { // ext 16
 		uint16_t length = extract_uint16(pk);
-		pk->offset += 1 + length;
-		return 1 + 2 + 1 + length;
+		return unpack_skip(pk, 1 + 2, 1 + (uint64_t)length);
 	}
 	case 0xc9: { // ext 32
 		uint32_t length = extract_uint32(pk);
-		pk->offset += 1 + length;
-		return 1 + 4 + 1 + length;
+		return unpack_skip(pk, 1 + 4, 1 + (uint64_t)length);
 	}
 	default:
 		break;
 	}
 
 	if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-		int length = type & 0x1f;
-		pk->offset += length;
-		return 1 + length;
+		return unpack_skip(pk, 1, type & 0x1f);
 	}
 
 	if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
-- 
2.43.0


From 34e945801769a2183f43371bd80bc134d67383cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:02 +0000
Subject: [PATCH 43/64] fix: as_unpack_peek_type does not look past an empty
 value

The type of text without content was taken from the byte after it, which
belongs to the next value or lies behind the end of the input.  It is now
the type that as_unpack_val gives it.
---
 src/main/aerospike/as_msgpack.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 55ff5f4..0e46a62 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1769,6 +1769,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
+		if (unpack_has(pk, 2) && pk->buffer[pk->offset + 1] == 0) {
+			return AS_BYTES;
+		}
+
 		if (! unpack_has(pk, 3)) {
 			return AS_UNDEF;
 		}
@@ -1779,6 +1783,11 @@ as_unpack_peek_type(const as_unpacker *pk)
 
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
+		if (unpack_has(pk, 3) && pk->buffer[pk->offset + 1] == 0 &&
+				pk->buffer[pk->offset + 2] == 0) {
+			return AS_BYTES;
+		}
+
 		if (! unpack_has(pk, 4)) {
 			return AS_UNDEF;
 		}
@@ -1789,6 +1798,13 @@ as_unpack_peek_type(const as_unpacker *pk)
 
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
+		if (unpack_has(pk, 5) && pk->buffer[pk->offset + 1] == 0 &&
+				pk->buffer[pk->offset + 2] == 0 &&
+				pk->buffer[pk->offset + 3] == 0 &&
+				pk->buffer[pk->offset + 4] == 0) {
+			return AS_BYTES;
+		}
+
 		if (! unpack_has(pk, 6)) {
 			return AS_UNDEF;
 		}
@@ -1836,6 +1852,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_CMP_EXT;
 	default:
 		if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
+			if (type == 0xa0) {
+				return AS_BYTES;
+			}
+
 			if (! unpack_has(pk, 2)) {
 				return AS_UNDEF;
 			}
-- 
2.43.0


From aed8b157641af65d276cd7067a07708a3a3f8c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:18 +0000
Subject: [PATCH 44/64] fix: free all parse blocks when sizing deeply nested
 input fails

The size query appended blocks to a list it held by value, so after an
error the caller freed only the first of them.
---
 src/main/aerospike/as_msgpack.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 0e46a62..449cd9e 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -107,7 +107,7 @@ static inline int pack_ext_header_internal(as_packer *pk, uint32_t content_size,
 static int64_t unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static int64_t unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static inline as_val_t bytes_internal_type_to_as_val_t(uint8_t type);
-static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block, msgpack_parse_state *state);
+static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block, msgpack_parse_state *state);
 static inline int64_t unpack_size_internal(as_unpacker *pk, uint32_t depth);
 static inline const uint8_t *unpack_str_bin(as_unpacker *pk, uint32_t *sz_r);
 
@@ -1655,7 +1655,7 @@ unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		state->len = ele_count;
 		state->type = AS_LIST;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 
 		msgpack_parse_memblock_destroy(block);
 
@@ -1694,7 +1694,7 @@ unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		state->len = ele_count;
 		state->type = AS_MAP;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 		msgpack_parse_memblock_destroy(block);
 
 		return ret;
@@ -1899,18 +1899,18 @@ as_unpack_buf_peek_type(const uint8_t *buf, uint32_t size)
 }
 
 static int64_t
-unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
+unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		msgpack_parse_state *state)
 {
 	int start = pk->offset;
 
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_parse_memblock_has_prev(block)) {
+			if (! msgpack_parse_memblock_has_prev(*block)) {
 				return (int64_t)(pk->offset - start);
 			}
 
-			state = msgpack_parse_memblock_prev(&block);
+			state = msgpack_parse_memblock_prev(block);
 		}
 
 		if (state->type == AS_LIST) {
@@ -1936,7 +1936,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_LIST ) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
 			if (! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
@@ -1946,7 +1946,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_MAP) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
 			if (! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
-- 
2.43.0


From 632d4147bbf5d0360a3c015456dc1d2171d65588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:23 +0000
Subject: [PATCH 45/64] fix: check the combined buffer when serializing large
 values

The result of the allocation was used unchecked, and the sum of the
buffer lengths wrapped for values larger than the size field can hold,
so the copy ran past the block. Both now free everything and fail.
---
 src/main/aerospike/as_msgpack_serializer.c | 51 ++++++++++++++--------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/main/aerospike/as_msgpack_serializer.c b/src/main/aerospike/as_msgpack_serializer.c
index 4371f85..584deee 100644
--- a/src/main/aerospike/as_msgpack_serializer.c
+++ b/src/main/aerospike/as_msgpack_serializer.c
@@ -104,6 +104,24 @@ static int32_t as_msgpack_serializer_serialize_presized(as_serializer *s, const
 	return packer.offset;
 }
 
+static void as_msgpack_serializer_free_buffers(as_packer *packer)
+{
+	as_packer_buffer *p = packer->head;
+	as_packer_buffer *tmp;
+
+	while (p) {
+		tmp = p;
+		p = p->next;
+
+		// Free buffer entry.
+		cf_free(tmp->buffer);
+		cf_free(tmp);
+	}
+
+	// Free main buffer.
+	cf_free(packer->buffer);
+}
+
 static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as_buffer *buff)
 {
 	as_packer packer = {
@@ -122,36 +140,31 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 	
 	if (rc != 0) {
 		// Cleanup buffers on error.
-		as_packer_buffer *p = packer.head;
-		as_packer_buffer *tmp;
-
-		while (p) {
-			tmp = p;
-			p = p->next;
-			
-			// Free buffer entry.
-			cf_free(tmp->buffer);
-			cf_free(tmp);
-		}
-
-		// Free main buffer.
-		cf_free(packer.buffer);
+		as_msgpack_serializer_free_buffers(&packer);
 		return rc;
 	}
 
 	if (packer.head) {
 		// Combine buffers into a single contiguous buffer.
 		as_packer_buffer *p = packer.head;
-		int size = packer.offset;
+		uint64_t size = packer.offset;
 
 		while (p) {
 			size += p->length;
 			p = p->next;
 		}
 
-		unsigned char *target = (unsigned char *)cf_malloc(size);
+		// The total must fit in the buffer's size.
+		unsigned char *target = size <= UINT32_MAX ?
+				(unsigned char *)cf_malloc((size_t)size) : NULL;
+
+		if (! target) {
+			as_msgpack_serializer_free_buffers(&packer);
+			return 1;
+		}
+
 		p = packer.head;
-		int offset = 0;
+		size_t offset = 0;
 
 		while (p) {
 			memcpy(target + offset, p->buffer, p->length);
@@ -172,8 +185,8 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 
 		// Transfer new buffer.
 		buff->data = target;
-		buff->size = size;
-		buff->capacity = size;
+		buff->size = (uint32_t)size;
+		buff->capacity = (uint32_t)size;
 	}
 	else {
 		// Use existing buffer directly.
-- 
2.43.0


From 62c49c50d7d36a8fd82a5f390ecb70fafe73ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:02:17 +0000
Subject: [PATCH 46/64] fix: carry a full second out of the nanoseconds of a
 deadline

A sum of exactly one second stayed in tv_nsec, which is not a valid
time, so the timed wait it was made for failed at once.
---
 src/include/citrusleaf/cf_clock.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/citrusleaf/cf_clock.h b/src/include/citrusleaf/cf_clock.h
index f8a14af..9dd26d8 100644
--- a/src/include/citrusleaf/cf_clock.h
+++ b/src/include/citrusleaf/cf_clock.h
@@ -91,7 +91,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec += ms_wait / 1000;
 	out->tv_nsec += (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -104,7 +104,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec += delta->tv_sec;
 	out->tv_nsec += delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -167,7 +167,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec = now.tv_sec + (ms_wait / 1000);
 	out->tv_nsec = now.tv_usec * 1000 + (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -182,7 +182,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = now.tv_sec + delta->tv_sec;
 	out->tv_nsec = now.tv_usec * 1000 + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -275,7 +275,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = nanos / (1000 * 1000 * 1000) + delta->tv_sec;
 	out->tv_nsec = (nanos % (1000 * 1000 * 1000)) + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
-- 
2.43.0


From 4bf67629463698420798918bad506e5612bf51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:56 +0000
Subject: [PATCH 47/64] fix: give the decoded size of long base-64 text without
 overflow

The product wrapped around for text longer than 1.4 GB and the buffer size
returned was far too small for what the decoder then writes.
---
 src/include/citrusleaf/cf_b64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/citrusleaf/cf_b64.h b/src/include/citrusleaf/cf_b64.h
index fd7039b..a5c29e5 100644
--- a/src/include/citrusleaf/cf_b64.h
+++ b/src/include/citrusleaf/cf_b64.h
@@ -42,7 +42,7 @@ void cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out);
 static inline uint32_t
 cf_b64_decoded_buf_size(uint32_t in_len)
 {
-	return (in_len * 3) >> 2;
+	return (in_len >> 2) * 3;
 }
 
 void cf_b64_decode(const char* in, uint32_t in_len, uint8_t* out, uint32_t* out_size);
-- 
2.43.0


From 3b8efd0dde49cb55abe1cd8b84ea1ec8b6db52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:56 +0000
Subject: [PATCH 48/64] fix: use unsigned indexes in the base-64 encoder

The signed index of the text overflowed for input longer than 1.6 GB, and
the encoder then wrote in front of the buffer.
---
 src/main/citrusleaf/cf_b64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_b64.c b/src/main/citrusleaf/cf_b64.c
index 4178786..67f7008 100644
--- a/src/main/citrusleaf/cf_b64.c
+++ b/src/main/citrusleaf/cf_b64.c
@@ -82,8 +82,8 @@ static const uint8_t base64_decode_a[] = {
 void
 cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out)
 {
-	int i = 0;
-	int j = 0;
+	uint32_t i = 0;
+	uint32_t j = 0;
 
 	while (in_size >= 3) {
 		uint8_t i0 = in[i];
-- 
2.43.0


From b439099d3dca092276be67e043108762412f473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:15 +0000
Subject: [PATCH 49/64] fix: skip keys and values when packed maps are decided
 early

Maps of different size or with different order flags are decided before their
entries are compared. Only half of the remaining keys and values were skipped,
so the unpackers were left inside the maps.
---
 src/main/aerospike/as_msgpack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 449cd9e..8ec491d 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2819,11 +2819,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 	}
 
 	if (len1 != len2) {
-		if (! msgpack_skip(pk1, len1)) {
+		if (! msgpack_skip(pk1, 2 * len1)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
-		if (! msgpack_skip(pk2, len2)) {
+		if (! msgpack_skip(pk2, 2 * len2)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
@@ -2846,11 +2846,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		}
 
 		if (ret != MSGPACK_COMPARE_EQUAL) {
-			if (! msgpack_skip(pk1, len1 - 1)) {
+			if (! msgpack_skip(pk1, 2 * (len1 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_skip(pk2, len2 - 1)) {
+			if (! msgpack_skip(pk2, 2 * (len2 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-- 
2.43.0


From 1c8e8569dc28f904ed6869c33398124e2c29f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:15 +0000
Subject: [PATCH 50/64] fix: do not skip beyond the end when ordered packed
 maps differ

An ordered map starts with an entry that holds its flags. That entry was not
taken off the number of entries left, so two more values than there are were
skipped after a difference and the comparison ended with an error.
---
 src/main/aerospike/as_msgpack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 8ec491d..86f8fbd 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2857,6 +2857,8 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 			return ret;
 		}
 
+		len1--;
+		len2--;
 		minlen--;
 	}
 
-- 
2.43.0


From 03e781e8c97d38d988316057621f99fdaeb6d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:15 +0000
Subject: [PATCH 51/64] fix: skip the rest of deep packed lists only once

When the comparison of lists nested more than 256 levels deep ended at the
outermost of the deep levels, the rest of the longer list was skipped twice.
The comparison then ended with an error or behind the value.
---
 src/main/aerospike/as_msgpack.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 86f8fbd..72a6215 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2938,14 +2938,15 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 {
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_compare_unwind(pk1, pk2, state)) {
-				return MSGPACK_COMPARE_ERROR;
-			}
-
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				// Caller unwinds.
 				return state->default_compare_type;
 			}
 
+			if (! msgpack_compare_unwind(pk1, pk2, state)) {
+				return MSGPACK_COMPARE_ERROR;
+			}
+
 			uint32_t len1 = state->len1;
 			uint32_t len2 = state->len2;
 
@@ -3013,14 +3014,15 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_compare_unwind(pk1, pk2, state)) {
-				return MSGPACK_COMPARE_ERROR;
-			}
-
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				// Caller unwinds.
 				return MSGPACK_COMPARE_EQUAL;
 			}
 
+			if (! msgpack_compare_unwind(pk1, pk2, state)) {
+				return MSGPACK_COMPARE_ERROR;
+			}
+
 			state = msgpack_parse_memblock_prev(block);
 			continue;
 		}
-- 
2.43.0


From 41c3f540b69090ed0000765e9c6efe6e29640964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:15 +0000
Subject: [PATCH 52/64] fix: limit the recursion when deep packed maps are
 compared

The nesting depth was counted for lists only. Maps nested some ten thousand
levels deep, which take few bytes, overflowed the stack. They are now compared
like deep lists, without recursion.
---
 src/main/aerospike/as_msgpack.c | 57 +++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 72a6215..48bb183 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2718,29 +2718,41 @@ msgpack_compare_unwind_all(as_unpacker *pk1, as_unpacker *pk2,
 }
 
 static msgpack_compare_t
-msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
+msgpack_compare_deep(as_unpacker *pk1, as_unpacker *pk2, as_val_t type)
 {
-	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
-		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
-		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
+	msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+	msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
+	bool ok = type == AS_LIST ?
+			msgpack_parse_state_list_cmp_init(state, pk1, pk2) :
+			msgpack_parse_state_map_cmp_init(state, pk1, pk2);
 
-		if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
-			msgpack_parse_memblock_destroy(block);
-			return MSGPACK_COMPARE_ERROR;
-		}
+	if (! ok) {
+		msgpack_parse_memblock_destroy(block);
+		return MSGPACK_COMPARE_ERROR;
+	}
 
-		msgpack_compare_t ret = msgpack_compare_non_recursive(pk1, pk2, &block,
-				state);
+	msgpack_compare_t ret = state->default_compare_type;
 
-		if (ret == MSGPACK_COMPARE_ERROR ||
-				! msgpack_compare_unwind_all(pk1, pk2, &block)) {
-			msgpack_parse_memblock_destroy(block);
-			return MSGPACK_COMPARE_ERROR;
-		}
+	if (type == AS_LIST || ret == MSGPACK_COMPARE_EQUAL) {
+		ret = msgpack_compare_non_recursive(pk1, pk2, &block, state);
+	}
 
+	if (ret == MSGPACK_COMPARE_ERROR ||
+			! msgpack_compare_unwind_all(pk1, pk2, &block)) {
 		msgpack_parse_memblock_destroy(block);
+		return MSGPACK_COMPARE_ERROR;
+	}
 
-		return ret;
+	msgpack_parse_memblock_destroy(block);
+
+	return ret;
+}
+
+static msgpack_compare_t
+msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
+{
+	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
+		return msgpack_compare_deep(pk1, pk2, AS_LIST);
 	}
 
 	int64_t len1 = as_unpack_list_header_element_count(pk1);
@@ -2810,6 +2822,10 @@ compare_ext(as_unpacker *pk1, as_unpacker *pk2)
 static msgpack_compare_t
 msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 {
+	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
+		return msgpack_compare_deep(pk1, pk2, AS_MAP);
+	}
+
 	int64_t len1 = as_unpack_map_header_element_count(pk1);
 	int64_t len2 = as_unpack_map_header_element_count(pk2);
 	int64_t minlen = (len1 < len2) ? len1 : len2;
@@ -3027,7 +3043,14 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 			continue;
 		}
 
-		ret = msgpack_compare_type(pk1, pk2, type, 0);
+		if (type == AS_CMP_EXT && state->type == AS_MAP &&
+				state->index == 0 && state->map_pair == 1) {
+			// Map flags.
+			ret = compare_ext(pk1, pk2);
+		}
+		else {
+			ret = msgpack_compare_type(pk1, pk2, type, 0);
+		}
 
 		if (ret != MSGPACK_COMPARE_EQUAL) {
 			return ret;
-- 
2.43.0


From 99d5799f601e31cfca0c2accc1d448b88ec917a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:49 +0000
Subject: [PATCH 53/64] fix: copy only the recorded length in
 as_string_val_tostring

A string initialised with a length shorter than its text overran the
buffer, which is sized by that length.
---
 src/main/aerospike/as_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index d0b4945..6a598bc 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -188,7 +188,7 @@ char * as_string_val_tostring(const as_val * v)
 	char * str = (char *) cf_malloc(sizeof(char) * st);
 	if (!str) return str;
 	*(str + 0) = '\"';
-	strcpy(str + 1, s->value);
+	memcpy(str + 1, s->value, sl);
 	*(str + 1 + sl) = '\"';
 	*(str + 1 + sl + 1) = '\0';
 	return str;
-- 
2.43.0


From 82efca94edcd8d7c997d3ff0cad91b402606ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:49 +0000
Subject: [PATCH 54/64] fix: copy only the recorded length in
 as_geojson_val_tostring

A value initialised with a length shorter than its text overran the
buffer, which is sized by that length.
---
 src/main/aerospike/as_geojson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_geojson.c b/src/main/aerospike/as_geojson.c
index f210115..651a387 100644
--- a/src/main/aerospike/as_geojson.c
+++ b/src/main/aerospike/as_geojson.c
@@ -131,7 +131,7 @@ char * as_geojson_val_tostring(const as_val * v)
 	char * str = (char *) cf_malloc(sizeof(char) * st);
 	if (!str) return str;
 	*(str + 0) = '\"';
-	strcpy(str + 1, s->value);
+	memcpy(str + 1, s->value, sl);
 	*(str + 1 + sl) = '\"';
 	*(str + 1 + sl + 1) = '\0';
 	return str;
-- 
2.43.0


From 828105c08fd215e18f9b47cba8b07c32e9842151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:49 +0000
Subject: [PATCH 55/64] fix: give no text for an integer when there is no
 memory

---
 src/main/aerospike/as_integer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aerospike/as_integer.c b/src/main/aerospike/as_integer.c
index 2384453..f4da430 100644
--- a/src/main/aerospike/as_integer.c
+++ b/src/main/aerospike/as_integer.c
@@ -65,6 +65,7 @@ char * as_integer_val_tostring(const as_val * v)
 {
 	as_integer * i = (as_integer *) v;
 	char * str = (char *) cf_malloc(sizeof(char) * 32);
+	if (!str) return str;
 	memset(str, 0, 32);
 	sprintf(str, "%" PRId64, i->value);
 	return str;
-- 
2.43.0


From 69fff9067a0172d9d488d343f758a9c6d9791b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:49 +0000
Subject: [PATCH 56/64] fix: give no text for a double when there is no memory

---
 src/main/aerospike/as_double.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aerospike/as_double.c b/src/main/aerospike/as_double.c
index 0eb51e2..e2bec92 100644
--- a/src/main/aerospike/as_double.c
+++ b/src/main/aerospike/as_double.c
@@ -80,6 +80,7 @@ as_double_val_tostring(const as_val * val)
 {
 	as_double* value_ptr = (as_double*)val;
 	char* str = (char*)cf_malloc(sizeof(char) * 64);
+	if (!str) return str;
 	sprintf(str, "%.16g", value_ptr->value);
 	return str;
 }
-- 
2.43.0


From 056f616c032ab3e0a354598386c6967f4825cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:49 +0000
Subject: [PATCH 57/64] fix: give no text for a pair when one of its values has
 none

The text of a missing or empty value is NULL, and its length was taken
anyway.  The texts of both values are now also freed when there is no
memory for the text of the pair.
---
 src/main/aerospike/as_pair.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_pair.c b/src/main/aerospike/as_pair.c
index 0e8c017..67bfcfc 100644
--- a/src/main/aerospike/as_pair.c
+++ b/src/main/aerospike/as_pair.c
@@ -66,13 +66,22 @@ char *as_pair_val_tostring(const as_val * v)
 	if ( p == NULL ) return NULL;
 
 	char * a = as_val_tostring(p->_1);
+	if (!a) return NULL;
 	size_t al = strlen(a);
 	char * b = as_val_tostring(p->_2);
+	if (!b) {
+		cf_free(a);
+		return NULL;
+	}
 	size_t bl = strlen(b);
 	
 	size_t l = al + bl + 5;
 	char * str = (char *) cf_malloc(sizeof(char) * l);
-	if (!str) return str;
+	if (!str) {
+		cf_free(a);
+		cf_free(b);
+		return str;
+	}
 
 	strcpy(str, "(");
 	strcpy(str+1, a);
-- 
2.43.0


From 207892f3d3258be6bfd0638ecc0eb96c302a90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:49 +0000
Subject: [PATCH 58/64] fix: size the text of large byte buffers in 64 bits

The 32-bit product wrapped from 2^30 bytes on, and the text was written
far beyond its buffer.
---
 src/main/aerospike/as_bytes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 7d7c1cc..4e5760f 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -420,14 +420,14 @@ char * as_bytes_val_tostring(const as_val * v)
 
     uint8_t * 	s = bytes->value;
     uint32_t 	sl = bytes->size;
-    size_t		st = (4 * sl) + 3;
+    size_t		st = (4 * (size_t)sl) + 3;
     char * 		str = (char *) cf_malloc(st);
 
     if ( !str ) {
     	return NULL;
     }
     
-    int j=0;
+    size_t j=0;
     for ( uint32_t i=0; i < sl; i++ ) {
         str[j] = as_hex_chars[(s[i] >> 4) & 0xf];
         str[j+1] = as_hex_chars[s[i] & 0xf];
-- 
2.43.0


From 2feaf143b8caea63b473261968e83eeddfd311ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:24:25 +0000
Subject: [PATCH 59/64] fix: give no text for a list when there is no memory

The results of allocations were used unchecked.
---
 src/main/aerospike/as_list.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_list.c b/src/main/aerospike/as_list.c
index 31779d5..3989557 100644
--- a/src/main/aerospike/as_list.c
+++ b/src/main/aerospike/as_list.c
@@ -98,7 +98,16 @@ static bool as_list_val_tostring_foreach(as_val * val, void * udata)
 
 	if ( data->pos + len + 2 >= data->cap ) {
 		uint32_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		if ( !buf ) {
+			cf_free(data->buf);
+			data->buf = NULL;
+			if ( str != NULL_STR ) {
+				cf_free(str);
+			}
+			return false;
+		}
+		data->buf = buf;
 		data->cap += adj;
 	}
 
@@ -130,6 +139,9 @@ char * as_list_val_tostring(const as_val * v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if ( !data.buf ) {
+		return NULL;
+	}
 
 	strcpy(data.buf, "[");
 	data.pos += 1;
@@ -138,8 +150,17 @@ char * as_list_val_tostring(const as_val * v)
 		as_list_foreach((as_list *) v, as_list_val_tostring_foreach, &data);
 	}
 
+	if ( !data.buf ) {
+		return NULL;
+	}
+
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+		data.buf = buf;
 		data.cap += 2;
 	}
 
-- 
2.43.0


From 7ce0d22a01c289e1ce6bc67e649943858057aeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:24:25 +0000
Subject: [PATCH 60/64] fix: give no text for a map when there is no memory

The results of allocations were used unchecked.
---
 src/main/aerospike/as_map.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index a436ff2..cfd25c6 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -89,7 +89,15 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	if ( data->pos + entlen >= data->cap ) {
 		uint32_t adj = entlen > data->blk ? entlen : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		if ( !buf ) {
+			cf_free(data->buf);
+			data->buf = NULL;
+			cf_free(keystr);
+			cf_free(valstr);
+			return false;
+		}
+		data->buf = buf;
 		memset(data->buf + data->cap, 0, sizeof(char) * adj);
 		data->cap += adj;
 	}
@@ -131,6 +139,9 @@ char * as_map_val_tostring(const as_val* v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if ( !data.buf ) {
+		return NULL;
+	}
 
 	strcpy(data.buf, "{");
 	data.pos += 1;
@@ -139,8 +150,17 @@ char * as_map_val_tostring(const as_val* v)
 		as_map_foreach((as_map*) v, as_map_val_tostring_foreach, &data);
 	}
 
+	if ( !data.buf ) {
+		return NULL;
+	}
+
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+		data.buf = buf;
 		data.cap += 2;
 	}
 
-- 
2.43.0


From 2705a4ccd8d25b658025a8fe6bff536adf7317aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:37:13 +0000
Subject: [PATCH 61/64] fix: compare the values of maps, not only their keys

as_val_cmp() gave "equal" for maps with the same keys and different
values.  The comparison of packed maps already includes the values.
---
 src/main/aerospike/as_msgpack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 48bb183..3b2eed2 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -679,6 +679,12 @@ as_map_cmp(const as_map* map1, const as_map* map2)
 		if (cmp != MSGPACK_COMPARE_EQUAL) {
 			return cmp;
 		}
+
+		cmp = as_val_cmp(as_pair_2(p1), as_pair_2(p2));
+
+		if (cmp != MSGPACK_COMPARE_EQUAL) {
+			return cmp;
+		}
 	}
 
 	return MSGPACK_COMPARE_EQUAL;
-- 
2.43.0


From e37ad2d46a9326e1ebe3379fe4c7a71402b36ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:37:13 +0000
Subject: [PATCH 62/64] fix: two infinities are equal in as_val_cmp

The comparison of packed values already says so; as_val_cmp() gave an
error.
---
 src/main/aerospike/as_msgpack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 3b2eed2..35974a7 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -704,6 +704,7 @@ as_val_cmp(const as_val* v1, const as_val* v2)
 
 	switch (t1) {
 	case AS_NIL:
+	case AS_CMP_INF:
 		break;
 	case AS_BOOLEAN:
 		MSGPACK_COMPARE_RET_LESS_OR_GREATER(
-- 
2.43.0


From ad888bcd665cd1750866c24f23cd32c0ae0290b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:51:08 +0000
Subject: [PATCH 63/64] fix: large requests to a buffer pool get a large enough
 buffer

The requested size plus the header size was computed in 32 bits.  A
request near 4 GB wrapped around and got a buffer of the pool, which
is smaller than requested.
---
 src/main/aerospike/as_buffer_pool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_buffer_pool.c b/src/main/aerospike/as_buffer_pool.c
index 08691ef..e06b0dd 100644
--- a/src/main/aerospike/as_buffer_pool.c
+++ b/src/main/aerospike/as_buffer_pool.c
@@ -35,18 +35,18 @@ as_buffer_pool_init(as_buffer_pool* pool, uint32_t header_size, uint32_t buffer_
 int
 as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer)
 {
-	size += pool->header_size;
+	uint64_t total = (uint64_t)size + pool->header_size;
 	
-	if (size > pool->buffer_size) {
+	if (total > pool->buffer_size) {
 		// Requested size is greater than fixed buffer size.
 		// Allocate new buffer, but don't put back into pool.
-		buffer->data = cf_malloc(size);
+		buffer->data = cf_malloc(total);
 		
 		if (! buffer->data) {
 			return -1;
 		}
 		
-		buffer->capacity = size - pool->header_size;
+		buffer->capacity = size;
 		return 2;
 	}
 	
-- 
2.43.0


From 9820f0f243c6f6b2869a8730f420575838400d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:51:08 +0000
Subject: [PATCH 64/64] fix: free very large buffers instead of keeping them in
 the pool

The capacity plus the header size was computed in 32 bits.  A buffer
near 4 GB wrapped around and was put into the pool, where it stayed
allocated.
---
 src/main/aerospike/as_buffer_pool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_buffer_pool.c b/src/main/aerospike/as_buffer_pool.c
index e06b0dd..9d19289 100644
--- a/src/main/aerospike/as_buffer_pool.c
+++ b/src/main/aerospike/as_buffer_pool.c
@@ -76,7 +76,7 @@ as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer
 int
 as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool.
 		if (cf_queue_push(pool->queue, &buffer) == CF_QUEUE_OK) {
 			return 0;
@@ -96,7 +96,7 @@ as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 int
 as_buffer_pool_push_limit(as_buffer_pool* pool, void* buffer, uint32_t capacity, uint32_t max_buffers)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool up to a limit.
 		if (cf_queue_push_limit(pool->queue, &buffer, max_buffers)) {
 			// Success.
-- 
2.43.0

