From 17375d58936091cda0e5c40d47caaf20a865ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 01/47] libmy/varint: attachment point for a loop contract
 (DNSTABLE_CONTRACTS)

---
 libmy/varint.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/varint.c b/libmy/varint.c
index 6969274..f3a7725 100644
--- a/libmy/varint.c
+++ b/libmy/varint.c
@@ -90,7 +90,11 @@ varint_length_packed(const uint8_t *data, size_t len_data)
 {
 	unsigned i = 0;
 	size_t len = len_data;
-	while (len--) {
+	while (len--)
+#ifdef DNSTABLE_CONTRACTS
+	VPL_varint_length_packed
+#endif
+	{
 		if ((data[i] & 0x80) == 0)
 			break;
 		i++;
-- 
2.43.0


From c297b9f7fa0e749d558acccf36f8c3e48a21dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 02/47] fix: varint_decode32: shift the fifth byte as an
 unsigned value

A fifth byte of 8 or more was shifted into the sign bit of an int, which
is undefined behaviour.
---
 libmy/varint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/varint.c b/libmy/varint.c
index f3a7725..8983103 100644
--- a/libmy/varint.c
+++ b/libmy/varint.c
@@ -158,7 +158,7 @@ varint_decode32(const uint8_t *data, uint32_t *value)
 			if (len > 3) {
 				val |= ((data[3] & 0x7f) << 21);
 				if (len > 4)
-					val |= (data[4] << 28);
+					val |= ((uint32_t)data[4] << 28);
 			}
 		}
 	}
-- 
2.43.0


From 884e182184b486d84b4ddea4d9f93c12610fbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 03/47] fix: triplet_unpack, pair_unpack: never decode a varint
 past the end of the value

A truncated value made the decoder read past the value's bytes, and a value
ending in an unterminated varint was accepted with a garbage number.
---
 dnstable/triplet.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/dnstable/triplet.c b/dnstable/triplet.c
index ebb23d0..071acaf 100644
--- a/dnstable/triplet.c
+++ b/dnstable/triplet.c
@@ -16,6 +16,20 @@
 
 #include "dnstable-private.h"
 
+/*
+ * Decode one varint that lies wholly within the buffer. Returns the number of
+ * bytes consumed, or 0 if the buffer does not begin with a complete varint.
+ */
+static size_t
+varint_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val)
+{
+	size_t len = mtbl_varint_length_packed(buf, len_buf);
+
+	if (len == 0 || mtbl_varint_decode64(buf, val) != len)
+		return (0);
+	return (len);
+}
+
 size_t
 triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 {
@@ -29,10 +43,15 @@ triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 dnstable_res
 triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
 {
+	uint64_t *vals[] = { val1, val2, val3 };
 	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val3);
+
+	for (size_t i = 0; i < sizeof(vals) / sizeof(vals[0]); i++) {
+		size_t len = varint_unpack(buf + bytes_read, len_buf - bytes_read, vals[i]);
+		if (len == 0)
+			return (dnstable_res_failure);
+		bytes_read += len;
+	}
 	if (bytes_read == len_buf)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
@@ -50,9 +69,15 @@ pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
 dnstable_res
 pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
 {
+	uint64_t *vals[] = { val1, val2 };
 	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
+
+	for (size_t i = 0; i < sizeof(vals) / sizeof(vals[0]); i++) {
+		size_t len = varint_unpack(buf + bytes_read, len_buf - bytes_read, vals[i]);
+		if (len == 0)
+			return (dnstable_res_failure);
+		bytes_read += len;
+	}
 	if (bytes_read == len_buf)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
-- 
2.43.0


From 64b0cfa9e10f0d2e51e8ec55900e444ca172b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 04/47] fix: rrtype_union_check: a bitmap of n bytes has no
 byte n

The check read one byte past the window's bitmap, in the next window or past
the end of the value.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20ecf04..6c45ef4 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1200,7 +1200,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		}
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte > block_len)
+		if (byte >= block_len)
 			return false;
 		return (rrtype_map[byte] & net_order_bit);
 	}
-- 
2.43.0


From 4944232e6fb13e442bb7b4c48c11812412f293de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 05/47] fix: rrtype_union_unpack: refuse bitmaps longer than a
 window

A window holds 256 types, i.e. 32 bytes; the types of longer bitmaps wrapped
into the bits of the window number and came out of order.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 6c45ef4..d1123cf 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1128,7 +1128,7 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 		rrtype_map_size -= 2;
 		rrtype_map += 2;
 
-		if (block_len < 1 || rrtype_map_size < block_len)
+		if (block_len < 1 || block_len > 256 / 8 || rrtype_map_size < block_len)
 			return -1; /* corrupt encoding */
 
 		uint16_t lo = 0;
-- 
2.43.0


From dd292be8abe742e70d427507930f1c00e36a1008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 06/47] dnstable/entry: attachment points for the contracts of
 the RRtype index (DNSTABLE_CONTRACTS)

---
 dnstable/entry.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index d1123cf..2a56fb0 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1115,7 +1115,14 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 	bool saw_a_block = false;
 	uint8_t prev_window_block = 0;
 
-	while (rrtype_map_size >= 2) {
+	while (rrtype_map_size >= 2)
+#ifdef DNSTABLE_CONTRACTS
+VPL_rrtype_union_unpack
+#endif
+	{
+#ifdef DNSTABLE_CONTRACTS
+VPG_rrtype_union_unpack_block
+#endif
 		uint8_t window_block = *rrtype_map;
 		uint8_t block_len = *(rrtype_map + 1);
 
@@ -1132,15 +1139,26 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 			return -1; /* corrupt encoding */
 
 		uint16_t lo = 0;
-		for (unsigned i = 0; i < block_len; i++) {
+		for (unsigned i = 0; i < block_len; i++)
+#ifdef DNSTABLE_CONTRACTS
+VPL_rrtype_union_unpack_byte
+#endif
+		{
 			uint8_t a = rrtype_map[i];
-			for (unsigned j = 1; j <= 8; j++) {
+			for (unsigned j = 1; j <= 8; j++)
+#ifdef DNSTABLE_CONTRACTS
+VPL_rrtype_union_unpack_bit
+#endif
+			{
 				uint8_t is_bit_set = a & (1 << (8 - j));
 				if (is_bit_set != 0) {
 					/* if not too many rrtypes in the map, then add to our output */
 					if (count_rrtypes < sizeof(rrtype_unpacked_set) / sizeof(uint16_t)) {
 						/* re-form the rrtype */
 						rrtype_set->rrtypes[count_rrtypes++] = (window_block << 8) | lo;
+#ifdef DNSTABLE_CONTRACTS
+VPG_rrtype_union_unpack_out
+#endif
 					} else
 						return -1; /* too many rrtypes to unpack, an error */
 				}
@@ -1151,6 +1169,9 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 		rrtype_map += block_len;
 	}
 
+#ifdef DNSTABLE_CONTRACTS
+VPG_rrtype_union_unpack_end
+#endif
 	if (rrtype_map_size != 0) /* got trailing data that's not a valid additional block to unpack, an error */
 		return -1;
 
@@ -1185,7 +1206,14 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 	uint8_t bit = offset % 8;
 	uint8_t net_order_bit = 0x80 >> bit;
 
-	while (rrtype_map_size >= 2) {
+	while (rrtype_map_size >= 2)
+#ifdef DNSTABLE_CONTRACTS
+VPL_rrtype_union_check
+#endif
+	{
+#ifdef DNSTABLE_CONTRACTS
+VPG_rrtype_union_check_block
+#endif
 		uint8_t window_block = *rrtype_map;
 		uint8_t block_len = *(rrtype_map + 1);
 		rrtype_map_size -= 2;
@@ -1205,6 +1233,9 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		return (rrtype_map[byte] & net_order_bit);
 	}
 
+#ifdef DNSTABLE_CONTRACTS
+VPG_rrtype_union_check_end
+#endif
 	if (rrtype_map_size != 0) /* got trailing data that's not a valid additional block to unpack, an error */
 		return true;
 
-- 
2.43.0


From fdaa1b768f57f6e0855abdd1e9986b887d7f46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 07/47] fix: merge_rrtype_bitmaps: room for an index of every
 window

The result buffer was limited to 1024 bytes by dividing its size by the size
of a pointer, and was too small for 256 full windows in any case: merging
larger RRtype indexes aborted.
---
 dnstable/merge.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index a0b63f1..ebd9d5c 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -120,7 +120,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	memset(bitmap, 0, sizeof(bitmap));
 	uint8_t window_block = 0;
 	uint8_t	bitmap_len = 0;
-	uint8_t result_data[65536 / 8];
+	uint8_t result_data[256 * (2 + sizeof(bitmap))];	/* every window, each with a full bitmap */
 	uint16_t result_index = 0;
 
 	for (int n = 0; n < count_rrtypes; n++) {
@@ -131,7 +131,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       < sizeof(result_data)/sizeof(&result_data[0]));
+				       <= sizeof(result_data));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -160,7 +160,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       < sizeof(result_data)/sizeof(&result_data[0]));
+		       <= sizeof(result_data));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From 900902dbd0775d6fd126276c8ed9a72c65f2f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 08/47] fix: dnstable_merge_func: do not decode a version past
 the end of its value

---
 dnstable/merge.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index ebd9d5c..955cde4 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -256,8 +256,10 @@ dnstable_merge_func(void *clos,
 			return;
 		}
 
+		assert(mtbl_varint_length_packed(val0, len_val0) == len_val0);
 		len = mtbl_varint_decode32(val0, &vers0);
 		assert(len == len_val0);
+		assert(mtbl_varint_length_packed(val1, len_val1) == len_val1);
 		len = mtbl_varint_decode32(val1, &vers1);
 		assert(len == len_val1);
 		minvers = (vers0 < vers1)?vers0:vers1;
-- 
2.43.0


From b08606614bae79cac7c2a46f809facc09b02a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 09/47] fix: dnstable_entry_decode: never decode a varint past
 the end of a key or value

---
 dnstable/entry.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 2a56fb0..2639a94 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -625,6 +625,18 @@ decode_val_triplet(struct dnstable_entry *e, const uint8_t *val, size_t len_val)
 	return (res);
 }
 
+/* decode a varint from [*p, end), and move *p behind it */
+static dnstable_res
+decode_varint32(const uint8_t **p, const uint8_t *end, uint32_t *val)
+{
+	size_t len = mtbl_varint_length_packed(*p, end - *p);
+
+	if (len == 0 || mtbl_varint_decode32(*p, val) != len)
+		return (dnstable_res_failure);
+	*p += len;
+	return (dnstable_res_success);
+}
+
 static dnstable_res
 decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 {
@@ -646,8 +658,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	if (decode_varint32(&p, end, &e->rrtype) != dnstable_res_success)
 		return (dnstable_res_failure);
 
 	/* bailiwick */
@@ -667,11 +678,12 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		wdns_rdata_t *rdata;
 		uint32_t len_rdata;
 
-		p += mtbl_varint_decode32(p, &len_rdata);
+		if (decode_varint32(&p, end, &len_rdata) != dnstable_res_success)
+			return (dnstable_res_failure);
 		if (len_rdata > USHRT_MAX)
 			return (dnstable_res_failure);
 
-		if (p + len_rdata > end)
+		if (len_rdata > (size_t)(end - p))
 			return (dnstable_res_failure);
 
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_rdata);
@@ -736,13 +748,12 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 
 	/* data */
 	data = p;
-	p += len_data;
-	if (p > end)
+	if (len_data > end - p)
 		return (dnstable_res_failure);
+	p += len_data;
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	if (decode_varint32(&p, end, &e->rrtype) != dnstable_res_success)
 		return (dnstable_res_failure);
 
 	/* rrname */
@@ -797,14 +808,14 @@ decode_version(struct dnstable_entry *e,
 	       const uint8_t *key, size_t len_key,
 	       const uint8_t *val, size_t len_val)
 {
-	size_t len;
+	const uint8_t *p = val;
+	const uint8_t *end = val + len_val;
 
 	if (len_key != 1 || len_val == 0)
 		return (dnstable_res_failure);
 
 	e->v_type = key[0];
-	len = mtbl_varint_decode32(val, &e->version);
-	if (len == len_val)
+	if (decode_varint32(&p, end, &e->version) == dnstable_res_success && p == end)
 		return (dnstable_res_success);
 
 	return (dnstable_res_failure);
-- 
2.43.0


From 972415ff988f2f99fd6c14f92bcdfbc410ea3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 10/47] fix: dnstable_entry_decode: refuse RRtypes that do not
 fit 16 bits

Larger values were truncated by the accessors, and overflowed the RRtype
buffer when rendering raw RDATA.
---
 dnstable/entry.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 2639a94..7b79345 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -660,6 +660,8 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	/* rrtype */
 	if (decode_varint32(&p, end, &e->rrtype) != dnstable_res_success)
 		return (dnstable_res_failure);
+	if (e->rrtype > UINT16_MAX)
+		return (dnstable_res_failure);
 
 	/* bailiwick */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -755,6 +757,8 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	/* rrtype */
 	if (decode_varint32(&p, end, &e->rrtype) != dnstable_res_success)
 		return (dnstable_res_failure);
+	if (e->rrtype > UINT16_MAX)
+		return (dnstable_res_failure);
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
-- 
2.43.0


From dc452e45f1ef573c199022cfa2c6fc530779d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 11/47] fix: dnstable_entry_decode: check the name of name
 index entries

The length of an over-long name was truncated to 8 bits, and a malformed name
was passed on to wdns_reverse_name() and to the formatters.
---
 dnstable/entry.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 7b79345..44b85a6 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -702,6 +702,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 static dnstable_res
 decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success || len_name != len_buf)
+		return (dnstable_res_failure);
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	memcpy(e->name.data, buf, len_buf);
@@ -715,6 +719,10 @@ decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_b
 static dnstable_res
 decode_rdata_name_rev(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success || len_name != len_buf)
+		return (dnstable_res_failure);
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	if (wdns_reverse_name(buf, len_buf, e->name.data) != wdns_res_success)
-- 
2.43.0


From ea9c963e57e25e4be2b60854b924c9f4927ecdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 12/47] fix: decode_rdata: refuse RDATA whose length does not
 fit 16 bits

---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 44b85a6..8ac1b47 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -788,6 +788,8 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	} else {
 		slice = p;
 		len_slice = end - p;
+		if (len_slice + len_data > USHRT_MAX)
+			return (dnstable_res_failure);
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_slice + len_data);
 		rdata->len = len_slice + len_data;
 		memcpy(rdata->data, slice, len_slice);
-- 
2.43.0


From ae2fc5277ee62c27254953503fbd58ba2de90dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 13/47] fix: dnstable_entry_decode: refuse unknown entry types
 instead of returning an empty RRset

---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 8ac1b47..8f64fc6 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -876,6 +876,8 @@ dnstable_entry_decode(const uint8_t *key, size_t len_key,
 		e->e_type = DNSTABLE_ENTRY_TYPE_VERSION;
 		if (decode_version(e, key+1, len_key-1, val, len_val) != dnstable_res_success) goto err;
 		break;
+	default:
+		goto err;
 	}
 
 	return (e);
-- 
2.43.0


From c9ab76696257bfd8e70733ee228908be358266e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 14/47] fix: dnstable_entry_get_rdata: an entry with n RDATA
 has no RDATA n

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 8f64fc6..ff1ffac 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1024,7 +1024,7 @@ dnstable_entry_get_rdata(struct dnstable_entry *e, size_t i,
 	if (e->e_type == DNSTABLE_ENTRY_TYPE_RRSET ||
 	    e->e_type == DNSTABLE_ENTRY_TYPE_RDATA)
 	{
-		if (i > rdata_vec_size(e->rdatas))
+		if (i >= rdata_vec_size(e->rdatas))
 			return (dnstable_res_failure);
 		*rdata = rdata_vec_value(e->rdatas, i)->data;
 		*len_rdata = rdata_vec_value(e->rdatas, i)->len;
-- 
2.43.0


From f31078b6985aad15125010354ae4b56bb516694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 15/47] fix: ip4_lower, ip4_upper, ip6_lower, ip6_upper: no
 shift by the width of the type for prefix lengths 0 and 64

---
 libmy/ip_arith.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..78f8cd7 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(prefix_len == 0 ? 0 : ~((1U << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32(prefix_len == 0 ? UINT32_MAX : (1U << (32 - prefix_len)) - 1);
 	memcpy(out, &addr, 4);
 }
 
@@ -65,12 +65,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(prefix_len == 0 ? 0 : UINT64_MAX << (64ULL - prefix_len));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(prefix_len == 0 ? 0 : UINT64_MAX << (64ULL - prefix_len));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +87,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(UINT64_MAX >> prefix_len);
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(UINT64_MAX >> prefix_len);
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From 254ca646bb6ed620506fb8ca8460141daa01de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 16/47] fix: base64_decode_value: the character after 'z' is
 not in the table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From ca7b9fe9b3510bcac3e4cbe11798db4a810acb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 17/47] fix: base32_encode: nothing encodes to nothing, not to
 eight zeros

---
 libmy/b32_encode.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 6487fc4..710b83a 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,6 +79,9 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
+	if (len == 0)
+		return 0;
+
 	do {
 		size_t j, k;
 		uint8_t x[5];
-- 
2.43.0


From e9bcb2a952c6f7a53114e124942fe52cbdf7b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 18/47] fix: base32_decode: a partial group decodes to its own
 bytes only, and padding ends the text

---
 libmy/b32_decode.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 5303811..60c1ad7 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -140,19 +140,17 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 		c = p[i++];
 		if ('=' == c) {
 			pad++;
-			c = 0;
 		} else {
 			c = base32_map[c];
 			if ((unsigned char) -1 == c) {
 				return -1;
 			}
+			s[si++] = c;
 		}
 
-		s[si++] = c;
-
 		if (G_N_ELEMENTS(s) == si || pad > 0 || i == len) {
 			char b[5];
-			size_t bi;
+			size_t bi, nb = si * 5 / 8;
 
 			memset(&s[si], 0, G_N_ELEMENTS(s) - si);
 			si = 0;
@@ -175,12 +173,12 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 				((s[6] & 0x07) << 5) |
 				(s[7] & 0x1f);
 
-			for (bi = 0; bi < G_N_ELEMENTS(b) && q != end; bi++) {
+			for (bi = 0; bi < nb && q != end; bi++) {
 				*q++ = b[bi];
 			}
 		}
 
-		if (end == q) {
+		if (end == q || pad > 0) {
 			break;
 		}
 	}
-- 
2.43.0


From 4beb89d66761dd556752b86a35636c48d9186e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 19/47] fix: base32_encode: two trailing bytes take four
 characters

---
 libmy/b32_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 710b83a..87c29c8 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -95,7 +95,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			k = 5;
 			break;
 		case 2:
-			k = 3;
+			k = 4;
 			break;
 		case 1:
 			k = 2;
-- 
2.43.0


From 9d4f4578144f372c5bf032b458bffb1824ff7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 20/47] fix: my_bytes_to_hex_str: do not write to a destination
 of no bytes

---
 libmy/my_format.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 066cb3d..7e30d03 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -37,6 +37,9 @@ my_bytes_to_hex_str(const uint8_t *src, size_t len, bool is_upper, char *dst, si
 {
 	size_t n;
 
+	if (dst_size == 0)
+		return 0;
+
 	if ((len * 2) > (dst_size - 1))
 		len = (dst_size - 1) / 2;
 
-- 
2.43.0


From a99f17027dac225027880aceda073663352315a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 21/47] fix: my_uint64_to_str: stay inside destinations of no
 or one byte

---
 libmy/my_format.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 7e30d03..a5d558d 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -63,19 +63,20 @@ size_t
 my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start)
 {
 	size_t ndigits = 0;
-	char *ptr = &dst[dst_size - 1];
+	char *ptr = dst;
 
-	*ptr-- = '\0';
+	if (dst_size > 0) {
+		ptr = &dst[dst_size - 1];
+		*ptr = '\0';
+	}
 
-	while (ptr >= dst) {
-		*ptr = '0' + num % 10;
+	while (ptr > dst) {
+		*--ptr = '0' + num % 10;
 		ndigits++;
 		num /= 10;
 
-		if (num == 0 || ptr == dst)
+		if (num == 0)
 			break;
-
-		ptr--;
 	}
 
 	if (start != NULL)
-- 
2.43.0


From 364d175760259a08a2351cd3937187974821c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 22/47] libmy/my_format: attachment points for loop contracts
 (DNSTABLE_CONTRACTS)

---
 libmy/my_format.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index a5d558d..12c156b 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -44,6 +44,9 @@ my_bytes_to_hex_str(const uint8_t *src, size_t len, bool is_upper, char *dst, si
 		len = (dst_size - 1) / 2;
 
 	for (n = 0; n < len; n++)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_bytes_to_hex_str
+#endif
 		_my_byte_to_hex_str(src[n], is_upper, &dst[n * 2]);
 
 	dst[n * 2] = '\x00';
@@ -70,7 +73,11 @@ my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start)
 		*ptr = '\0';
 	}
 
-	while (ptr > dst) {
+	while (ptr > dst)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_uint64_to_str
+#endif
+	{
 		*--ptr = '0' + num % 10;
 		ndigits++;
 		num /= 10;
-- 
2.43.0


From 001c697a36ca67b63e1c494092dd105d860d0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 23/47] libmy/my_format: attachment point for the decimal
 digits (DNSTABLE_CONTRACTS)

---
 libmy/my_format.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 12c156b..7928952 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -79,6 +79,9 @@ VPL_my_uint64_to_str
 #endif
 	{
 		*--ptr = '0' + num % 10;
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_uint64_to_str_digit
+#endif
 		ndigits++;
 		num /= 10;
 
-- 
2.43.0


From cffe137e267a7b5bf4b5b104a6a696f0d0a6bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 24/47] fix: my_timespec_from_double: seconds beyond 32 bits
 and before the epoch

---
 libmy/my_time.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index bc3afd3..b3b54a2 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -80,7 +80,13 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	if (seconds < ts->tv_sec)
+		ts->tv_sec -= 1;
+	ts->tv_nsec = (long) ((seconds - ts->tv_sec) * 1E9);
+	if (ts->tv_nsec >= 1000000000) {
+		ts->tv_sec += 1;
+		ts->tv_nsec -= 1000000000;
+	}
 }
 
 static inline void
-- 
2.43.0


From 80887b4353df8cc84948d1002f70016dc7697532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 25/47] fix: string_replace: end for an empty search text

---
 libmy/string_replace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/string_replace.h b/libmy/string_replace.h
index 5edc207..f3cd72b 100644
--- a/libmy/string_replace.h
+++ b/libmy/string_replace.h
@@ -28,7 +28,7 @@ string_replace(const char *str, const char *old, const char *new)
 	char *ret;
 	size_t retsz;
 
-	if (strstr(str, old) == NULL) {
+	if (*old == '\0' || strstr(str, old) == NULL) {
 		char *s = strdup(str);
 		assert(s != NULL);
 		return (s);
-- 
2.43.0


From fa2c054084fa664efe2ed0adca6b4ca3da194ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 26/47] fix: heap_get: an empty heap has no element 0

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index ae00269..ef9e585 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -170,7 +170,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From 8e8220c5de39a66855ec0ef00b392b1c5844b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 27/47] libmy/heap: attachment points for loop contracts
 (DNSTABLE_CONTRACTS)

---
 libmy/heap.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index ef9e585..18e0b90 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -67,14 +67,24 @@ siftdown(struct heap *h, size_t startpos, size_t pos)
 {
 	assert(pos < ptrvec_size(h->vec));
 	void *newitem = ptrvec_value(h->vec, pos);
-	while (pos > startpos) {
+	while (pos > startpos)
+#ifdef DNSTABLE_CONTRACTS
+VPL_siftdown
+#endif
+	{
 		size_t parentpos = (pos - 1) >> 1;
+#ifdef DNSTABLE_CONTRACTS
+VPG_siftdown_step
+#endif
 		void *parent = ptrvec_value(h->vec, parentpos);
 		int cmp = cmp_wrapper(h->cmp, newitem, parent);
 		if (cmp == -1)
 			return (-1);
 		if (cmp == 0)
 			break;
+#ifdef DNSTABLE_CONTRACTS
+VPG_siftdown_move
+#endif
 		ptrvec_data(h->vec)[pos] = parent;
 		pos = parentpos;
 	}
@@ -90,8 +100,15 @@ siftup(struct heap *h, size_t pos)
 	size_t endpos = ptrvec_size(h->vec);
 	size_t startpos = pos;
 	size_t childpos = 2 * pos + 1;
-	while (childpos < endpos) {
+	while (childpos < endpos)
+#ifdef DNSTABLE_CONTRACTS
+VPL_siftup
+#endif
+	{
 		size_t rightpos = childpos + 1;
+#ifdef DNSTABLE_CONTRACTS
+VPG_siftup_step
+#endif
 		if (rightpos < endpos) {
 			int cmp = cmp_wrapper(h->cmp,
 					      ptrvec_value(h->vec, childpos),
@@ -101,6 +118,9 @@ siftup(struct heap *h, size_t pos)
 			if (cmp == 0)
 				childpos = rightpos;
 		}
+#ifdef DNSTABLE_CONTRACTS
+VPG_siftup_move
+#endif
 		ptrvec_data(h->vec)[pos] = ptrvec_value(h->vec, childpos);
 		pos = childpos;
 		childpos = 2 * pos + 1;
@@ -112,7 +132,11 @@ siftup(struct heap *h, size_t pos)
 void
 heap_heapify(struct heap *h)
 {
-	for (size_t i = ptrvec_size(h->vec)/2; i-- > 0; ) {
+	for (size_t i = ptrvec_size(h->vec)/2; i-- > 0; )
+#ifdef DNSTABLE_CONTRACTS
+VPL_heap_heapify
+#endif
+	{
 		siftup(h, i);
 	}
 }
-- 
2.43.0


From 4048c75b9c49ee0cef87166350c55e2b7092743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 28/47] libmy/crc32c: attachment points for loop contracts
 (DNSTABLE_CONTRACTS)

---
 libmy/crc32c-slicing.c | 9 ++++++++-
 libmy/crc32c-sse42.c   | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/libmy/crc32c-slicing.c b/libmy/crc32c-slicing.c
index fde8876..7296941 100644
--- a/libmy/crc32c-slicing.c
+++ b/libmy/crc32c-slicing.c
@@ -1118,7 +1118,14 @@ my_crc32c_slicing(const uint8_t *chunk, size_t len)
 	}
 
 	/* Checksum in 8B chunks. */
-	for (nqwords = len / sizeof(uint64_t); nqwords; nqwords--) {
+	for (nqwords = len / sizeof(uint64_t); nqwords; nqwords--)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_crc32c_slicing
+#endif
+	{
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_crc32c_slicing
+#endif
 		crc ^= *(uint32_t *)p;
 		p += sizeof(uint32_t);
 		next = *(uint32_t *)p;
diff --git a/libmy/crc32c-sse42.c b/libmy/crc32c-sse42.c
index a37fe34..4c1b40c 100644
--- a/libmy/crc32c-sse42.c
+++ b/libmy/crc32c-sse42.c
@@ -125,7 +125,14 @@ my_crc32c_sse42(const uint8_t *buf, size_t len)
 	const uint8_t *p = buf;
 	uint64_t crc64bit = 0xFFFFFFFF;
 
-	for (size_t i = 0; i < len / sizeof(uint64_t); i++) {
+	for (size_t i = 0; i < len / sizeof(uint64_t); i++)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_crc32c_sse42
+#endif
+	{
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_crc32c_sse42
+#endif
 		crc64bit = my_asm_crc32_u64(crc64bit, *(uint64_t *) p);
 		p += sizeof(uint64_t);
 	}
-- 
2.43.0


From f45074c989cef95fc00d7660822d54cfba770ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 29/47] fix: my_queue: address elements beyond 4 GB of queue
 data

---
 libmy/my_queue_mb.c    | 4 ++--
 libmy/my_queue_mutex.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/my_queue_mb.c b/libmy/my_queue_mb.c
index ff08312..acaffbf 100644
--- a/libmy/my_queue_mb.c
+++ b/libmy/my_queue_mb.c
@@ -100,7 +100,7 @@ my_queue_mb_insert(struct my_queue *q, void *item, unsigned *pspace)
 	unsigned tail = MY_ACCESS_ONCE(q->tail);
 	unsigned space = q_space(head, tail, q->num_elems);
 	if (space >= 1) {
-		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
+		memcpy(&q->data[(size_t) head * q->sizeof_elem], item, q->sizeof_elem);
 		smp_wmb();
 		q->head = (head + 1) & (q->num_elems - 1);
 		smp_wmb();
@@ -120,7 +120,7 @@ my_queue_mb_remove(struct my_queue *q, void *item, unsigned *pcount)
 	unsigned tail = q->tail;
 	unsigned count = q_count(head, tail, q->num_elems);
 	if (count >= 1) {
-		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);
+		memcpy(item, &q->data[(size_t) tail * q->sizeof_elem], q->sizeof_elem);
 		smp_mb();
 		q->tail = (tail + 1) & (q->num_elems - 1);
 		res = true;
diff --git a/libmy/my_queue_mutex.c b/libmy/my_queue_mutex.c
index b8572ec..3ec2c97 100644
--- a/libmy/my_queue_mutex.c
+++ b/libmy/my_queue_mutex.c
@@ -121,7 +121,7 @@ my_queue_mutex_insert(struct my_queue *q, void *item, unsigned *pspace)
 	unsigned tail = q->tail;
 	unsigned space = q_space(head, tail, q->num_elems);
 	if (space >= 1) {
-		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
+		memcpy(&q->data[(size_t) head * q->sizeof_elem], item, q->sizeof_elem);
 		q->head = (head + 1) & (q->num_elems - 1);
 		res = true;
 		space--;
@@ -141,7 +141,7 @@ my_queue_mutex_remove(struct my_queue *q, void *item, unsigned *pcount)
 	unsigned tail = q->tail;
 	unsigned count = q_count(head, tail, q->num_elems);
 	if (count >= 1) {
-		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);
+		memcpy(item, &q->data[(size_t) tail * q->sizeof_elem], q->sizeof_elem);
 		q->tail = (tail + 1) & (q->num_elems - 1);
 		res = true;
 		count--;
-- 
2.43.0


From ab4cd49e0a7d4f4f864396be3b8a60fd539b3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 30/47] libmy/lookup3: attachment points for loop contracts
 (DNSTABLE_CONTRACTS)

---
 libmy/lookup3.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/libmy/lookup3.c b/libmy/lookup3.c
index 7659cee..5ff6976 100644
--- a/libmy/lookup3.c
+++ b/libmy/lookup3.c
@@ -303,7 +303,13 @@ uint32_t my_hashlittle( const void *key, size_t length, uint32_t initval)
 
     /*------ all but last block: aligned reads and affect 32 bits of (a,b,c) */
     while (length > 12)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_hashlittle_1
+#endif
     {
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_hashlittle_1
+#endif
       a += k[0];
       b += k[1];
       c += k[2];
@@ -369,7 +375,13 @@ uint32_t my_hashlittle( const void *key, size_t length, uint32_t initval)
 
     /*--------------- all but last block: aligned reads and different mixing */
     while (length > 12)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_hashlittle_2
+#endif
     {
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_hashlittle_2
+#endif
       a += k[0] + (((uint32_t)k[1])<<16);
       b += k[2] + (((uint32_t)k[3])<<16);
       c += k[4] + (((uint32_t)k[5])<<16);
@@ -415,7 +427,13 @@ uint32_t my_hashlittle( const void *key, size_t length, uint32_t initval)
 
     /*--------------- all but the last block: affect some 32 bits of (a,b,c) */
     while (length > 12)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_hashlittle_3
+#endif
     {
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_hashlittle_3
+#endif
       a += k[0];
       a += ((uint32_t)k[1])<<8;
       a += ((uint32_t)k[2])<<16;
@@ -490,7 +508,13 @@ void my_hashlittle2(
 
     /*------ all but last block: aligned reads and affect 32 bits of (a,b,c) */
     while (length > 12)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_hashlittle2_1
+#endif
     {
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_hashlittle2_1
+#endif
       a += k[0];
       b += k[1];
       c += k[2];
@@ -556,7 +580,13 @@ void my_hashlittle2(
 
     /*--------------- all but last block: aligned reads and different mixing */
     while (length > 12)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_hashlittle2_2
+#endif
     {
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_hashlittle2_2
+#endif
       a += k[0] + (((uint32_t)k[1])<<16);
       b += k[2] + (((uint32_t)k[3])<<16);
       c += k[4] + (((uint32_t)k[5])<<16);
@@ -602,7 +632,13 @@ void my_hashlittle2(
 
     /*--------------- all but the last block: affect some 32 bits of (a,b,c) */
     while (length > 12)
+#ifdef DNSTABLE_CONTRACTS
+VPL_my_hashlittle2_3
+#endif
     {
+#ifdef DNSTABLE_CONTRACTS
+VPG_my_hashlittle2_3
+#endif
       a += k[0];
       a += ((uint32_t)k[1])<<8;
       a += ((uint32_t)k[2])<<16;
-- 
2.43.0


From 57bc5bcb36071d98e9b930e2f2f56cc3c27dc1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 31/47] fix: dnstable_lookup: times out of range are refused or
 clamped, not wrapped

---
 src/dnstable_lookup.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index f285cff..d843026 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -19,6 +19,7 @@
 #include <errno.h>
 #include <locale.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -211,13 +212,19 @@ parse_time(const char *s)
 	    ((endp = strptime(s, "%F %T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%TZ", &tt)) && (*endp == '\0'))) {
-		return (uint64_t)timegm(&tt);
+		time_t t = timegm(&tt);
+
+		/* Times before the epoch are clamped to it */
+		return t < 0 ? 0 : (uint64_t)t;
 	}
 
 	clock_gettime(CLOCK_REALTIME, &now);
 
 	/* Parse absolute or negative relative numeric time */
+	errno = 0;
 	ll = strtoll(s, &endp, 10);
+	if (errno == ERANGE)
+		return 0;
 	if (*endp == '\0') {
 		if (ll < 0) {
 			if (ll + now.tv_sec < 0)
@@ -230,7 +237,8 @@ parse_time(const char *s)
 	/* Parse 10w3d4h */
 	while(*s) {
 		ll = strtoll(s, &endp, 10);
-		if (ll <= 0)
+		/* More units than this cannot be a valid offset, whatever the unit */
+		if (ll <= 0 || ll > LLONG_MAX / (7 * 24 * 60 * 60))
 			return 0;
 		switch(*endp) {
 		case 'W':
@@ -252,12 +260,12 @@ parse_time(const char *s)
 		default:
 			return 0;
 		}
+		if (ll > now.tv_sec - total)
+			return 0;
 		total += ll;
 		s = endp;
 		if (*s) s++;
 	}
-	if (total > now.tv_sec)
-		return 0;
 	return (uint64_t)(now.tv_sec - total);
 }
 
-- 
2.43.0


From e7a0f365caf6bedcbec1fb64b8125ae3afe737ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 32/47] dnstable_lookup: attachment point for a loop contract
 (DNSTABLE_CONTRACTS)

---
 src/dnstable_lookup.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index d843026..4adcee9 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -235,7 +235,11 @@ parse_time(const char *s)
 	}
 
 	/* Parse 10w3d4h */
-	while(*s) {
+	while(*s)
+#ifdef DNSTABLE_CONTRACTS
+VPL_parse_time
+#endif
+	{
 		ll = strtoll(s, &endp, 10);
 		/* More units than this cannot be a valid offset, whatever the unit */
 		if (ll <= 0 || ll > LLONG_MAX / (7 * 24 * 60 * 60))
-- 
2.43.0


From a3311e2a23faa526dee90435ab0cd4f06bcac14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:33 +0000
Subject: [PATCH 33/47] fix: query: a last label ending in \x01* or \x01+ is
 not a wildcard

---
 dnstable/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index eb74967..0f11538 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1482,8 +1482,13 @@ static inline bool
 is_right_wildcard(struct dnstable_query *q)
 {
 	const wdns_name_t *name = &q->name;
+	size_t pos = 0;
 
-	if (name->len >= 3 &&
+	/* Find the start of the last label, which may end in "\x01*" without being one */
+	while (pos + 3 < name->len)
+		pos += 1 + name->data[pos];
+
+	if (pos + 3 == name->len &&
 	    name->data[name->len - 3] == '\x01' &&
 	   (name->data[name->len - 2] == '*' || name->data[name->len - 2] == '+')) {
 		q->dq_wildplus = name->data[name->len - 2] == '+';
-- 
2.43.0


From b549624ac02a18901e0b25a2700235efc5fa2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 34/47] fix: query: raw rdata lookups no longer match key bytes
 beyond the rdata

---
 dnstable/query.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 0f11538..5f9cb1a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -107,6 +107,7 @@ struct query_iter {
 	struct filter_mtbl	*filter_single_label;	/* rrset+rdata wildcard */
 	/* Can be filter_rrtype(), filter_rrtype_ip(), or filter_rrtype_rdata_name() */
 	struct filter_mtbl	*filter_rrtype;
+	struct filter_mtbl	*filter_rdata_len;	/* rdata raw */
 	struct filter_mtbl	*filter_bailiwick;
 	struct filter_mtbl	*filter_time_prefilter;
 	/* remove_strict and possibly ljoin applied in between the time filters. */
@@ -601,6 +602,7 @@ query_iter_free(void *clos)
 	timeout_mtbl_destroy(&it->timeout_index);
 	filter_mtbl_destroy(&it->filter_single_label);
 	filter_mtbl_destroy(&it->filter_rrtype);
+	filter_mtbl_destroy(&it->filter_rdata_len);
 	filter_mtbl_destroy(&it->filter_bailiwick);
 	filter_mtbl_destroy(&it->filter_time_prefilter);
 	filter_mtbl_destroy(&it->filter_time);
@@ -815,6 +817,30 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 	return mtbl_res_success;
 }
 
+/*
+ * filter_rdata_len drops the entries whose rdata is shorter than the rdata of
+ * the query: they only share its bytes by virtue of the key fields following
+ * the rdata (rrtype, rrowner).
+ */
+static mtbl_res
+filter_rdata_len(void *user, struct mtbl_iter *seek_iter,
+		 const uint8_t *key, size_t len_key,
+		 const uint8_t *val, size_t len_val,
+		 bool *match)
+{
+	struct query_iter *it = user;
+	uint16_t rdlen;
+
+	*match = false;
+	if (len_key < 1 + sizeof(rdlen))
+		return (mtbl_res_success);
+
+	memcpy(&rdlen, &key[len_key - sizeof(rdlen)], sizeof(rdlen));
+	*match = (le16toh(rdlen) >= it->query->len_rdata);
+
+	return (mtbl_res_success);
+}
+
 static mtbl_res
 filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		 const uint8_t *key, size_t len_key,
@@ -1673,6 +1699,7 @@ query_init_rdata_raw(struct query_iter *it)
 	 * filter processing in it->filter_rrtype will filter the results by rrtype.
 	 */
 	FILTER_SET_COND(do_rrtype, filter_rrtype, source);
+	FILTER_SET(filter_rdata_len, source);
 
 	return dnstable_iter_init(query_iter_next, query_iter_free, it);
 }
-- 
2.43.0


From 03bbf4521734b4eb29d3380ac9a51408fcbc97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 35/47] fix: query: skipping to the next address read past the
 end of short keys

---
 dnstable/query.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 5f9cb1a..a823f28 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1163,7 +1163,7 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		add_rrtype_to_key(seek_key, it->query->rrtype);
 
 		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
-					key, ubuf_size(seek_key));
+					key, (len_key < ubuf_size(seek_key)) ? len_key : ubuf_size(seek_key));
 		if (ret < 0) {
 			/*
 			 * If the start key sorts before the current key, the
@@ -1235,7 +1235,13 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		}
 
 		for (;;) {
-			uint8_t llen = key[ubuf_size(seek_key)];
+			uint8_t llen;
+
+			if (len_key <= ubuf_size(seek_key)) {
+				/* The key ends with a label. Move to next key. */
+				return (mtbl_res_success);
+			}
+			llen = key[ubuf_size(seek_key)];
 
 			/*
 			 * Note: the ENTRY_TYPE_RDATA has 5 fields. We enter
-- 
2.43.0


From baf9286b864d606867ed2eeee98dc07b2e655781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 36/47] fix: query: rrtype and bailiwick filters read past the
 end of keys with a truncated rrtype

---
 dnstable/query.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index a823f28..725839a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -771,7 +771,8 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 		assert(0);
 	}
 
-	if (mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+	if (mtbl_varint_length_packed(&key[len+1], len_key - (len+1)) == 0 ||
+	    mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
 		return (mtbl_res_success);
 
 	if (rrtype == it->query->rrtype)
@@ -807,7 +808,9 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	mtbl_varint_decode32(&key[len+1], &rrtype);
+	if (mtbl_varint_length_packed(&key[len+1], len_key - (len+1)) == 0 ||
+	    mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+		return (mtbl_res_success);
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -859,6 +862,8 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len ++;
+	if (mtbl_varint_length_packed(&key[len], len_key - len) == 0)
+		return (mtbl_res_success);
 	len += mtbl_varint_decode32(&key[len], &rrtype);
 	if (len >= len_key)
 		return (mtbl_res_success);
-- 
2.43.0


From 8de2cb3b2c21a1f5480be4b273b20d6200e47b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 37/47] fix: query: an RRtype restriction on an IP address
 query no longer stops the process or changes its meaning

---
 dnstable/query.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 725839a..753cc87 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -414,7 +414,9 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 	uint16_t rrtype;
 
 	if (s_rrtype == NULL) {
-		q->do_rrtype = false;
+		/* The rrtype of an IP query is the one of its address */
+		if (q->q_type != DNSTABLE_QUERY_TYPE_RDATA_IP)
+			q->do_rrtype = false;
 		return (dnstable_res_success);
 	}
 
@@ -422,7 +424,8 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 	    strcasecmp(s_rrtype, "TYPE255") == 0 || /* ANY == TYPE255 */
 	    strcasecmp(s_rrtype, "ANY-DNSSEC") == 0)
 	{
-		q->do_rrtype = false;
+		if (q->q_type != DNSTABLE_QUERY_TYPE_RDATA_IP)
+			q->do_rrtype = false;
 		return (dnstable_res_success);
 	}
 
@@ -431,6 +434,13 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 		query_set_err(q, "unknown rrtype mnemonic");
 		return (dnstable_res_failure);
 	}
+	if (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_IP &&
+	    ((rrtype != WDNS_TYPE_A && rrtype != WDNS_TYPE_AAAA) ||
+	     (q->do_rrtype && rrtype != q->rrtype)))
+	{
+		query_set_err(q, "rrtype does not match IP address");
+		return (dnstable_res_failure);
+	}
 	q->rrtype = rrtype;
 	q->do_rrtype = true;
 	return (dnstable_res_success);
-- 
2.43.0


From f93ac5dd66ba642c109f93cadb329d96764df9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 38/47] fix: query: the offset is counted per search, not
 consumed from the query

---
 dnstable/query.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 753cc87..a548efa 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -113,6 +113,7 @@ struct query_iter {
 	/* remove_strict and possibly ljoin applied in between the time filters. */
 	struct filter_mtbl	*filter_time;
 	struct filter_mtbl	*filter_offset;
+	uint64_t		offset;		/* results still to be skipped */
 	struct {
 		uint64_t fileset_merged;
 		uint64_t fileset_files;
@@ -983,12 +984,11 @@ filter_offset(void *user, struct mtbl_iter *seek_iter,
 	      bool *match)
 {
 	struct query_iter *it = user;
-	struct dnstable_query *q = it->query;
 
 	*match = true;
-	if (q->offset > 0) {
+	if (it->offset > 0) {
 		*match = false;
-		q->offset--;
+		it->offset--;
 	}
 	return (mtbl_res_success);
 }
@@ -1849,6 +1849,7 @@ dnstable_query_iter_common(struct query_iter *it)
 
 	/* Seeing if we've hit the user supplied offset is always the first check */
 	if (q->offset > 0) {
+		it->offset = q->offset;
 		FILTER_SET(filter_offset, source);
 	}
 
-- 
2.43.0


From 29b87adaf3eb941d31ede8294b6bb613823b6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 39/47] fix: query: time fences treat a missing last-seen time
 like the decoded entries do

---
 dnstable/query.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index a548efa..8637bfb 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -905,6 +905,10 @@ filter_time_common(struct dnstable_query *q, bool prefilter,
 	if (dres != dnstable_res_success)
 		return (mtbl_res_success);
 
+	/* Same fixup as dnstable_entry_decode() applies to the entry. */
+	if (time_last == 0)
+		time_last = time_first;
+
 	/*
 	 * Checks 1-4 below correspond to steps 1,3,2,4 in reader_time_filter()
 	 * except these accomplish on a per-entry basis roughly what that
-- 
2.43.0


From 2d7f84378750d685dba0e9e42f0bfd435878e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 40/47] fix: remove source: iterators leaked their copies of
 the search keys

---
 dnstable/query_mtbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index 951af15..e4717c3 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -727,6 +727,8 @@ remove_iter_free(void *impl)
 		mtbl_iter_destroy(&rit->entries[i].it);
 	}
 	free(rit->entries);
+	free(rit->key);
+	free(rit->key2);
 
 	free(rit);
 }
-- 
2.43.0


From beb71f974b528423e6da91affc77e5bc40a0c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:52 +0000
Subject: [PATCH 41/47] fix: my_fileset: a repeated name is loaded once, and
 empty lines name no file

---
 libmy/my_fileset.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..e2e121b 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -160,7 +160,7 @@ my_fileset_reload(struct my_fileset *fs)
 	entry_vec *new_entries;
 	FILE *fp;
 	char *fname, *line = NULL;
-	size_t len = 0;
+	size_t len = 0, n = 0;
 	ubuf *u;
 
 	if (!setfile_updated(fs))
@@ -174,6 +174,8 @@ my_fileset_reload(struct my_fileset *fs)
 	new_entries = entry_vec_init(1);
 
 	while (getline(&line, &len, fp) != -1) {
+		if (line[0] == '\0' || line[0] == '\n')
+			continue;
 		ubuf_clip(u, 0);
 		ubuf_add_cstr(u, fs->setdir);
 		ubuf_add(u, '/');
@@ -181,20 +183,9 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
 		if (path_exists(fname)) {
-			entptr = fetch_entry(fs->entries, fname);
-			if (entptr == NULL) {
-				ent = my_calloc(1, sizeof(*ent));
-				ent->fname = my_strdup(fname);
-				if (fs->load)
-					ent->ptr = fs->load(fs, fname);
-				entry_vec_add(new_entries, ent);
-			} else {
-				ent = my_calloc(1, sizeof(*ent));
-				ent->fname = my_strdup(fname);
-				ent->ptr = (*entptr)->ptr;
-				(*entptr)->keep = true;
-				entry_vec_add(new_entries, ent);
-			}
+			ent = my_calloc(1, sizeof(*ent));
+			ent->fname = my_strdup(fname);
+			entry_vec_add(new_entries, ent);
 		}
 	}
 	free(line);
@@ -205,6 +196,26 @@ my_fileset_reload(struct my_fileset *fs)
 	      sizeof(void *),
 	      cmp_fileset_entry);
 
+	/* load the new names, keep the old ones; a repeated name counts once */
+	for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+		ent = entry_vec_value(new_entries, i);
+		if (n > 0 && strcmp(ent->fname, entry_vec_value(new_entries, n - 1)->fname) == 0) {
+			free(ent->fname);
+			free(ent);
+			continue;
+		}
+		entptr = fetch_entry(fs->entries, ent->fname);
+		if (entptr == NULL) {
+			if (fs->load)
+				ent->ptr = fs->load(fs, ent->fname);
+		} else {
+			ent->ptr = (*entptr)->ptr;
+			(*entptr)->keep = true;
+		}
+		entry_vec_data(new_entries)[n++] = ent;
+	}
+	entry_vec_clip(new_entries, n);
+
 	for (size_t i = 0; i < entry_vec_size(fs->entries); i++) {
 		ent = entry_vec_value(fs->entries, i);
 		assert(ent != NULL);
-- 
2.43.0


From 0fd7f6583a94bdf1774688fde3fb0dd34c667e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:52 +0000
Subject: [PATCH 42/47] fix: my_fileset: a set file that could not be opened is
 read by the next reload

---
 libmy/my_fileset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index e2e121b..04213f8 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -167,8 +167,12 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		/* not read yet: the next reload tries again */
+		fs->last_ino = 0;
+		fs->last_mtime = 0;
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From 3cecc81a9ab0816f039c69d122e3be0d52aa5ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 43/47] fix: reader: the iterators of a set file reader crashed
 (it had no source)

---
 dnstable/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/reader.c b/dnstable/reader.c
index ca39a15..0b2124e 100644
--- a/dnstable/reader.c
+++ b/dnstable/reader.c
@@ -53,6 +53,7 @@ dnstable_reader_init_setfile(const char *setfile)
 	mtbl_fileset_options_set_merge_func(fopt, dnstable_merge_func, NULL);
 	r->fs = mtbl_fileset_init(setfile, fopt);
 	mtbl_fileset_options_destroy(&fopt);
+	r->source = mtbl_fileset_source(r->fs);
 
 	return (r);
 }
-- 
2.43.0


From 34fbd68148e1b3e5e38fb6a09e6a6b1e7c6aa720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 44/47] dnstable/query, reader, query_mtbl: attachment points
 for loop contracts (DNSTABLE_CONTRACTS)

---
 dnstable/query.c      | 23 +++++++++++++++++++++--
 dnstable/query_mtbl.c |  6 +++++-
 dnstable/reader.c     |  6 +++++-
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 8637bfb..a8c32da 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -636,7 +636,14 @@ static dnstable_res
 increment_key(ubuf *key, size_t pos)
 {
 	assert(pos < ubuf_size(key));
-	for (uint8_t *ptr = ubuf_data(key) + pos; ptr >= ubuf_data(key); ptr--) {
+	for (uint8_t *ptr = ubuf_data(key) + pos; ptr >= ubuf_data(key); ptr--)
+#ifdef DNSTABLE_CONTRACTS
+VPL_increment_key
+#endif
+	{
+#ifdef DNSTABLE_CONTRACTS
+VPG_increment_key
+#endif
 		(*ptr)++;
 		if (*ptr != 0) {
 			return (dnstable_res_success);
@@ -1030,7 +1037,11 @@ query_iter_next(void *clos, struct dnstable_entry **ent)
 			return (dnstable_res_timeout);
 	}
 
-	for (;;) {
+	for (;;)
+#ifdef DNSTABLE_CONTRACTS
+VPL_query_iter_next
+#endif
+	{
 		const uint8_t *key, *val;
 		size_t len_key, len_val;
 
@@ -1537,7 +1548,15 @@ is_right_wildcard(struct dnstable_query *q)
 
 	/* Find the start of the last label, which may end in "\x01*" without being one */
 	while (pos + 3 < name->len)
+#ifdef DNSTABLE_CONTRACTS
+VPL_is_right_wildcard
+#endif
+	{
+#ifdef DNSTABLE_CONTRACTS
+VPG_is_right_wildcard
+#endif
 		pos += 1 + name->data[pos];
+	}
 
 	if (pos + 3 == name->len &&
 	    name->data[name->len - 3] == '\x01' &&
diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index e4717c3..b7da149 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -350,7 +350,11 @@ filter_iter_next(void *impl, const uint8_t **key, size_t *len_key,
 	mtbl_res res;
 	bool match = false;
 
-	for (;;) {
+	for (;;)
+#ifdef DNSTABLE_CONTRACTS
+VPL_filter_iter_next
+#endif
+	{
 		res = mtbl_iter_next(fit->it, key, len_key, val, len_val);
 		if (res != mtbl_res_success)
 			return res;
diff --git a/dnstable/reader.c b/dnstable/reader.c
index 0b2124e..84f99be 100644
--- a/dnstable/reader.c
+++ b/dnstable/reader.c
@@ -161,7 +161,11 @@ reader_iter_next(void *clos, struct dnstable_entry **ent)
 {
 	struct reader_iter *it = (struct reader_iter *) clos;
 
-	for (;;) {
+	for (;;)
+#ifdef DNSTABLE_CONTRACTS
+VPL_reader_iter_next
+#endif
+	{
 		const uint8_t *key, *val;
 		size_t len_key, len_val;
 
-- 
2.43.0


From ae6ee329ca69dcd3e4d675110afdb42b48c679b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:47 +0000
Subject: [PATCH 45/47] dnstable/query_mtbl: attachment point in
 remove_iter_next (DNSTABLE_CONTRACTS)

---
 dnstable/query_mtbl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index b7da149..3e6872b 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -674,6 +674,9 @@ remove_iter_next(void *impl, const uint8_t **key, size_t *len_key,
 	mtbl_res res;
 
 	do {
+#ifdef DNSTABLE_CONTRACTS
+VPG_remove_iter_next
+#endif
 		res = mtbl_iter_next(rit->it, key, len_key, val, len_val);
 		if (res != mtbl_res_success)
 			return res;
-- 
2.43.0


From 44707ba61e9e0d1d47ec7cd68226cbc6e3a46e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:35 +0000
Subject: [PATCH 46/47] fix: entry: times without an RFC 3339 date were printed
 wrong or aborted

A time after the year 9999 was printed with a wrong year, one above
INT64_MAX as a date before 1970, and one gmtime_r() cannot convert stopped
the process (RFC 3339 format) or was left out (text).  Such times are now
printed as the number of seconds.
---
 dnstable/entry.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index ff1ffac..dafdd7d 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -76,9 +76,22 @@ fmt_time(ubuf *u, uint64_t v)
 	char s[sizeof("4294967295-12-31 23:59:59 -0000")];
 	size_t len;
 
-	r = gmtime_r(&tm, &gm);
+	r = (v <= INT64_MAX) ? gmtime_r(&tm, &gm) : NULL;
 	if ((r != NULL) && ((len = strftime(s, sizeof(s), "%Y-%m-%d %H:%M:%S -0000", r)) > 0))
 		ubuf_append(u, (const uint8_t*) s, len);
+	else
+		append_json_value_int(u, v);	/* no such date: the number of seconds */
+}
+
+/* RFC 3339 has dates up to 9999-12-31T23:59:59Z; returns NULL for a later time. */
+static struct tm *
+rfc3339_gmtime(uint64_t v, struct tm *gm)
+{
+	time_t tm = v;
+
+	if (v > UINT64_C(253402300799))
+		return (NULL);
+	return (gmtime_r(&tm, gm));
 }
 
 static inline void
@@ -102,11 +115,13 @@ static void
 fmt_rfc3339_time(ubuf *u, uint64_t v)
 {
 	struct tm gm, *r;
-	time_t tm = v;
 	char ts[]="0000-00-00T00:00:00Z";
 
-	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	r = rfc3339_gmtime(v, &gm);
+	if (r == NULL) {
+		append_json_value_int(u, v);
+		return;
+	}
 
 	fmt_rfc3339(r, ts);
 
@@ -121,11 +136,13 @@ static void
 fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 {
 	struct tm gm, *r;
-	time_t tm = v;
 	char ts[] = "0000-00-00T00:00:00Z";
 
-	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	r = rfc3339_gmtime(v, &gm);
+	if (r == NULL) {
+		JSON_NUM_APPEND(u, v);
+		return;
+	}
 
 	fmt_rfc3339(r, ts);
 
-- 
2.43.0


From 43abe513f21dc468092f17f3124144266c227a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:07 +0000
Subject: [PATCH 47/47] dnstable/entry, dnstable-json: attachment points for
 loop contracts (DNSTABLE_CONTRACTS)

---
 dnstable/dnstable-json.h | 21 +++++++++++++++++++--
 dnstable/entry.c         | 24 ++++++++++++++++++++----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/dnstable/dnstable-json.h b/dnstable/dnstable-json.h
index 588e10b..09b3078 100644
--- a/dnstable/dnstable-json.h
+++ b/dnstable/dnstable-json.h
@@ -32,16 +32,26 @@ vnum_to_str(uint64_t num, char *ptr) {
 	do {
 		ndigits++;
 		tmp /= 10;
+#ifdef DNSTABLE_CONTRACTS
+VPG_vnum_to_str_count
+#endif
 	} while (tmp != 0);
 
 	left = ndigits;
 	ndx = left - 1;
-	while(left > 0) {
+	while(left > 0)
+#ifdef DNSTABLE_CONTRACTS
+VPL_vnum_to_str
+#endif
+	{
 		int digit = num % 10;
 		ptr[ndx] = '0' + digit;
 		--ndx;
 		--left;
 		num = num / 10;
+#ifdef DNSTABLE_CONTRACTS
+VPG_vnum_to_str_digit
+#endif
 	}
 
 	ptr[ndigits] = '\0';
@@ -67,7 +77,14 @@ append_json_string_escaped(ubuf *u, const char *str, size_t len) {
 	scan = scan_last = str;
 	scan_end = str + len;
 
-	while (scan < scan_end) {
+	while (scan < scan_end)
+#ifdef DNSTABLE_CONTRACTS
+VPL_append_json_string_escaped
+#endif
+	{
+#ifdef DNSTABLE_CONTRACTS
+VPG_append_json_string_escaped
+#endif
 		char esc = 0;
 
 		switch (*(const unsigned char*) scan) {
diff --git a/dnstable/entry.c b/dnstable/entry.c
index dafdd7d..ce00b27 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -161,7 +161,11 @@ fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 static void
 fmt_hex_str(ubuf *u, uint8_t *s, size_t len_s)
 {
-	for (size_t c = 0; c < len_s; c++) {
+	for (size_t c = 0; c < len_s; c++)
+#ifdef DNSTABLE_CONTRACTS
+VPL_fmt_hex_str
+#endif
+	{
 		char hexbuf[3];
 		snprintf(hexbuf, sizeof(hexbuf), "%02x", s[c]);
 		ubuf_append(u, (const uint8_t*) hexbuf, 2);
@@ -231,7 +235,11 @@ fmt_rrtypes_union_json(ubuf *u, const struct dnstable_entry *e)
 			const char *_fail = "<failure>";
 			JSON_STR_APPEND(u, _fail);
 		} else {
-			for (int n = 0; n < n_rrtypes; n++) {
+			for (int n = 0; n < n_rrtypes; n++)
+#ifdef DNSTABLE_CONTRACTS
+VPL_fmt_rrtypes_union_json
+#endif
+			{
 				fmt_rrtype_json(u, rrtype_set.rrtypes[n]);
 				JSON_ARR_DELIMIT(u, n, n_rrtypes);
 			}
@@ -419,7 +427,11 @@ dnstable_entry_to_json_fmt(const struct dnstable_entry *e,
 		JSON_ARR_START(u);
 
 		const size_t n_rdatas = rdata_vec_size(e->rdatas);
-		for (size_t i = 0; i < n_rdatas; i++) {
+		for (size_t i = 0; i < n_rdatas; i++)
+#ifdef DNSTABLE_CONTRACTS
+VPL_dnstable_entry_to_json_fmt_rdata
+#endif
+		{
 			wdns_rdata_t *rdata = rdata_vec_value(e->rdatas, i);
 			char *data = wdns_rdata_to_str(rdata->data, rdata->len,
 						       e->rrtype, WDNS_CLASS_IN);
@@ -435,7 +447,11 @@ dnstable_entry_to_json_fmt(const struct dnstable_entry *e,
 			JSON_DECL_VALUE(u, "rdata_raw");
 			JSON_ARR_START(u);
 
-			for (size_t i = 0; i < n_rdatas; i++) {
+			for (size_t i = 0; i < n_rdatas; i++)
+#ifdef DNSTABLE_CONTRACTS
+VPL_dnstable_entry_to_json_fmt_raw
+#endif
+			{
 				wdns_rdata_t *rdata = rdata_vec_value(e->rdatas, i);
 				ubuf *rbuf = ubuf_init(2 * rdata->len + 1);
 				uint8_t *rbuf_as_str = NULL;
-- 
2.43.0

