From 0a3c5637de83834a37bbbf702a47bd10e2a05026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 01/59] fix: give readers opened on a set file a source, so
 section listings do not crash

---
 dnstable/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/reader.c b/dnstable/reader.c
index ca39a15..0b2124e 100644
--- a/dnstable/reader.c
+++ b/dnstable/reader.c
@@ -53,6 +53,7 @@ dnstable_reader_init_setfile(const char *setfile)
 	mtbl_fileset_options_set_merge_func(fopt, dnstable_merge_func, NULL);
 	r->fs = mtbl_fileset_init(setfile, fopt);
 	mtbl_fileset_options_destroy(&fopt);
+	r->source = mtbl_fileset_source(r->fs);
 
 	return (r);
 }
-- 
2.43.0


From f61ecb05ce6baf40e50cc581fb6aa84d71c4b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 02/59] fix: do not read past the end of truncated triplet and
 pair values

---
 dnstable/triplet.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/dnstable/triplet.c b/dnstable/triplet.c
index ebb23d0..89971fd 100644
--- a/dnstable/triplet.c
+++ b/dnstable/triplet.c
@@ -16,6 +16,25 @@
 
 #include "dnstable-private.h"
 
+/*
+ * Decode a varint from at most *len bytes at *buf, advancing past it.
+ * Returns false if the varint is truncated or overlong.
+ */
+static bool
+unpack_varint64(const uint8_t **buf, size_t *len, uint64_t *val)
+{
+	size_t n;
+
+	if (mtbl_varint_length_packed(*buf, *len) == 0)
+		return (false);
+	n = mtbl_varint_decode64(*buf, val);
+	if (n == 0)
+		return (false);
+	*buf += n;
+	*len -= n;
+	return (true);
+}
+
 size_t
 triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 {
@@ -29,11 +48,10 @@ triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 dnstable_res
 triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val3);
-	if (bytes_read == len_buf)
+	if (unpack_varint64(&buf, &len_buf, val1) &&
+	    unpack_varint64(&buf, &len_buf, val2) &&
+	    unpack_varint64(&buf, &len_buf, val3) &&
+	    len_buf == 0)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
 }
@@ -50,10 +68,9 @@ pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
 dnstable_res
 pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	if (bytes_read == len_buf)
+	if (unpack_varint64(&buf, &len_buf, val1) &&
+	    unpack_varint64(&buf, &len_buf, val2) &&
+	    len_buf == 0)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
 }
-- 
2.43.0


From b3aabab1066dfc628776f848949e7ca88890e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 03/59] fix: do not read past truncated entry keys and values
 or accept over-long names

---
 dnstable/entry.c | 63 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20ecf04..a7391c9 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -625,6 +625,37 @@ decode_val_triplet(struct dnstable_entry *e, const uint8_t *val, size_t len_val)
 	return (res);
 }
 
+/*
+ * Decode a 32-bit varint at *p, not reading at or beyond end, and advance *p past it.
+ */
+static dnstable_res
+decode_varint32(const uint8_t **p, const uint8_t *end, uint32_t *val)
+{
+	size_t len;
+
+	if (mtbl_varint_length_packed(*p, end - *p) == 0)
+		return (dnstable_res_failure);
+	len = mtbl_varint_decode32(*p, val);
+	if (len == 0)
+		return (dnstable_res_failure);
+	*p += len;
+	return (dnstable_res_success);
+}
+
+/*
+ * Find the length of the name at p, not reading at or beyond end. Names longer than the
+ * protocol maximum do not fit the buffers used for decoding and rendering.
+ */
+static dnstable_res
+decode_name_len(const uint8_t *p, const uint8_t *end, size_t *len)
+{
+	if (p >= end || wdns_len_uname(p, end, len) != wdns_res_success)
+		return (dnstable_res_failure);
+	if (*len > WDNS_MAXLEN_NAME)
+		return (dnstable_res_failure);
+	return (dnstable_res_success);
+}
+
 static dnstable_res
 decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 {
@@ -634,7 +665,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	size_t len_name;
 
 	/* rrname */
-	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
+	if (decode_name_len(p, end, &len_name) != dnstable_res_success)
 		return (dnstable_res_failure);
 	if (wdns_reverse_name(p, len_name, name) != wdns_res_success)
 		return (dnstable_res_failure);
@@ -646,12 +677,11 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	if (decode_varint32(&p, end, &e->rrtype) != dnstable_res_success)
 		return (dnstable_res_failure);
 
 	/* bailiwick */
-	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
+	if (decode_name_len(p, end, &len_name) != dnstable_res_success)
 		return (dnstable_res_failure);
 	if (wdns_reverse_name(p, len_name, name) != wdns_res_success)
 		return (dnstable_res_failure);
@@ -667,11 +697,12 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		wdns_rdata_t *rdata;
 		uint32_t len_rdata;
 
-		p += mtbl_varint_decode32(p, &len_rdata);
+		if (decode_varint32(&p, end, &len_rdata) != dnstable_res_success)
+			return (dnstable_res_failure);
 		if (len_rdata > USHRT_MAX)
 			return (dnstable_res_failure);
 
-		if (p + len_rdata > end)
+		if (len_rdata > end - p)
 			return (dnstable_res_failure);
 
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_rdata);
@@ -736,17 +767,16 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 
 	/* data */
 	data = p;
-	p += len_data;
-	if (p > end)
+	if (len_data > end - p)
 		return (dnstable_res_failure);
+	p += len_data;
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	if (decode_varint32(&p, end, &e->rrtype) != dnstable_res_success)
 		return (dnstable_res_failure);
 
 	/* rrname */
-	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
+	if (decode_name_len(p, end, &len_name) != dnstable_res_success)
 		return (dnstable_res_failure);
 	if (wdns_reverse_name(p, len_name, name) != wdns_res_success)
 		return (dnstable_res_failure);
@@ -797,17 +827,16 @@ decode_version(struct dnstable_entry *e,
 	       const uint8_t *key, size_t len_key,
 	       const uint8_t *val, size_t len_val)
 {
-	size_t len;
+	const uint8_t *end = val + len_val;
 
-	if (len_key != 1 || len_val == 0)
+	if (len_key != 1)
 		return (dnstable_res_failure);
 
 	e->v_type = key[0];
-	len = mtbl_varint_decode32(val, &e->version);
-	if (len == len_val)
-		return (dnstable_res_success);
+	if (decode_varint32(&val, end, &e->version) != dnstable_res_success || val != end)
+		return (dnstable_res_failure);
 
-	return (dnstable_res_failure);
+	return (dnstable_res_success);
 }
 
 struct dnstable_entry *
-- 
2.43.0


From 814390912acc2c62b3f9e90611d2e6663f65a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 04/59] fix: refuse name index keys which are not exactly one
 domain name

---
 dnstable/entry.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index a7391c9..9393282 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -719,6 +719,11 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 static dnstable_res
 decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (decode_name_len(buf, buf + len_buf, &len_name) != dnstable_res_success || len_name != len_buf)
+		return (dnstable_res_failure);
+
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	memcpy(e->name.data, buf, len_buf);
@@ -732,6 +737,11 @@ decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_b
 static dnstable_res
 decode_rdata_name_rev(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (decode_name_len(buf, buf + len_buf, &len_name) != dnstable_res_success || len_name != len_buf)
+		return (dnstable_res_failure);
+
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	if (wdns_reverse_name(buf, len_buf, e->name.data) != wdns_res_success)
-- 
2.43.0


From 871c139dfc45936a052a079590ace2529fc2e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 05/59] fix: refuse an rdata index one past the end

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 9393282..2ff1151 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1036,7 +1036,7 @@ dnstable_entry_get_rdata(struct dnstable_entry *e, size_t i,
 	if (e->e_type == DNSTABLE_ENTRY_TYPE_RRSET ||
 	    e->e_type == DNSTABLE_ENTRY_TYPE_RDATA)
 	{
-		if (i > rdata_vec_size(e->rdatas))
+		if (i >= rdata_vec_size(e->rdatas))
 			return (dnstable_res_failure);
 		*rdata = rdata_vec_value(e->rdatas, i)->data;
 		*len_rdata = rdata_vec_value(e->rdatas, i)->len;
-- 
2.43.0


From cdddc164fbec521d1cb197cf9ab9d4969a9f2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 06/59] fix: release the keys saved by remove iterators

---
 dnstable/query_mtbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index 951af15..e4717c3 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -727,6 +727,8 @@ remove_iter_free(void *impl)
 		mtbl_iter_destroy(&rit->entries[i].it);
 	}
 	free(rit->entries);
+	free(rit->key);
+	free(rit->key2);
 
 	free(rit);
 }
-- 
2.43.0


From dfacac1ab20e3f94051a6a9b7847aa22c78b4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 07/59] fix: do not read unaligned RRtype unions through a
 uint16_t pointer

---
 dnstable/entry.c | 8 ++++++--
 dnstable/merge.c | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 2ff1151..22ad197 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1145,7 +1145,8 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 		rrtype_set->rrtypes[0] = (uint16_t)*rrtype_map;
 		return 1;
 	} else if (rrtype_map_size == 2) {
-		rrtype_set->rrtypes[0] = (uint16_t)le16toh(*(uint16_t*)rrtype_map);
+		memcpy(&rrtype_set->rrtypes[0], rrtype_map, sizeof(uint16_t));
+		rrtype_set->rrtypes[0] = le16toh(rrtype_set->rrtypes[0]);
 		return 1;
 	}
 
@@ -1212,7 +1213,10 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 	} else if (rrtype_map_size == (signed)1) {
 		return (rrtype == (uint16_t)*rrtype_map);
 	} else if (rrtype_map_size == (signed)2) {
-		return (rrtype == (uint16_t)le16toh(*(uint16_t*)rrtype_map));
+		uint16_t only_rrtype;
+
+		memcpy(&only_rrtype, rrtype_map, sizeof(only_rrtype));
+		return (rrtype == le16toh(only_rrtype));
 	}
 
 	/* must be a bitmap */
diff --git a/dnstable/merge.c b/dnstable/merge.c
index a0b63f1..be15709 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -96,8 +96,10 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 		n_rrtypes1 = 1;
 		n_rrtypes2 = 1;
 	} else if (len_val0 == 2 && len_val1 == 2) {
-		rrtype_set_1.rrtypes[0] = (uint16_t)le16toh(*(uint16_t*)val0);
-		rrtype_set_2.rrtypes[0] = (uint16_t)le16toh(*(uint16_t*)val1);
+		memcpy(&rrtype_set_1.rrtypes[0], val0, sizeof(uint16_t));
+		memcpy(&rrtype_set_2.rrtypes[0], val1, sizeof(uint16_t));
+		rrtype_set_1.rrtypes[0] = le16toh(rrtype_set_1.rrtypes[0]);
+		rrtype_set_2.rrtypes[0] = le16toh(rrtype_set_2.rrtypes[0]);
 		n_rrtypes1 = 1;
 		n_rrtypes2 = 1;
 	} else {
-- 
2.43.0


From 0e0b1fe834eb640d1a55a2d445470425501daa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 08/59] fix: do not test an RRtype bit one byte past its window
 block

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 22ad197..5348cd7 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1243,7 +1243,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		}
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte > block_len)
+		if (byte >= block_len)
 			return false;
 		return (rrtype_map[byte] & net_order_bit);
 	}
-- 
2.43.0


From 0d33acc01f4690eddbe18d4085b0af24bc589124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 09/59] fix: treat a corrupt RRtype union as corrupt wherever
 the corruption lies

---
 dnstable/entry.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 5348cd7..015a2d3 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1168,7 +1168,7 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 		rrtype_map_size -= 2;
 		rrtype_map += 2;
 
-		if (block_len < 1 || rrtype_map_size < block_len)
+		if (block_len < 1 || block_len > 32 || rrtype_map_size < block_len)
 			return -1; /* corrupt encoding */
 
 		uint16_t lo = 0;
@@ -1228,24 +1228,30 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 	uint8_t bit = offset % 8;
 	uint8_t net_order_bit = 0x80 >> bit;
 
+	bool present = false;
+	bool saw_a_block = false;
+	uint8_t prev_window_block = 0;
+
 	while (rrtype_map_size >= 2) {
 		uint8_t window_block = *rrtype_map;
 		uint8_t block_len = *(rrtype_map + 1);
 		rrtype_map_size -= 2;
 		rrtype_map += 2;
-		if (rrtype_map_size < block_len)
-			return true; /* corrupt encoding; treat as if all bits are present */
 
-		if (window_block != want_window) {
-			rrtype_map_size -= block_len;
-			rrtype_map += block_len;
-			continue;
-		}
+		/* corrupt encoding, as in rrtype_union_unpack(); treat as if all bits are present */
+		if (saw_a_block && window_block <= prev_window_block)
+			return true;
+		prev_window_block = window_block;
+		saw_a_block = true;
+		if (block_len < 1 || block_len > 32 || rrtype_map_size < block_len)
+			return true;
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte >= block_len)
-			return false;
-		return (rrtype_map[byte] & net_order_bit);
+		if (window_block == want_window && byte < block_len)
+			present = (rrtype_map[byte] & net_order_bit);
+
+		rrtype_map_size -= block_len;
+		rrtype_map += block_len;
 	}
 
 	if (rrtype_map_size != 0) /* got trailing data that's not a valid additional block to unpack, an error */
@@ -1255,7 +1261,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 	 * Ran out of blocks to check; might be that the window blocks
 	 * only covered rrtypes 1 to 255 and checking for rrtype 256.
 	 */
-	return false;
+	return present;
 }
 
 bool
-- 
2.43.0


From 3e5d322e1c8221bdf9b60237e09faac8e208a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 10/59] fix: let the union of RRtype sets hold every RRtype

---
 dnstable/dnstable-private.h | 2 +-
 dnstable/merge.c            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index 142fc97..1030f4c 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -118,7 +118,7 @@ dnstable_query_iter_fileset(struct dnstable_query *, struct mtbl_fileset *);
  * possible RRtypes.  As an example, "boxun.com.cn." in 2017 had 111
  * unique RRtypes defined, many not standardized.
  */
-#define MAX_RRTYPES_MAPPABLE 65535
+#define MAX_RRTYPES_MAPPABLE 65536
 
 typedef struct {
 	uint16_t rrtypes[MAX_RRTYPES_MAPPABLE];
diff --git a/dnstable/merge.c b/dnstable/merge.c
index be15709..71e94cd 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -122,7 +122,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	memset(bitmap, 0, sizeof(bitmap));
 	uint8_t window_block = 0;
 	uint8_t	bitmap_len = 0;
-	uint8_t result_data[65536 / 8];
+	uint8_t result_data[256 * (2 + 32)];	/* 256 window blocks, each with header */
 	uint16_t result_index = 0;
 
 	for (int n = 0; n < count_rrtypes; n++) {
@@ -133,7 +133,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       < sizeof(result_data)/sizeof(&result_data[0]));
+				       <= sizeof(result_data)/sizeof(result_data[0]));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -162,7 +162,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       < sizeof(result_data)/sizeof(&result_data[0]));
+		       <= sizeof(result_data)/sizeof(result_data[0]));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From c2586148e3e166a3c8d0872bc3f009823400cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 11/59] fix: do not read past truncated keys in the RR type and
 bailiwick filters

---
 dnstable/query.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index eb74967..3e5b3c1 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -769,7 +769,8 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 		assert(0);
 	}
 
-	if (mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+	if (mtbl_varint_length_packed(&key[len+1], len_key - (len+1)) == 0 ||
+	    mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
 		return (mtbl_res_success);
 
 	if (rrtype == it->query->rrtype)
@@ -805,7 +806,9 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	mtbl_varint_decode32(&key[len+1], &rrtype);
+	if (mtbl_varint_length_packed(&key[len+1], len_key - (len+1)) == 0 ||
+	    mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+		return (mtbl_res_success);
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -833,6 +836,8 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len ++;
+	if (mtbl_varint_length_packed(&key[len], len_key - len) == 0)
+		return (mtbl_res_success);
 	len += mtbl_varint_decode32(&key[len], &rrtype);
 	if (len >= len_key)
 		return (mtbl_res_success);
-- 
2.43.0


From 3f28a611ed3e5b499ca2af249e642a35b458b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 12/59] fix: do not read past the end of short keys in IP
 lookups

---
 dnstable/query.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 3e5b3c1..13e2d46 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1142,7 +1142,8 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		add_rrtype_to_key(seek_key, it->query->rrtype);
 
 		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
-					key, ubuf_size(seek_key));
+					key, len_key < ubuf_size(seek_key) ?
+					     len_key : ubuf_size(seek_key));
 		if (ret < 0) {
 			/*
 			 * If the start key sorts before the current key, the
@@ -1214,7 +1215,12 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		}
 
 		for (;;) {
-			uint8_t llen = key[ubuf_size(seek_key)];
+			uint8_t llen;
+
+			/* The key ends after complete labels. Move to next key. */
+			if (ubuf_size(seek_key) >= len_key)
+				return (mtbl_res_success);
+			llen = key[ubuf_size(seek_key)];
 
 			/*
 			 * Note: the ENTRY_TYPE_RDATA has 5 fields. We enter
-- 
2.43.0


From 46bc770aad6427f3a55da8c3b0ad6534c3cbcef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 13/59] fix: count down the offset in the iterator, leaving the
 query reusable

---
 dnstable/query.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 13e2d46..0f74878 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -118,6 +118,7 @@ struct query_iter {
 		uint64_t fill_merged;
 		uint64_t fill_files;
 	} stats;
+	uint64_t		offset;		/* results still to be skipped */
 };
 
 static void
@@ -947,12 +948,11 @@ filter_offset(void *user, struct mtbl_iter *seek_iter,
 	      bool *match)
 {
 	struct query_iter *it = user;
-	struct dnstable_query *q = it->query;
 
 	*match = true;
-	if (q->offset > 0) {
+	if (it->offset > 0) {
 		*match = false;
-		q->offset--;
+		it->offset--;
 	}
 	return (mtbl_res_success);
 }
@@ -1807,6 +1807,7 @@ dnstable_query_iter_common(struct query_iter *it)
 
 	/* Seeing if we've hit the user supplied offset is always the first check */
 	if (q->offset > 0) {
+		it->offset = q->offset;
 		FILTER_SET(filter_offset, source);
 	}
 
-- 
2.43.0


From 2972ac4049130225b592878460bb1b0521b63834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 14/59] fix: compute IP prefix bounds without out-of-range
 shifts, so /0 covers every address

---
 libmy/ip_arith.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..34043f7 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(~(uint32_t)((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32((uint32_t)((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
@@ -65,12 +65,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(prefix_len == 0 ? 0 : UINT64_MAX << (64 - prefix_len));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(prefix_len == 0 ? 0 : UINT64_MAX << (64 - prefix_len));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +87,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(prefix_len == 0 ? UINT64_MAX : UINT64_MAX >> prefix_len);
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(prefix_len == 0 ? UINT64_MAX : UINT64_MAX >> prefix_len);
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From 07361a4e24ef3d135fdf853db2babe912704d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 15/59] fix: refuse negative IP prefix lengths

---
 dnstable/query.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 0f74878..3a7ed03 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -283,7 +283,7 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 	uint8_t ip[16];
 	uint8_t len_ip;
 	char *address, *prefix_length;
-	char *saveptr, *endptr;
+	char *saveptr = NULL, *endptr;
 	long plen;
 
 	s = my_strdup(data);
@@ -296,7 +296,7 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 
 	errno = 0;
 	plen = strtol(prefix_length, &endptr, 10);
-	if (errno != 0 || *endptr != '\0') goto out;
+	if (errno != 0 || endptr == prefix_length || *endptr != '\0' || plen < 0) goto out;
 
 	if ((len_ip == 4 && plen > 32) ||
 	    (len_ip == 16 && plen > 128))
-- 
2.43.0


From 63fae6e53a312cbba574197cb100817163b3ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 16/59] fix: keep a query's previous search parameter when a
 new one is rejected

---
 dnstable/query.c | 54 +++++++++++++++++++++++++++++++++---------------
 libmy/ip_arith.h |  4 ++--
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 3a7ed03..5663fb8 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -131,16 +131,18 @@ query_set_err(struct dnstable_query *q, const char *err)
 static dnstable_res
 query_load_name(struct dnstable_query *q, wdns_name_t *name, const char *s_name, bool case_sensitive)
 {
-	my_free(name->data);
-	name->len = 0;
-	if (s_name == NULL)
-		return (dnstable_res_success);
-	if (wdns_str_to_name_case(s_name, name) != wdns_res_success) {
-		query_set_err(q, "wdns_str_to_name() failed");
-		return (dnstable_res_failure);
+	wdns_name_t new_name = { .data = NULL };
+
+	if (s_name != NULL) {
+		if (wdns_str_to_name_case(s_name, &new_name) != wdns_res_success) {
+			query_set_err(q, "wdns_str_to_name() failed");
+			return (dnstable_res_failure);
+		}
+		if (!case_sensitive)
+			wdns_downcase_name(&new_name);
 	}
-	if (!case_sensitive)
-		wdns_downcase_name(name);
+	my_free(name->data);
+	*name = new_name;
 	return (dnstable_res_success);
 }
 
@@ -239,10 +241,17 @@ query_set_data_rdata_name(struct dnstable_query *q, const char *s_name)
 static dnstable_res
 query_set_data_rdata_raw(struct dnstable_query *q, const char *data)
 {
+	uint8_t *rdata = NULL;
+	size_t len_rdata = 0;
+
+	if (data != NULL && !hex_decode(data, &rdata, &len_rdata)) {
+		query_set_err(q, "unable to parse hexadecimal string");
+		return (dnstable_res_failure);
+	}
 	my_free(q->rdata);
-	if (data == NULL)
-		return (dnstable_res_success);
-	return hex_decode(data, &q->rdata, &q->len_rdata);
+	q->rdata = rdata;
+	q->len_rdata = len_rdata;
+	return (dnstable_res_success);
 }
 
 static dnstable_res
@@ -251,18 +260,24 @@ query_set_data_rdata_ip_range(struct dnstable_query *q, const char *data)
 	dnstable_res res = dnstable_res_failure;
 	char *s = my_strdup(data);
 	char *addr1, *addr2;
+	uint8_t ip1[16], ip2[16];
+	uint8_t len_ip1, len_ip2;
 	char *saveptr = NULL;
 
 	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL) goto out;
 	if ((addr2 = strtok_r(NULL, "-", &saveptr)) == NULL) goto out;
 	if (strtok_r(NULL, "-", &saveptr) != NULL) goto out;
 
-	if (!query_load_address(q, addr1, q->ip1, &q->len_ip1)) goto out;
-	if (!query_load_address(q, addr2, q->ip2, &q->len_ip2)) goto out;
-	if (q->len_ip1 != q->len_ip2) {
+	if (!query_load_address(q, addr1, ip1, &len_ip1)) goto out;
+	if (!query_load_address(q, addr2, ip2, &len_ip2)) goto out;
+	if (len_ip1 != len_ip2) {
 		query_set_err(q, "address family mismatch in IP range");
 		goto out;
 	}
+	memcpy(q->ip1, ip1, sizeof(ip1));
+	memcpy(q->ip2, ip2, sizeof(ip2));
+	q->len_ip1 = len_ip1;
+	q->len_ip2 = len_ip2;
 	q->do_rrtype = true;
 	if (q->len_ip1 == 4) {
 		q->rrtype = WDNS_TYPE_A;
@@ -335,9 +350,14 @@ out:
 static dnstable_res
 query_set_data_rdata_ip_address(struct dnstable_query *q, const char *data)
 {
-	q->len_ip2 = 0;
-	if (!query_load_address(q, data, q->ip1, &q->len_ip1))
+	uint8_t ip[16];
+	uint8_t len_ip;
+
+	if (!query_load_address(q, data, ip, &len_ip))
 		return (dnstable_res_failure);
+	memcpy(q->ip1, ip, sizeof(ip));
+	q->len_ip1 = len_ip;
+	q->len_ip2 = 0;
 	q->do_rrtype = true;
 	if (q->len_ip1 == 4)
 		q->rrtype = WDNS_TYPE_A;
diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index 34043f7..e77c06b 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -87,12 +87,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(prefix_len == 0 ? UINT64_MAX : UINT64_MAX >> prefix_len);
+		mask[0] = htobe64(UINT64_MAX >> prefix_len);
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(prefix_len == 0 ? UINT64_MAX : UINT64_MAX >> prefix_len);
+		mask[1] = htobe64(UINT64_MAX >> prefix_len);
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From df53d815313917cc75b4891a9967adcd1736a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 17/59] fix: set the error text for every rejected search
 parameter, and clear the version type on NULL

---
 dnstable/query.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 5663fb8..faf52b2 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -264,9 +264,13 @@ query_set_data_rdata_ip_range(struct dnstable_query *q, const char *data)
 	uint8_t len_ip1, len_ip2;
 	char *saveptr = NULL;
 
-	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL) goto out;
-	if ((addr2 = strtok_r(NULL, "-", &saveptr)) == NULL) goto out;
-	if (strtok_r(NULL, "-", &saveptr) != NULL) goto out;
+	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL ||
+	    (addr2 = strtok_r(NULL, "-", &saveptr)) == NULL ||
+	    strtok_r(NULL, "-", &saveptr) != NULL)
+	{
+		query_set_err(q, "unable to parse IP range");
+		goto out;
+	}
 
 	if (!query_load_address(q, addr1, ip1, &len_ip1)) goto out;
 	if (!query_load_address(q, addr2, ip2, &len_ip2)) goto out;
@@ -390,12 +394,16 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 	dnstable_res res;
 	dnstable_entry_type type;
 
-	if (data == NULL)
+	if (data == NULL) {
+		q->has_v_type = false;
 		return (dnstable_res_success);
+	}
 
 	res = dnstable_entry_type_from_string(&type, data);
-	if (res != dnstable_res_success)
+	if (res != dnstable_res_success) {
+		query_set_err(q, "unknown entry type");
 		return res;
+	}
 
 	switch(type) {
 	case ENTRY_TYPE_RRSET:
@@ -406,6 +414,7 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 		q->v_type = (uint8_t)type;
 		return (dnstable_res_success);
 	default:
+		query_set_err(q, "entry type has no version");
 		return (dnstable_res_failure);
 	}
 }
@@ -424,6 +433,7 @@ dnstable_query_set_data(struct dnstable_query *q, const char *data)
 	} else if (q->q_type == DNSTABLE_QUERY_TYPE_VERSION) {
 		return query_set_version_type(q, data);
 	} else {
+		query_set_err(q, "query type has no search parameter");
 		return (dnstable_res_failure);
 	}
 }
-- 
2.43.0


From 7f7bb929670c851e85d47def9075add436d21c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 18/59] fix: accept source info queries, which are implemented
 and documented

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index faf52b2..85d1d39 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -169,6 +169,7 @@ dnstable_query_init(dnstable_query_type q_type)
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_IP ||
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_RAW ||
 	       q_type == DNSTABLE_QUERY_TYPE_TIME_RANGE ||
+	       q_type == DNSTABLE_QUERY_TYPE_SOURCE_INFO ||
 	       q_type == DNSTABLE_QUERY_TYPE_VERSION);
 	struct dnstable_query *q = my_calloc(1, sizeof(*q));
 	q->q_type = q_type;
-- 
2.43.0


From 3654b8ed587e10717f28c058c0140e97a19b9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 19/59] fix: take a trailing wildcard only from a whole label

---
 dnstable/query.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 85d1d39..16fdd78 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1524,11 +1524,19 @@ static inline bool
 is_right_wildcard(struct dnstable_query *q)
 {
 	const wdns_name_t *name = &q->name;
+	size_t pos = 0;
 
-	if (name->len >= 3 &&
-	    name->data[name->len - 3] == '\x01' &&
-	   (name->data[name->len - 2] == '*' || name->data[name->len - 2] == '+')) {
-		q->dq_wildplus = name->data[name->len - 2] == '+';
+	if (name->len < 3)
+		return (false);
+
+	/* Find the last label. Its length octet may also occur inside a label. */
+	while (pos + 3 < name->len)
+		pos += name->data[pos] + 1;
+
+	if (pos + 3 == name->len &&
+	    name->data[pos] == '\x01' &&
+	   (name->data[pos + 1] == '*' || name->data[pos + 1] == '+')) {
+		q->dq_wildplus = name->data[pos + 1] == '+';
 		return (true);
 	}
 	return (false);
-- 
2.43.0


From db31c69e7a81c039cdd863d2f84a2b389f2ecc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 20/59] fix: count each file once in the statistics of
 unaggregated lookups

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 16fdd78..2f072df 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -2097,6 +2097,7 @@ dnstable_query_iter_fileset(struct dnstable_query *q, struct mtbl_fileset *fs)
 	 * above applies to this unaggregated fileset.
 	 */
 	if (!q->aggregated) {
+		it->stats.fileset_files = 0;	/* counted again below */
 		mtbl_fileset_options_set_merge_func(fopt, NULL, NULL);
 		mtbl_fileset_options_set_dupsort_func(fopt, dnstable_dupsort_func, NULL);
 		it->fs_no_merge = mtbl_fileset_dup(fs, fopt);
-- 
2.43.0


From f16de7152140c8f6ad4f8426e16400a4a5190177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 21/59] fix: derive the RR type of IP lookups from the address,
 so setting the RR type cannot abort them

---
 dnstable/query.c | 58 ++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 2f072df..edc220a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -119,6 +119,7 @@ struct query_iter {
 		uint64_t fill_files;
 	} stats;
 	uint64_t		offset;		/* results still to be skipped */
+	uint32_t		rrtype;		/* requested, or implied by an IP address */
 };
 
 static void
@@ -283,12 +284,6 @@ query_set_data_rdata_ip_range(struct dnstable_query *q, const char *data)
 	memcpy(q->ip2, ip2, sizeof(ip2));
 	q->len_ip1 = len_ip1;
 	q->len_ip2 = len_ip2;
-	q->do_rrtype = true;
-	if (q->len_ip1 == 4) {
-		q->rrtype = WDNS_TYPE_A;
-	} else if (q->len_ip1 == 16) {
-		q->rrtype = WDNS_TYPE_AAAA;
-	}
 	res = dnstable_res_success;
 out:
 	my_free(s);
@@ -326,18 +321,12 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 	}
 
 	if (len_ip == 4) {
-		q->do_rrtype = true;
-		q->rrtype = WDNS_TYPE_A;
-
 		q->len_ip1 = len_ip;
 		q->len_ip2 = len_ip;
 		ip4_lower(ip, plen, q->ip1);
 		ip4_upper(ip, plen, q->ip2);
 		res = dnstable_res_success;
 	} else if (len_ip == 16) {
-		q->do_rrtype = true;
-		q->rrtype = WDNS_TYPE_AAAA;
-
 		q->len_ip1 = len_ip;
 		q->len_ip2 = len_ip;
 		ip6_lower(ip, plen, q->ip1);
@@ -363,11 +352,6 @@ query_set_data_rdata_ip_address(struct dnstable_query *q, const char *data)
 	memcpy(q->ip1, ip, sizeof(ip));
 	q->len_ip1 = len_ip;
 	q->len_ip2 = 0;
-	q->do_rrtype = true;
-	if (q->len_ip1 == 4)
-		q->rrtype = WDNS_TYPE_A;
-	else if (q->len_ip1 == 16)
-		q->rrtype = WDNS_TYPE_AAAA;
 	return (dnstable_res_success);
 }
 
@@ -545,6 +529,13 @@ dnstable_query_set_filter_parameter(struct dnstable_query *q,
 	}
 }
 
+/* The RR type whose rdata is the address of an IP query. */
+static uint16_t
+query_ip_rrtype(const struct dnstable_query *q)
+{
+	return (q->len_ip1 == 4 ? WDNS_TYPE_A : WDNS_TYPE_AAAA);
+}
+
 /*
  * Run a series of optionally-set query filters against an entry in this order:
  * rrtype matching, time-fencing, and finally bailiwick verification for rrsets.
@@ -555,7 +546,8 @@ dnstable_query_filter(struct dnstable_query *q, struct dnstable_entry *e, bool *
 	dnstable_res res;
 	uint16_t rrtype;
 
-	if (q->do_rrtype || (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_NAME)) {
+	if (q->do_rrtype || (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_NAME) ||
+	    (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_IP)) {
 		res = dnstable_entry_get_rrtype(e, &rrtype);
 		if (res != dnstable_res_success)
 			return (res);
@@ -573,6 +565,10 @@ dnstable_query_filter(struct dnstable_query *q, struct dnstable_entry *e, bool *
 		}
 	}
 
+	if (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_IP && q->len_ip1 != 0 &&
+	    rrtype != query_ip_rrtype(q))
+		goto fail;
+
 	if (q->do_time_first_before || q->do_time_first_after) {
 		uint64_t time_first;
 		res = dnstable_entry_get_time_first(e, &time_first);
@@ -805,7 +801,7 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 	    mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
 		return (mtbl_res_success);
 
-	if (rrtype == it->query->rrtype)
+	if (rrtype == it->rrtype)
 		*match = true;
 
 	return(mtbl_res_success);
@@ -1149,7 +1145,7 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		}
 		seek_key = it->key2;
 		ubuf_clip(seek_key, 0);
-		size_t rrtype_len = mtbl_varint_length(it->query->rrtype);
+		size_t rrtype_len = mtbl_varint_length(it->rrtype);
 		/* Prefix = ENTRY_TYPE_RDATA byte + rdata (no rrtype) */
 		size_t key_prefix_len = ubuf_size(it->key) - rrtype_len;
 
@@ -1164,13 +1160,13 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 			memset(ubuf_data(seek_key) + len_key, 0,
 			       key_prefix_len - len_key);
 			ubuf_advance(seek_key, key_prefix_len - len_key);
-			add_rrtype_to_key(seek_key, it->query->rrtype);
+			add_rrtype_to_key(seek_key, it->rrtype);
 
 			goto seek;
 		}
 
 		ubuf_append(seek_key, key, key_prefix_len);
-		add_rrtype_to_key(seek_key, it->query->rrtype);
+		add_rrtype_to_key(seek_key, it->rrtype);
 
 		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
 					key, len_key < ubuf_size(seek_key) ?
@@ -1238,8 +1234,8 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		/* Special case handling if the first byte is a bad label len */
 		if (key[ubuf_size(seek_key)] > max_llen) {
 			/* Get rid of trailing rrtype and increment address. */
-			if (it->query->rrtype == WDNS_TYPE_A ||
-			    it->query->rrtype == WDNS_TYPE_AAAA) {
+			if (it->rrtype == WDNS_TYPE_A ||
+			    it->rrtype == WDNS_TYPE_AAAA) {
 				ubuf_clip(seek_key, key_prefix_len);
 				goto increment;
 			}
@@ -1280,7 +1276,7 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 				ubuf_reserve(seek_key, ubuf_size(seek_key) +
 							1 + sizeof(rdlen));
 				ubuf_add(seek_key, llen);
-				switch (it->query->rrtype) {
+				switch (it->rrtype) {
 				case WDNS_TYPE_A:
 					rdlen = htole16(4);
 					break;
@@ -1673,15 +1669,17 @@ query_init_rdata_name(struct query_iter *it)
 static struct dnstable_iter *
 query_init_rdata_ip(struct query_iter *it)
 {
-	assert(it->query->do_rrtype);
-	assert(it->query->len_ip1 > 0);
+	/* The address family implies the rrtype, no record matches another one. */
+	if (it->query->do_rrtype && it->query->rrtype != query_ip_rrtype(it->query))
+		return (NULL);
+	it->rrtype = query_ip_rrtype(it->query);
 
 	it->key = ubuf_init(64);
 
 	/* key: type byte, rdata, rrtype */
 	ubuf_add(it->key, ENTRY_TYPE_RDATA);
 	ubuf_append(it->key, it->query->ip1, it->query->len_ip1);
-	add_rrtype_to_key(it->key, it->query->rrtype);
+	add_rrtype_to_key(it->key, it->rrtype);
 
 	if (it->query->len_ip2 > 0) {
 		it->key2 = ubuf_init(64);
@@ -1689,7 +1687,7 @@ query_init_rdata_ip(struct query_iter *it)
 		/* key2: type byte, rdata2, rrtype */
 		ubuf_add(it->key2, ENTRY_TYPE_RDATA);
 		ubuf_append(it->key2, it->query->ip2, it->query->len_ip2);
-		add_rrtype_to_key(it->key2, it->query->rrtype);
+		add_rrtype_to_key(it->key2, it->rrtype);
 
 		/* increment key2 starting from the last byte */
 		increment_key(it->key2, ubuf_size(it->key2) - 1);
@@ -1754,6 +1752,8 @@ dnstable_query_iter_common(struct query_iter *it)
 	struct dnstable_iter *d_it;
 	struct dnstable_query *q = it->query;
 
+	it->rrtype = q->rrtype;
+
 	/*
 	 * First-added means that timeouts are evaluated before all other filters
 	 * are applied, at the very bottom of the filter call chain.
-- 
2.43.0


From bb4012dd51eba575457410a46fb1a02be6c026da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 22/59] fix: do not crash when a query is iterated before its
 search parameter is set

---
 dnstable/query.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index edc220a..5c8f67a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1754,6 +1754,17 @@ dnstable_query_iter_common(struct query_iter *it)
 
 	it->rrtype = q->rrtype;
 
+	/* Without its search parameter a query matches nothing. */
+	if (((q->q_type == DNSTABLE_QUERY_TYPE_RRSET ||
+	      q->q_type == DNSTABLE_QUERY_TYPE_RDATA_NAME) && q->name.data == NULL) ||
+	    (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_IP && q->len_ip1 == 0) ||
+	    (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_RAW && q->rdata == NULL))
+	{
+		query_set_err(q, "search parameter not set");
+		query_iter_free(it);
+		return (NULL);
+	}
+
 	/*
 	 * First-added means that timeouts are evaluated before all other filters
 	 * are applied, at the very bottom of the filter call chain.
-- 
2.43.0


From 0659e25048596c41a3c12ed39c27df5a7091647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 23/59] fix: do not abort on timestamps which RFC 3339 cannot
 express

---
 dnstable/entry.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 015a2d3..8144ce0 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -81,6 +81,8 @@ fmt_time(ubuf *u, uint64_t v)
 		ubuf_append(u, (const uint8_t*) s, len);
 }
 
+#define MAX_RFC3339_TIME 253402300799ULL	/* 9999-12-31T23:59:59Z */
+
 static inline void
 fmt_rfc3339(const struct tm *src, char *dst)
 {
@@ -105,8 +107,12 @@ fmt_rfc3339_time(ubuf *u, uint64_t v)
 	time_t tm = v;
 	char ts[]="0000-00-00T00:00:00Z";
 
+	/* Years beyond 9999 cannot be expressed, show the number of seconds. */
 	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	if (v > MAX_RFC3339_TIME || r == NULL) {
+		fmt_uint64(u, v);
+		return;
+	}
 
 	fmt_rfc3339(r, ts);
 
@@ -124,8 +130,12 @@ fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 	time_t tm = v;
 	char ts[] = "0000-00-00T00:00:00Z";
 
+	/* Years beyond 9999 cannot be expressed, show the number of seconds. */
 	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	if (v > MAX_RFC3339_TIME || r == NULL) {
+		JSON_NUM_APPEND(u, v);
+		return;
+	}
 
 	fmt_rfc3339(r, ts);
 
-- 
2.43.0


From 6250f4ad4f5e6128f213cddbf8a2fb1f4346c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 24/59] fix: atomic64_zero returns the whole 64-bit value

---
 libmy/atomic_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..ec61aed 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
-- 
2.43.0


From 8f7e7d89cf5fa69afd4fe24deb3dcca68488e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 25/59] fix: load and release a file listed more than once in a
 set file once

---
 libmy/my_fileset.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..c910782 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -107,6 +107,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -180,6 +190,9 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
+		/* A file listed more than once is one member. */
+		if (has_entry(new_entries, fname))
+			continue;
 		if (path_exists(fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
-- 
2.43.0


From 63a7f04083af9061db3d51c4404dd352e1b05ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 26/59] fix: read a set file again when it could not be opened
 after it changed

---
 libmy/my_fileset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index c910782..c53aaa1 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -177,8 +177,12 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		/* Not read, so the next reload must try again. */
+		fs->last_ino = 0;
+		fs->last_mtime = 0;
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From 880feb3f30365e7d0385f2a5b16447c7c5086a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 27/59] fix: do not unlink a spool file that another consumer
 has just claimed

---
 libmy/spooldir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/spooldir.c b/libmy/spooldir.c
index 6c7306d..ea47279 100644
--- a/libmy/spooldir.c
+++ b/libmy/spooldir.c
@@ -185,9 +185,9 @@ spooldir_next(struct spooldir *s)
 	ubuf_cterm(s->fname);
 
 	if (path_exists(ubuf_cstr(s->fname))) {
-		fprintf(stderr, "%s: WARNING: unlinking destination path %s\n",
+		/* rename() replaces it; another consumer may just have put it there. */
+		fprintf(stderr, "%s: WARNING: destination path %s exists\n",
 			__func__, ubuf_cstr(s->fname));
-		unlink(ubuf_cstr(s->fname));
 	}
 
 	int rename_ret = rename(ubuf_cstr(src_fname), ubuf_cstr(s->fname));
-- 
2.43.0


From b3ad9d5b56a983349beef4c9b1ca829ee2c47fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 28/59] fix: let several consumers create a spool's directories
 at once

---
 libmy/spooldir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/spooldir.c b/libmy/spooldir.c
index ea47279..bd8d39c 100644
--- a/libmy/spooldir.c
+++ b/libmy/spooldir.c
@@ -75,7 +75,7 @@ path_mkdir(const char *path, mode_t mode)
 		return (true);
 	} else {
 		ret = mkdir(path, mode);
-		if (ret < 0) {
+		if (ret < 0 && !(errno == EEXIST && path_isdir(path))) {
 			perror("mkdir");
 			return (false);
 		}
-- 
2.43.0


From 5551d991abae65b316950bb300d96b6de2d25488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 29/59] fix: base32_encode produces no text for no bytes

The do/while loop ran once for an empty string and produced eight '0'
characters, the text of five zero bytes.
---
 libmy/b32_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 6487fc4..7db9e19 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,7 +79,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
-	do {
+	while (i < len) {
 		size_t j, k;
 		uint8_t x[5];
 		char s[8];
@@ -121,7 +121,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			break;
 		}
 
-	} while (i < len);
+	}
 
 	return q - dst;
 }
-- 
2.43.0


From 5f4eebc1a5c51d7db8a67708c307c31d5a39ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 30/59] fix: base32_decode returns only the bytes which the
 text encodes

The last group of text was always expanded to five bytes, so that with a
destination larger than the encoded bytes zero bytes were added to them
(and five more for each padding character), and the returned amount was
wrong.
---
 libmy/b32_decode.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 5303811..1b61c53 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -152,6 +152,8 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 
 		if (G_N_ELEMENTS(s) == si || pad > 0 || i == len) {
 			char b[5];
+			/* whole bytes in this group, leaving out any padding */
+			size_t nb = (si - (pad > 0 ? 1 : 0)) * 5 / 8;
 			size_t bi;
 
 			memset(&s[si], 0, G_N_ELEMENTS(s) - si);
@@ -175,12 +177,12 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 				((s[6] & 0x07) << 5) |
 				(s[7] & 0x1f);
 
-			for (bi = 0; bi < G_N_ELEMENTS(b) && q != end; bi++) {
+			for (bi = 0; bi < nb && q != end; bi++) {
 				*q++ = b[bi];
 			}
 		}
 
-		if (end == q) {
+		if (end == q || pad > 0) {
 			break;
 		}
 	}
-- 
2.43.0


From 175632d1349379af0cfe2c986e216363a6b605e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 31/59] fix: base64_decode_value does not read beyond its table

The character '{' follows 'z', the last one of the table.
---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 566f3e0a9f979201c259d5792ef5a13cf56a1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 32/59] fix: base32_encode keeps the last bit of two trailing
 bytes

Two bytes have sixteen bits, which take four characters, not three.
---
 libmy/b32_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 7db9e19..b7bd41c 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -92,7 +92,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			k = 5;
 			break;
 		case 2:
-			k = 3;
+			k = 4;
 			break;
 		case 1:
 			k = 2;
-- 
2.43.0


From 241dd8b3aabe646d91c71c94e06debcd75159785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 33/59] fix: heap_get on an empty heap returns NULL

The size minus one wraps around for an empty heap, so that the assertion
on the index failed (or, without assertions, the access was out of bounds).
---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index ae00269..ef9e585 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -170,7 +170,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From 115915446059bce7348dca448aeec6471d83bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 34/59] fix: my_timespec_from_double converts more than 2^31
 seconds

The fraction was taken after truncating the seconds to an int.
---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index bc3afd3..6c6a9b7 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -80,7 +80,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ts->tv_sec) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From 8393da109a5203c212220aa45740e89ca0c150e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 35/59] fix: my_rate_sleep resumes an interrupted sleep

clock_nanosleep() returns EINTR if a signal handler runs. The other
branch already resumes, in my_nanosleep().
---
 libmy/my_rate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..04a5857 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -169,7 +169,9 @@ my_rate_sleep(struct my_rate *r)
 	if (ts_nanos(&til) > 0) {
 		/* do the sleep */
 #if HAVE_CLOCK_NANOSLEEP
-		clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL);
+		while (clock_nanosleep(rate_clock, TIMER_ABSTIME,
+				       &r->next_tick, NULL) == EINTR)
+			;
 #else
 		struct timespec rel;
 		rel = r->next_tick;
-- 
2.43.0


From 63ea766f476524ca9110a2b7333f76108085315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 36/59] fix: my_rate does not stop limiting when adjusting the
 rate

The adjusted rate was an integer. One percent less than a rate of one
was zero, whose period is infinite and disabled the limiter for good;
rates below one hundred could never rise again; and a caller which was
slow for long enough made the rate overflow. An average of more than
2^32 per second did not fit its variable either.
---
 libmy/my_rate.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 04a5857..d197cd3 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -63,8 +64,7 @@ static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
-	double ratio;
-	unsigned actual_rate;
+	double ratio, actual_rate;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
@@ -76,7 +76,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	actual_rate = r->count / (ts_nanos(&elapsed) / (1000000000 + 0.0));
 
 	/* simple ratio of nominal event rate and average event rate */
-	ratio = r->rate / (actual_rate + 0.0);
+	ratio = r->rate / actual_rate;
 
 	/* clamp this ratio to a small interval */
 	if (ratio < 0.99)
@@ -84,11 +84,17 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	if (ratio > 1.01)
 		ratio = 1.01;
 
-	/* calculate a new, adjusted rate based on this ratio */
+	/* calculate a new, adjusted rate based on this ratio, whose period
+	 * is neither endless nor shorter than a nanosecond.
+	 */
 	r->adj_rate *= ratio;
+	if (r->adj_rate < 1.0)
+		r->adj_rate = 1.0;
+	if (r->adj_rate > 1E9)
+		r->adj_rate = 1E9;
 
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / (r->adj_rate + 0.0);
+	const double period = 1.0 / r->adj_rate;
 	my_timespec_from_double(period, &r->period);
 }
 
-- 
2.43.0


From b7aa40e85809f5d9580c07450a34dbe01d80d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 37/59] fix: string_replace of an empty string ends

An empty string is found everywhere, so that the loop never advanced.
---
 libmy/string_replace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/string_replace.h b/libmy/string_replace.h
index 5edc207..f3cd72b 100644
--- a/libmy/string_replace.h
+++ b/libmy/string_replace.h
@@ -28,7 +28,7 @@ string_replace(const char *str, const char *old, const char *new)
 	char *ret;
 	size_t retsz;
 
-	if (strstr(str, old) == NULL) {
+	if (*old == '\0' || strstr(str, old) == NULL) {
 		char *s = strdup(str);
 		assert(s != NULL);
 		return (s);
-- 
2.43.0


From 767c7c9c3d0d6c1df8d30e06cca5a60c4e0248dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 38/59] fix: print_string escapes backslashes

The four characters \\x00 were printed like a single zero byte.
---
 libmy/print_string.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libmy/print_string.h b/libmy/print_string.h
index 3b04913..746e039 100644
--- a/libmy/print_string.h
+++ b/libmy/print_string.h
@@ -29,10 +29,9 @@ print_string(const void *data, size_t len, FILE *out)
 	while (len-- != 0) {
 		unsigned c = *(str++);
 		if (isprint(c)) {
-			if (c == '"')
-				fputs("\\\"", out);
-			else
-				fputc(c, out);
+			if (c == '"' || c == '\\')
+				fputc('\\', out);
+			fputc(c, out);
 		} else {
 			fprintf(out, "\\x%02x", c);
 		}
-- 
2.43.0


From 58e21aca29301c949dcd6f01c100eb16f79f19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 39/59] fix: argv: options waiting for values overflowed their
 queue

The queue held as many entries as there are arguments, but one argument
("-aaaa") or an argument file can name any number of options which take
a value.
---
 libmy/argv.c | 116 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 78 insertions(+), 38 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..fd2d882 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2130,6 +2130,56 @@ static	int	check_opt(const int queue_head, const int queue_tail)
 
 /**************************** argument processing ****************************/
 
+/*
+ * static int queue_add
+ *
+ * DESCRIPTION:
+ *
+ * Add an option which is waiting for its value to the end of the option
+ * queue, growing the queue as necessary.
+ *
+ * RETURNS:
+ *
+ * Success - 0
+ *
+ * Faulure - -1
+ *
+ * ARGUMENTS:
+ *
+ * queue_list_p <-> Pointer to our option queue.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * match_p -> Option to add, NULL for the file argument.
+ */
+static	int	queue_add(argv_t ***queue_list_p, int *queue_head_p,
+			  argv_t *match_p)
+{
+  argv_t	**queue_list = *queue_list_p;
+  
+  if (*queue_head_p % ARRAY_INCR == 0) {
+    queue_list = (argv_t **)realloc(queue_list, sizeof(argv_t *) *
+				    (*queue_head_p + ARRAY_INCR));
+    if (queue_list == NULL) {
+      if (argv_error_stream != NULL) {
+	(void)fprintf(argv_error_stream,
+		      "%s: memory error during argument processing\n",
+		      argv_program);
+      }
+      if (argv_interactive) {
+	(void)exit(argv_error_code);
+      }
+      return ERROR;
+    }
+    *queue_list_p = queue_list;
+  }
+  
+  queue_list[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+  return NOERROR;
+}
+
 /*
  * static void file_args
  *
@@ -2150,7 +2200,8 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2213,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2307,8 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p,
+	  okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2291,7 +2343,8 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2353,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2355,9 +2408,8 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
       *okay_bp = ARGV_FALSE;
     }
   }
-  else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+  else if (queue_add(queue_list_p, queue_head_p, match_p) != NOERROR) {
+    *okay_bp = ARGV_FALSE;
   }
 }
 
@@ -2421,7 +2473,8 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2486,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2578,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2589,14 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  if (queue_add(queue_list_p, queue_head_p, NULL) != NOERROR) {
+	    *okay_bp = ARGV_FALSE;
+	  }
 	}
 	continue;
       }
@@ -2708,7 +2762,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2741,7 +2795,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2751,12 +2805,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3124,7 +3178,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3240,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
 
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
-  
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3251,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,9 +3275,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From a67689c1537ee34b7b8fc732fdc9a04a6580cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 40/59] fix: argv: the check for exclusive options read beyond
 the option array

For the last option of the array the entry after ARGV_LAST was read.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index fd2d882..662a53c 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 159901c1f6d4b2ca8fddac266f76286d55f06447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 41/59] fix: argv: a negative number after --argv-file crashed

The queue holds NULL for the pending file name.
---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 662a53c..333a8a8 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2760,7 +2760,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   * to Nick Kisseberth for pointing out this oversight.
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
-	      && *queue_head_p > *queue_tail_p) {
+	      && *queue_head_p > *queue_tail_p
+	      && (*queue_list_p)[*queue_tail_p] != NULL) {
 	    
 	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
-- 
2.43.0


From 81b0d270bf7a30e475c7f6c9a1f980b6866cc31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 42/59] fix: argv: bytes 251 to 254 as short options matched
 the array's markers

An argument of "-\\374" named the ARGV_OR entry, whose variable is NULL.
---
 libmy/argv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 333a8a8..e861ab2 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -37,6 +37,10 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
 #define SNP_ARG(buf, buf_size)	buf, buf_size
 
+/* is this ar_short_arg value a marker and not an option the user can name */
+#define IS_MARKER(c)	((c) == ARGV_MAND || (c) == ARGV_MAYBE \
+			 || (c) == ARGV_OR || (c) == ARGV_XOR)
+
 /*
  * exported variables
  */
@@ -2735,7 +2739,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	
 	/* run through the arg list looking for a match */
 	for (match_p = grid; match_p->ar_short_arg != ARGV_LAST; match_p++) {
-	  if (match_p->ar_short_arg ==
+	  if (! IS_MARKER(match_p->ar_short_arg)
+	      && match_p->ar_short_arg ==
 	      (*arg_p)[SHORT_PREFIX_LENGTH + char_c]) {
 	    break;
 	  }
-- 
2.43.0


From af7ae4c76f8d8ccd20ba7e512ab2e031356db494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 43/59] fix: argv: unsigned long values above LONG_MAX were cut
 to LONG_MAX

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index e861ab2..d37c424 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1327,7 +1327,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_U_LONG:
-    *(unsigned long *)var = atol(arg);
+    *(unsigned long *)var = strtoul(arg, NULL, 10);
     break;
     
   case ARGV_FLOAT:
@@ -1394,7 +1394,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
       unsigned long	val;
       
       /* take initial integer point */
-      val = (unsigned long)atol(arg);
+      val = strtoul(arg, NULL, 10);
       for (arg_p = arg;
 	   *arg_p == ' ' || *arg_p == '-' || *arg_p == '+'
 	     || (*arg_p >= '0' && *arg_p <= '9');
-- 
2.43.0


From 2bfda41889effc111490bbe6f620349fe565957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 44/59] fix: argv: arguments with a value after an equals sign
 were cut there

argv_process is documented not to modify the argument vector, and
argv_copy_args left the values out.
---
 libmy/argv.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index d37c424..bfad8b7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2501,6 +2501,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
   /* run throught rest of arguments */
   for (arg_p = argv; arg_p < argv + arg_c; arg_p++) {
     
+    /* put back the equals sign we punched out of the previous argument */
+    if (close_p != NULL) {
+      *(close_p - 1) = ARG_EQUALS;
+      close_p = NULL;
+    }
+    
     /* have we reached the LAST_ARG marker? */
     if (strcmp(LAST_ARG, *arg_p) == 0) {
       if (last_arg_b) {
@@ -2869,6 +2875,10 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     *okay_bp = ARGV_FALSE;
   }
   
+  if (close_p != NULL) {
+    *(close_p - 1) = ARG_EQUALS;
+  }
+  
   if (unwant_c > 0 && argv_error_stream != NULL) {
     (void)fprintf(argv_error_stream,
 		  "%s: %s, %d unwanted additional argument%s\n",
-- 
2.43.0


From 1b4acdfedb58a18b6c47db8e920d04aa5737e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 45/59] fix: argv: unsigned sizes above LONG_MAX were displayed
 as negative

---
 libmy/argv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index bfad8b7..9d6a35a 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1676,18 +1676,18 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldg (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lug (%lu)", morf, val);
       }
       else if (val % (1024 * 1024) == 0) {
 	morf = val / (1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldm (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lum (%lu)", morf, val);
       }
       else if (val % 1024 == 0) {
 	morf = val / 1024;
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldk (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%luk (%lu)", morf, val);
       }
       else {
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ld", val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lu", val);
       }
       
       len = strlen(buf);
-- 
2.43.0


From bb749dd4a0aba6cb3c0dbcf2fbf8b6870d0149b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 46/59] fix: zonefile: opening a zone file without any record
 never returned

---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..c6c8f76 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -30,6 +30,10 @@ read_soa(struct zonefile *z)
 	ldns_status status;
 
 	for (;;) {
+		if (feof(z->fp)) {
+			status = LDNS_STATUS_ERR;
+			goto out;
+		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
-- 
2.43.0


From 62bc00c91ec11ef112cc85410bc7f8192d4e60f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 47/59] fix: zonefile: the SOA record replaced (and leaked) the
 origin set by $ORIGIN

---
 libmy/zonefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index c6c8f76..fc6e217 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -61,7 +61,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
-- 
2.43.0


From 4088442511cac6c84839bb209d62ce0ff649117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 48/59] fix: zonefile: asking for the serial after the first
 read crashed

The SOA record belongs to the caller by then.
---
 libmy/zonefile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index fc6e217..2dc0ed4 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -20,6 +20,7 @@ struct zonefile {
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
+	uint32_t	serial;
 	size_t		count;
 };
 
@@ -64,6 +65,7 @@ out:
 	if (z->origin == NULL)
 		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
+	z->serial = ldns_rdf2native_int32(ldns_rr_rdf(rr, 2));
 	return (LDNS_STATUS_OK);
 }
 
@@ -136,9 +138,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From e95ad0de799eaa6052dfa5b0abdc84a008bd1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 49/59] fix: zonefile: reading went on after the end of the
 zone was reported

---
 libmy/zonefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2dc0ed4..2e96470 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -172,6 +172,7 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
 				ldns_rr_free(rr);
 				*out = NULL;
+				z->eof = true;
 				return (LDNS_STATUS_OK);
 			}
 			z->count++;
-- 
2.43.0


From 658dfd48310842a3efc7ec93c23a47251cd282dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 50/59] fix: zonefile: leak when the file cannot be opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2e96470..2007e24 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -90,8 +90,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		zonefile_destroy(&z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From 2a6d1213c0817c0083120692981cf8127eb5e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 51/59] fix: zonefile: names of compressed files were
 interpreted by the shell

---
 libmy/zonefile.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2007e24..3db4e58 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -81,8 +81,14 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat -- '");
+		for (const char *p = fname; *p != '\0'; p++) {
+			if (*p == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_append(u, (const uint8_t *) p, 1);
+		}
+		ubuf_add_cstr(u, "'");
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From 10748a7cd273915f9ff41f0c3d92a1ebe82b7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 52/59] fix: dnstable_lookup: offsets above 2^31 were cut to 32
 bits

---
 src/dnstable_lookup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index f285cff..d3fdc7a 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -382,7 +382,7 @@ main(int argc, char **argv)
 			g_aggregate = false;
 			break;
 		case 'O':
-			g_offset = atoi(optarg);
+			g_offset = strtoll(optarg, NULL, 10);
 			if (g_offset <= 0)
 				usage();
 			break;
-- 
2.43.0


From 61c9081bea7716f054d889bb701ebb7e731a5a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 53/59] fix: dnstable_lookup: dates before 1970 were taken for
 far future times

The documentation says that they are not accepted.
---
 src/dnstable_lookup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index d3fdc7a..a9f566d 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -211,7 +211,9 @@ parse_time(const char *s)
 	    ((endp = strptime(s, "%F %T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%TZ", &tt)) && (*endp == '\0'))) {
-		return (uint64_t)timegm(&tt);
+		time_t t = timegm(&tt);
+
+		return t > 0 ? (uint64_t)t : 0;
 	}
 
 	clock_gettime(CLOCK_REALTIME, &now);
-- 
2.43.0


From 3dd1f78470320bef41a3abd2bf04a9c0654a5d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 54/59] fix: dnstable_lookup: overlong relative times
 overflowed into the future

---
 src/dnstable_lookup.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index a9f566d..ac4575b 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -232,7 +232,7 @@ parse_time(const char *s)
 	/* Parse 10w3d4h */
 	while(*s) {
 		ll = strtoll(s, &endp, 10);
-		if (ll <= 0)
+		if (ll <= 0 || ll > now.tv_sec)
 			return 0;
 		switch(*endp) {
 		case 'W':
@@ -255,11 +255,11 @@ parse_time(const char *s)
 			return 0;
 		}
 		total += ll;
+		if (total > now.tv_sec)
+			return 0;
 		s = endp;
 		if (*s) s++;
 	}
-	if (total > now.tv_sec)
-		return 0;
 	return (uint64_t)(now.tv_sec - total);
 }
 
-- 
2.43.0


From ccd26471312ed1b3ae1cbc653ca3151e278a3ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 55/59] fix: dnstable_dump: aborted when the only section was
 switched off

"-r=no" satisfies the argument parser but selects nothing.
---
 src/dnstable_dump.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dnstable_dump.c b/src/dnstable_dump.c
index 7a9357c..24c6ab2 100644
--- a/src/dnstable_dump.c
+++ b/src/dnstable_dump.c
@@ -170,6 +170,14 @@ main(int argc, char **argv)
 
 	argv_process(args, argc, argv);
 
+	/* A section option may have been given a false value, e.g. "-r=no". */
+	if (!(g_rrset || g_rdata || g_rrset_names || g_rdata_names ||
+	      g_time_range || g_version || g_source_info))
+	{
+		fprintf(stderr, "dnstable_dump: no section selected\n");
+		exit(EXIT_FAILURE);
+	}
+
 	if (g_add_raw) {
 		if (!(g_rdata || g_rrset)) {
 			fprintf(stderr,
-- 
2.43.0


From acaf84a4e6d01a664e60a7e8de5e4e111922810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 56/59] fix: dnstable_merge: arguments with spaces or patterns
 were split

---
 src/dnstable_merge.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnstable_merge.sh.in b/src/dnstable_merge.sh.in
index 7df27e8..910144f 100644
--- a/src/dnstable_merge.sh.in
+++ b/src/dnstable_merge.sh.in
@@ -8,4 +8,4 @@ if [ -z "$1" -o -z "$2" ]; then
     exit 1
 fi
 
-exec mtbl_merge $@
+exec mtbl_merge "$@"
-- 
2.43.0


From 8fcb4934b0499ba077a9914981e90fc5f9b2ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 57/59] fix: argv: argv_process_no_env as the first call
 crashed when reporting an error

---
 libmy/argv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 9d6a35a..08683bd 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3196,6 +3196,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   argv_t	**queue_list = NULL;
   int		queue_head = 0, queue_tail = 0, env_n;
   
+  if (! enabled_b) {
+    argv_startup();
+  }
+  
   if (args == NULL) {
     args = empty;
   }
-- 
2.43.0


From dc6aab87f16a3b23505b8a034fabcf4f09cc4b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:38 +0000
Subject: [PATCH 58/59] fix: argv: argv_long_was_used compared the address of
 the name, not the name

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 08683bd..703535a 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3468,7 +3468,8 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL
+	&& strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From 9650c204c80c3aa5d6e6d763c3912d321617932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 59/59] fix: query: clearing the time limits of an open lookup
 made it jump into a function that had returned

---
 dnstable/query.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 5c8f67a..d192b31 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -995,6 +995,11 @@ query_iter_set_deadline(struct query_iter *it)
 
 	if (!q->do_timeout) {
 		it->deadline = q->deadline;
+		if (!q->do_deadline) {
+			/* the limits were cleared after the iterator was made */
+			it->deadline.tv_sec = LONG_MAX;
+			it->deadline.tv_nsec = 0;
+		}
 		return;
 	}
 
@@ -1009,9 +1014,8 @@ static dnstable_res
 query_iter_next(void *clos, struct dnstable_entry **ent)
 {
 	struct query_iter *it = (struct query_iter *) clos;
-	struct dnstable_query *q = it->query;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
@@ -1365,11 +1369,10 @@ static dnstable_res
 query_iter_next_name_indirect(void *clos, struct dnstable_entry **ent, uint8_t type_byte)
 {
 	struct query_iter *it = (struct query_iter *) clos;
-	struct dnstable_query *q = it->query;
 	const uint8_t *key, *val;
 	size_t len_key, len_val;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
-- 
2.43.0

