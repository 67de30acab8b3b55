From c6c9aaadd35edc1bea8eabc343abb45fe6d86660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 01/50] fix: harbol_recalloc: size overflow, zero sizes and
 leaking the old block

---
 harbol_common_includes.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ca3199c..b90b8f1 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -174,13 +174,17 @@
 
 
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
-	if( arr==NULL || old_size==0 ) {
+	if( arr==NULL ) {
 		return calloc(new_size, element_size);
+	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
+		return NULL;
 	}
+	/// never ask for 0 bytes: that would release 'arr' and look like a failure.
+	size_t const bytes = new_size * element_size;
 #ifdef __cplusplus
-	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, new_size * element_size));
+	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, bytes + (bytes==0)));
 #else
-	uint8_t *const restrict new_block = realloc(arr, new_size * element_size);
+	uint8_t *const restrict new_block = realloc(arr, bytes + (bytes==0));
 #endif
 	if( new_block==NULL ) {
 		return NULL;
-- 
2.43.0


From ddb1f4dae2e77ed97230cfa285822bd741f90e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 02/50] fix: harbol_multi_recalloc: keep the given buffers
 valid when an allocation fails

---
 harbol_common_includes.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index b90b8f1..3fcd4aa 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -247,10 +247,15 @@ static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old
 	va_list cp; va_copy(cp, ap);
 	bool res = true;
 	void **bufs = calloc(n_buffers, sizeof *bufs);
+	if( bufs==NULL ) {
+		va_end(cp);
+		va_end(ap);
+		return false;
+	}
 	for( size_t i=0; i < n_buffers; i++ ) {
-		void **buf = va_arg(ap, void**);
+		va_arg(ap, void**);
 		size_t const elem_size = va_arg(ap, size_t);
-		bufs[i] = harbol_recalloc(*buf, new_size, elem_size, old_size);
+		bufs[i] = calloc(new_size, elem_size);
 		res &= bufs[i] != NULL;
 	}
 	va_end(ap);
@@ -262,7 +267,11 @@ static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old
 	} else {
 		for( size_t i=0; i < n_buffers; i++ ) {
 			void **buf = va_arg(cp, void**);
-			va_arg(cp, size_t);
+			size_t const elem_size = va_arg(cp, size_t);
+			if( *buf != NULL ) {
+				memcpy(bufs[i], *buf, (old_size < new_size? old_size : new_size) * elem_size);
+				free(*buf);
+			}
 			*buf = bufs[i];
 		}
 	}
-- 
2.43.0


From 6d208e5958b9d7b647f32f0a9c3c91de2e4f6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 03/50] fix: array_shift_up: index + amount may overflow

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 3fcd4aa..b7c3835 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -612,7 +612,7 @@ static inline bool array_shift_up(void *const restrict buf, size_t *const restri
 		j = index
 	;
 	uint8_t *const restrict b = buf;
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		memmove(&b[j * datasize], &b[i * datasize], (*len - j) * datasize);
 		memset(&b[*len * datasize], 0, amount * datasize);
@@ -640,7 +640,7 @@ static inline bool multi_array_shift_up(size_t *const restrict len, size_t const
 		j = index
 	;
 	
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		size_t const cur_len = *len;
 		for( size_t n=0; n < n_buffers; n++ ) {
-- 
2.43.0


From 171f83b76992968c4619a4f00a31660b6c1c1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 04/50] fix: bytes_bitmask: shift overflow for 4 or more bytes

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index b7c3835..08bd8fa 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1126,7 +1126,7 @@ static inline NEVER_NULL(1) void harbol_trilink_set_c(void *const p, void *const
 
 
 static inline size_t bytes_bitmask(size_t const bytes) {
-	return (1 << (bytes * CHAR_BIT)) - 1;
+	return( bytes >= sizeof(size_t) )? SIZE_MAX : (( size_t )(1) << (bytes * CHAR_BIT)) - 1;
 }
 
 #endif /** HARBOL_COMMON_INCLUDES_INCLUDED */
-- 
2.43.0


From 583ab540ccc0c95f91c95248c937f54f02c46874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 05/50] fix: digit counts of the most negative integer

---
 harbol_common_includes.h | 28 ++--------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 08bd8fa..64b51c5 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -766,19 +766,7 @@ static inline size_t base_10_num_chars_uint(size_t const x) {
 	return base_10_digits(x) + 1;
 }
 static inline size_t base_10_num_chars_int(ssize_t const x) {
-#ifdef C11
-	ssize_t const y = _Generic(x, int: abs(x), long: labs(x), long long: llabs(x));
-#else
-	ssize_t const y = 
-#	if SIZE_MAX==UINT_MAX
-		abs(x)
-#	elif SIZE_MAX==ULONG_MAX
-		labs(x)
-#	elif SIZE_MAX==ULLONG_MAX
-		llabs(x)
-#	endif
-	;
-#endif
+	size_t const y = x < 0? 0 - ( size_t )(x) : ( size_t )(x);
 	return base_10_digits(y) + 2; /// 2 for the negative sign symbol.
 }
 
@@ -894,19 +882,7 @@ static inline size_t base_N_num_chars_int(
 	size_t const powers_of_N[const static 1]
 #endif
 ) {
-#ifdef C11
-	ssize_t const y = _Generic( x, int: abs(x), long: labs(x), long long: llabs(x) );
-#else
-	ssize_t const y = 
-#	if SIZE_MAX==UINT_MAX
-		abs(x)
-#	elif SIZE_MAX==ULONG_MAX
-		labs(x)
-#	elif SIZE_MAX==ULLONG_MAX
-		llabs(x)
-#	endif
-	;
-#endif
+	size_t const y = x < 0? 0 - ( size_t )(x) : ( size_t )(x);
 	return base_N_digits(y, logN_table, powers_of_N) + 2; /// 2 for the negative sign symbol.
 }
 
-- 
2.43.0


From f13df791c743e8c9e5049d13ecd1bc129f935cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 06/50] fix: harbol_link_add_to_tail: terminate the first node
 of a list

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 64b51c5..dba6227 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -980,8 +980,8 @@ static inline NO_NULL void harbol_link_add_to_tail(void *const h, void *const n,
 		**const tail = t,
 		 *const node = n
 	;
+	node->a = NULL;
 	if( *head != NULL ) {
-		node->a = NULL;
 		(*tail)->a = node;
 		*tail = node;
 	} else {
-- 
2.43.0


From 7a60091a45757ea941fe98de3c791e686ee11852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 07/50] fix: harbol_array_resize: length beyond capacity after
 shrinking, capacity overflow

---
 array/array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/array/array.c b/array/array.c
index e36bf8e..6d5e2d1 100644
--- a/array/array.c
+++ b/array/array.c
@@ -9,6 +9,8 @@
 static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec, size_t const new_size, size_t const element_size) {
 	if( vec->cap==new_size ) {
 		return true;
+	} else if( new_size==0 ) {
+		return false; /// requested capacity overflowed.
 	}
 	
 	uint8_t *const new_table = harbol_recalloc(vec->table, new_size, element_size, vec->cap);
@@ -17,6 +19,9 @@ static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec,
 	}
 	vec->table = new_table;
 	vec->cap   = new_size;
+	if( vec->len > new_size ) {
+		vec->len = new_size;
+	}
 	return true;
 }
 
-- 
2.43.0


From 6d32c82514b2da99c92d31b91984d92cdbcf368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 08/50] fix: harbol_array_add: exact fit refused, length sum
 overflow

---
 array/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array/array.c b/array/array.c
index 6d5e2d1..1374422 100644
--- a/array/array.c
+++ b/array/array.c
@@ -126,7 +126,7 @@ HARBOL_EXPORT bool harbol_array_full(struct HarbolArray const *const vec) {
 
 /// array to array ops.
 HARBOL_EXPORT bool harbol_array_add(struct HarbolArray *const vecA, struct HarbolArray const *const vecB, size_t const datasize) {
-	if( vecA->table==NULL || vecB->table==NULL || (vecA->len + vecB->len) >= vecA->cap ) {
+	if( vecA->table==NULL || vecB->table==NULL || vecB->len > vecA->cap - vecA->len ) {
 		return false;
 	}
 	memcpy(&vecA->table[vecA->len * datasize], vecB->table, vecB->len * datasize);
-- 
2.43.0


From 0a28dc028aa93206ec19f046e28581ed05b0fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 09/50] fix: harbol_array_del_by_index/range: length underflow
 on an empty array

---
 array/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array/array.c b/array/array.c
index 1374422..7c3d8b9 100644
--- a/array/array.c
+++ b/array/array.c
@@ -273,7 +273,7 @@ HARBOL_EXPORT size_t harbol_array_index_of(struct HarbolArray const *const vec,
 
 /// deletion funcs.
 HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size_t const index, size_t const datasize) {
-	if( vec->table==NULL ) {
+	if( vec->table==NULL || vec->len==0 ) {
 		return false;
 	} else if( index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
@@ -282,7 +282,7 @@ HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size
 	return harbol_array_shift_up(vec, index, datasize, 1);
 }
 HARBOL_EXPORT bool harbol_array_del_by_range(struct HarbolArray *const vec, size_t const index, size_t const datasize, size_t const range) {
-	if( vec->table==NULL ) {
+	if( vec->table==NULL || vec->len==0 ) {
 		return false;
 	} else if( index==0 && (index + range >= vec->len) ) {
 		harbol_array_wipe(vec, datasize);
-- 
2.43.0


From d16754551828c5bca09879f66a1060ddea8c0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 10/50] fix: harbol_bytebuffer_insert_zeros: overflow of the
 new length

---
 bytebuffer/bytebuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index d31a1b9..ebf8434 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -112,7 +112,7 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const rest
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *const buf, size_t const amount) {
-	if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
+	if( amount > SIZE_MAX - buf->len || (buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount)) ) {
 		return false;
 	}
 	memset(&buf->table[buf->len], 0, amount);
-- 
2.43.0


From 8051c1f2e1cabf0a0be0382a0dd1520c0e5adf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 11/50] fix: harbol_resize_string: terminate the text when it
 shrinks, refuse SIZE_MAX

---
 harbol_common_includes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index dba6227..ef84a04 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -334,10 +334,14 @@ static inline NO_NULL void *harbol_memccpy(void *const restrict dest, void const
 }
 
 static inline uint8_t *harbol_resize_string(uint8_t *const restrict cstr, size_t const bytes, size_t *const restrict len, size_t const new_size) {
+	if( new_size==SIZE_MAX ) {
+		return NULL;
+	}
 	uint8_t *restrict new_cstr = harbol_recalloc(cstr, new_size + 1, bytes, *len);
 	if( new_cstr==NULL ) {
 		return NULL;
 	}
+	memset(&new_cstr[new_size * bytes], 0, bytes);
 	*len = new_size;
 	return new_cstr;
 }
-- 
2.43.0


From cb11e196fb43a1e8ae4c24e8d06fa8160a29f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 12/50] fix: harbol_string_add_char_rep: length overflow

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 8953ce6..c7f7fa1 100644
--- a/str/str.c
+++ b/str/str.c
@@ -66,7 +66,7 @@ HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char c
 }
 
 HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, char const c, size_t const amount) {
-	if( !_harbol_resize_string(str, str->len + amount) ) {
+	if( amount > SIZE_MAX - str->len || !_harbol_resize_string(str, str->len + amount) ) {
 		return false;
 	}
 	for( size_t i=0; i < amount; i++ ) {
-- 
2.43.0


From ac71222eff9c00325534eefd8f9c0fdaeda9e087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 13/50] fix: harbol_string_add_str: appending a string to
 itself

---
 str/str.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index c7f7fa1..563f9f5 100644
--- a/str/str.c
+++ b/str/str.c
@@ -76,10 +76,11 @@ HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, ch
 }
 
 HARBOL_EXPORT bool harbol_string_add_str(struct HarbolString *const strA, struct HarbolString const *const strB) {
-	if( strB->cstr==NULL || !_harbol_resize_string(strA, strA->len + strB->len) ) {
+	size_t const lenA = strA->len, lenB = strB->len;
+	if( strB->cstr==NULL || !_harbol_resize_string(strA, lenA + lenB) ) {
 		return false;
 	}
-	strncat(strA->cstr, strB->cstr, strB->len);
+	memcpy(&strA->cstr[lenA], strB->cstr, lenB);
 	return true;
 }
 
-- 
2.43.0


From c0ef549f8ebb402bc688fa34160c3274c6c1bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 14/50] fix: harbol_string_format_va: formatting errors

---
 str/str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/str/str.c b/str/str.c
index 563f9f5..0a98786 100644
--- a/str/str.c
+++ b/str/str.c
@@ -150,6 +150,11 @@ HARBOL_EXPORT int harbol_string_format_va(struct HarbolString *const restrict st
 	int const size = vsnprintf(&c, 1, fmt, va_l);
 	va_end(va_l);
 	
+	if( size < 0 ) {
+		va_end(st);
+		return -1;
+	}
+	
 	size_t const old_size = clear? 0 : str->len;
 	if( !_harbol_resize_string(str, size + old_size) ) {
 		va_end(st);
-- 
2.43.0


From 4acda5f5fdd20c3861c83c4ccfce4eaea7e9b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 15/50] fix: harbol_string_read_from_file: terminate the text
 after a short read

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index 0a98786..7066b2a 100644
--- a/str/str.c
+++ b/str/str.c
@@ -215,6 +215,7 @@ HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str,
 		return false;
 	}
 	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
+	str->cstr[str->len] = 0;
 	return true;
 }
 
-- 
2.43.0


From 30e57b6214018325e8189c685941e941d9047818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 16/50] fix: harbol_string_replace_cstr: replaced one
 occurrence too many, unchecked allocation

---
 str/str.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/str/str.c b/str/str.c
index 7066b2a..508118f 100644
--- a/str/str.c
+++ b/str/str.c
@@ -250,7 +250,7 @@ static NO_NULL size_t _subcstr_diff(char const src[const restrict static 1], cha
 }
 
 HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restrict str, char const to_replace[const restrict static 1], char const with[const restrict static 1], size_t amount) {
-	if( str->cstr==NULL ) {
+	if( str->cstr==NULL || amount==0 ) {
 		return false;
 	}
 	
@@ -267,7 +267,9 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
 	size_t const len_calc = str->len + (amount * (with_len - replace_len));
-	_harbol_resize_string(&rep_str, len_calc);
+	if( !_harbol_resize_string(&rep_str, len_calc) ) {
+		return false;
+	}
 	size_t rep_len = 0;
 	/// first copy contents up to the first offset.
 	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
@@ -276,7 +278,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	strcpy(&rep_str.cstr[rep_len], with);
 	rep_len += with_len;
-	for( size_t i=0; i < amount; i++ ) {
+	for( size_t i=1; i < amount; i++ ) {
 		size_t const saved_offset = offset;
 		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
 		if( relative_offs==SIZE_MAX ) {
-- 
2.43.0


From b2768a16fe4f05db1325b770f306127f67b03116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 17/50] fix: harbol_string_count_cstr: endless loop for an
 empty occurrence

---
 str/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/str/str.c b/str/str.c
index 508118f..6527a44 100644
--- a/str/str.c
+++ b/str/str.c
@@ -324,6 +324,9 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 	
 	size_t occurrences = 0;
 	size_t const occ_len = strlen(occurrence);
+	if( occ_len==0 ) {
+		return 0;
+	}
 	char const *pos = strstr(str->cstr, occurrence);
 	while( pos != NULL ) {
 		occurrences++;
-- 
2.43.0


From d0c1dedb4c3ee98c0e5a66afedf0e081f70fbcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 18/50] fix: harbol_string_cstr_offsets: missing and empty
 occurrences

---
 str/str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 6527a44..50cfdab 100644
--- a/str/str.c
+++ b/str/str.c
@@ -336,14 +336,19 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 }
 
 HARBOL_EXPORT NO_NULL bool harbol_string_cstr_offsets(struct HarbolString const *const restrict str, char const occurrence[const restrict static 1], size_t offsets[const restrict static 1], size_t const offsets_len) {
-	if( str->cstr==NULL ) {
+	if( str->cstr==NULL || occurrence[0]==0 ) {
 		return false;
 	}
 	
 	size_t offset = 0;
 	for( size_t i=0; i < offsets_len; i++ ) {
 		size_t const curr_offs = offset;
-		offset += _subcstr_diff(&str->cstr[curr_offs], occurrence);
+		size_t const diff = _subcstr_diff(&str->cstr[curr_offs], occurrence);
+		if( diff==SIZE_MAX ) {
+			offsets[i] = SIZE_MAX;
+			continue;
+		}
+		offset += diff;
 		offsets[i] = offset;
 		offset++;
 	}
-- 
2.43.0


From 27afe5a107558510a21defc3aed308367dbdf793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 19/50] fix: harbol_string_rm_char: update the length, strings
 without storage

---
 str/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/str/str.c b/str/str.c
index 50cfdab..56ae1bf 100644
--- a/str/str.c
+++ b/str/str.c
@@ -400,6 +400,9 @@ HARBOL_EXPORT bool harbol_string_reverse(struct HarbolString *const str) {
 
 
 HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( str->cstr[i] != c ) {
@@ -409,6 +412,7 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 		}
 	}
 	str->cstr[j] = 0;
+	str->len = j;
 	return counts;
 }
 
-- 
2.43.0


From 540ce0496cf56e28edb6f3d60d1410cea28e129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 20/50] fix: harbol_string_trim_spaces,
 harbol_string_find_char: strings without storage

---
 str/str.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/str/str.c b/str/str.c
index 56ae1bf..df11231 100644
--- a/str/str.c
+++ b/str/str.c
@@ -418,6 +418,9 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 
 
 HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
@@ -438,6 +441,9 @@ static NO_NULL size_t _find_chr(char const src[const static 1], char const c) {
 }
 
 HARBOL_EXPORT size_t harbol_string_find_char(struct HarbolString const *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return SIZE_MAX;
+	}
 	return _find_chr(str->cstr, c);
 }
 
-- 
2.43.0


From 3fdabadf86c30455d1e4f67b4d69be3e7304e9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 21/50] fix: harbol_string_replace_range: range up to the end,
 failed allocation

---
 str/str.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/str/str.c b/str/str.c
index df11231..2d2acec 100644
--- a/str/str.c
+++ b/str/str.c
@@ -453,7 +453,7 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	if( upper > str->len ) {
+	if( upper >= str->len ) {
 		upper = str->len - 1;
 	}
 	
@@ -463,12 +463,17 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 	}
 	
 	char *start = &str->cstr[lower];
+	char const first = start[0];
 	start[0] = 0;
 	char const *end = &str->cstr[upper];
 	struct HarbolString s = {0};
-	harbol_string_add_cstr(&s, str->cstr);
-	harbol_string_add_cstr(&s, with);
-	harbol_string_add_cstr(&s, &end[1]);
+	if( !_harbol_resize_string(&s, lower + strlen(with) + strlen(&end[1])) ) {
+		start[0] = first;
+		return false;
+	}
+	strcat(s.cstr, str->cstr);
+	strcat(s.cstr, with);
+	strcat(s.cstr, &end[1]);
 	harbol_string_clear(str);
 	*str = s;
 	return true;
-- 
2.43.0


From 441ddf81ec56126a0a3a14c620476349ebdf37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 22/50] fix: bistack allocations larger than the free margin
 wrapped around

---
 allocators/bistack/bistack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 32e032a..768c08b 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -46,7 +46,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( bistk->front + aligned_size >= bistk->back ) {
+	if( size > bistk->back - bistk->front || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
@@ -61,7 +61,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// back end arena is too low
-	if( bistk->back - aligned_size <= bistk->front ) {
+	if( size > bistk->back - bistk->front || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	bistk->back -= aligned_size;
-- 
2.43.0


From a61dee5135c6e289a8e6d8cb647319d8dd7611b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 23/50] fix: objpool accepted its one-past-end address as a
 block to free

---
 allocators/objpool/objpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index d4f4de6..72cbee0 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -81,7 +81,7 @@ HARBOL_EXPORT void *harbol_objpool_alloc(struct HarbolObjPool *const objpool) {
 
 HARBOL_EXPORT void harbol_objpool_free(struct HarbolObjPool *const restrict objpool, void *const restrict ptr) {
 	uintptr_t const p = ( uintptr_t )(ptr);
-	if( ptr==NULL || p < objpool->mem || p > objpool->mem + (objpool->size * objpool->objsize) ) {
+	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize) ) {
 		return;
 	}
 	/// when we free our pointer, we recycle the pointer space to store the previous index
-- 
2.43.0


From 51e6d6a12323e72cf5961d2c1cec7d9f7c1cae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 24/50] fix: objpool object size overflowed when aligned

---
 allocators/objpool/objpool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index 72cbee0..8d4dc45 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -11,6 +11,9 @@ HARBOL_EXPORT NO_NULL bool harbol_objpool_init(struct HarbolObjPool *const objpo
 	}
 	
 	size_t const aligned_objsize = harbol_align_size(objsize, sizeof(size_t));
+	if( aligned_objsize < objsize ) {
+		return false;
+	}
 	objpool->mem = ( uintptr_t )(calloc(len, aligned_objsize));
 	if( objpool->mem==NIL ) {
 		return false;
-- 
2.43.0


From e72f44dbc19f0b450fa8c5d54b91efc56f80587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 25/50] fix: tuple creation ignored a failed allocation of its
 field table

---
 tuple/tuple.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 27e8b70..6429541 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -52,7 +52,13 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	}
 	
 	tuple->len = packed? total_size : aligned_total;
-	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
+	bool made_fields = false;
+	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &made_fields);
+	if( !made_fields ) {
+		free(tuple->datum); tuple->datum = NULL;
+		tuple->len = 0;
+		return false;
+	}
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
-- 
2.43.0


From 39d3149e9823556e24530180494ae3863483c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 26/50] fix: tuple never recorded that it is packed

---
 tuple/tuple.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 6429541..1f42524 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -59,6 +59,7 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		tuple->len = 0;
 		return false;
 	}
+	tuple->packed = packed;
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
-- 
2.43.0


From e7a7fbbcd6ef1be7c46da4dec9d6a9d55f395a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 27/50] fix: tuple accepted layouts that do not fit its 16 bit
 field encoding

---
 tuple/tuple.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 1f42524..8cd4a72 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -29,6 +29,11 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		}
 	}
 	
+	/// field sizes and offsets are stored in 16 bits.
+	if( largest_memb > UINT16_MAX ) {
+		return false;
+	}
+	
 	/// next, compute padding and alignment. we do this by having a next and previous size.
 	size_t
 		total_size=0,
@@ -46,6 +51,9 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	
 	/// now do a final size alignment with the largest member.
 	size_t const aligned_total = harbol_align_size(total_size, largest_memb >= ptr_size? ptr_size : largest_memb);
+	if( aligned_total > UINT16_MAX ) {
+		return false;
+	}
 	tuple->datum = calloc(packed? total_size : aligned_total, sizeof *tuple->datum);
 	if( tuple->datum==NULL ) {
 		return false;
-- 
2.43.0


From 014d1515a4d34fff6908af1ce4020a99a71d2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 28/50] fix: setting a tree node to a larger value overflowed
 its data

---
 tree/tree.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index ab3546d..aa99b5c 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -59,13 +59,12 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		return false;
 	}
 	
-	if( tree->data==NULL ) {
-		tree->data = calloc(datasize, sizeof *tree->data);
-		if( tree->data==NULL ) {
-			return false;
-		}
+	uint8_t *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return false;
 	}
-	memcpy(tree->data, val, datasize);
+	free(tree->data);
+	tree->data = data;
 	tree->len = datasize;
 	return true;
 }
-- 
2.43.0


From 9adfde161c649277c1ef326568028cb7468312a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 29/50] fix: tree lookup by value ignored the size of the value

---
 tree/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index aa99b5c..363e52d 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -105,7 +105,7 @@ HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, vo
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			harbol_tree_free(child_ref);
 			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
 		}
@@ -124,7 +124,7 @@ HARBOL_EXPORT struct HarbolTree *harbol_tree_get_node_by_val(struct HarbolTree c
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			return *child_ref;
 		}
 	}
-- 
2.43.0


From 4337377e79fa877cfeaeb958911b079da1e8c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 30/50] fix: math parser wrote past its token buffer on long
 literals

---
 math/math_parser.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index fd733da..b32bce2 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -40,7 +40,11 @@ struct HarbolMathLexer {
 
 static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	bool has_dot = false;
-	while( expression[ls->idx] != 0 && (isalnum(expression[ls->idx]) || expression[ls->idx]=='.') ) {
+	while( expression[ls->idx] != 0 && (isalnum(( unsigned char )(expression[ls->idx])) || expression[ls->idx]=='.') ) {
+		if( ls->tok.size >= LEXEME_SIZE-1 ) {
+			/// literal doesn't fit the zero-terminated lexeme.
+			return false;
+		}
 		switch( expression[ls->idx] ) {
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
@@ -158,7 +162,11 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			}
 			default: {
 				bool got_something = false;
-				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE ) {
+				while( expression[ls->idx] != 0 && isalnum(( unsigned char )(expression[ls->idx])) ) {
+					if( ls->tok.size >= LEXEME_SIZE-1 ) {
+						/// identifier doesn't fit the zero-terminated lexeme.
+						return false;
+					}
 					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
 					ls->idx++;
 					ls->tok.size++;
-- 
2.43.0


From 9bcf7ffd862141624ce52116d958f315c53ea64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 31/50] fix: math parser evaluated malformed expressions as if
 they were valid

---
 math/math_parser.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index b32bce2..d21b12d 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -35,6 +35,7 @@ struct HarbolMathLexer {
 	HarbolMathVarFunc       *var_func;
 	void                    *data;
 	size_t                   expr_len, idx, data_len;
+	bool                     malformed;
 };
 
 
@@ -89,11 +90,15 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			case '.': 
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
-				ls->tok.tag = TokenNum;
 				/// Decimal/Float.
 				bool const res = _harbol_math_lex_decimal(ls, expression);
 				if( res ) {
-					ls->tok.val = strtofmax(ls->tok.lexeme, NULL);
+					ls->tok.tag = TokenNum;
+					char *end = NULL;
+					ls->tok.val = strtofmax(ls->tok.lexeme, &end);
+					ls->malformed |= end==ls->tok.lexeme; /// only a dot.
+				} else {
+					ls->malformed = true;
 				}
 				return res;
 			}
@@ -165,6 +170,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 				while( expression[ls->idx] != 0 && isalnum(( unsigned char )(expression[ls->idx])) ) {
 					if( ls->tok.size >= LEXEME_SIZE-1 ) {
 						/// identifier doesn't fit the zero-terminated lexeme.
+						ls->malformed = true;
 						return false;
 					}
 					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
@@ -177,6 +183,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 					return true;
 				}			
 				//LogError("ConfigMap-Math :: invalid expression token '%s'.", ls->tok.lexeme);
+				ls->malformed = true;
 				return false;
 			}
 		}
@@ -199,7 +206,9 @@ HARBOL_EXPORT floatmax_t harbol_math_parse_expr(char const expression[const rest
 		.data_len = data_len,
 	};
 	_harbol_math_get_token(&ls, expression);
-	return harbol_math_parse_add_expr(&ls, expression);
+	floatmax_t const val = harbol_math_parse_add_expr(&ls, expression);
+	/// the whole text has to be one expression.
+	return( ls.malformed || ls.tok.tag != TokenInvalid )? ( floatmax_t )(NAN) : val;
 }
 
 /// AddExpr = MulExpr *( ('+' | '-') MulExpr ) .
@@ -263,10 +272,9 @@ floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict l
 
 /// Factor = number | ident | func ( '(' | '[' )? UnaryExpr , PowExpr | '(' Expr ')' | '[' Expr ']' .
 floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
-	union {
-		uintmax_t  u;
+	struct {
 		floatmax_t f;
-	} value = { UINTMAX_MAX };
+	} value = { NAN };
 	switch( ls->tok.tag ) {
 		case TokenNum: {
 			floatmax_t const f = ls->tok.val;
@@ -288,6 +296,7 @@ floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, c
 					return (*math_fn)( (ls->tok.tag==TokenLParen || ls->tok.tag==TokenLBrack)? harbol_math_parse_unary_expr(ls, expression) : harbol_math_parse_pow_expr(ls, expression) );
 				}
 			}
+			ls->malformed |= isnan(value.f);
 			return value.f;
 		}
 		case TokenLParen: {
@@ -295,6 +304,7 @@ floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, c
 			floatmax_t const f = harbol_math_parse_add_expr(ls, expression);
 			if( ls->tok.tag != TokenRParen ) {
 				//LogError("ConfigMap-Math :: expected ')' bracket but got '%s'", ls->tok.lexeme);
+				ls->malformed = true;
 				return value.f;
 			}
 			_harbol_math_get_token(ls, expression);
@@ -305,12 +315,14 @@ floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, c
 			floatmax_t const f = harbol_math_parse_add_expr(ls, expression);
 			if( ls->tok.tag != TokenRBrack ) {
 				//LogError("ConfigMap-Math :: expected ']' bracket but got '%s'", ls->tok.lexeme);
+				ls->malformed = true;
 				return value.f;
 			}
 			_harbol_math_get_token(ls, expression);
 			return f;
 		}
 		default: {
+			ls->malformed = true;
 			return value.f;
 		}
 	}
-- 
2.43.0


From 17efecd7166ecf9d0bb634b64678aa2fad7824f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 32/50] fix: math parser exhausted the stack on deeply nested
 expressions

---
 math/math_parser.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index d21b12d..45592de 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -7,6 +7,7 @@
 
 enum {
 	LEXEME_SIZE = 64,
+	MAX_NESTING = 1000, /// limit of nested brackets, functions & signs.
 };
 
 enum HarbolMathTokenType {
@@ -34,7 +35,7 @@ struct HarbolMathLexer {
 	struct HarbolMathToken   tok;
 	HarbolMathVarFunc       *var_func;
 	void                    *data;
-	size_t                   expr_len, idx, data_len;
+	size_t                   expr_len, idx, data_len, depth;
 	bool                     malformed;
 };
 
@@ -259,14 +260,24 @@ floatmax_t harbol_math_parse_pow_expr(struct HarbolMathLexer *const restrict ls,
 
 /// UnaryExpr = *( '-' | '+' ) Factor .
 floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
+	if( ls->depth >= MAX_NESTING ) {
+		ls->malformed = true;
+		return NAN;
+	}
+	
+	floatmax_t val;
+	ls->depth++;
 	if( ls->tok.tag==TokenSub ) {
 		_harbol_math_get_token(ls, expression);
-		return -harbol_math_parse_unary_expr(ls, expression);
+		val = -harbol_math_parse_unary_expr(ls, expression);
 	} else if( ls->tok.tag==TokenPlus ) {
 		_harbol_math_get_token(ls, expression);
-		return fabs( harbol_math_parse_unary_expr(ls, expression) );
+		val = fabs( harbol_math_parse_unary_expr(ls, expression) );
+	} else {
+		val = harbol_math_parse_factor(ls, expression);
 	}
-	return harbol_math_parse_factor(ls, expression);
+	ls->depth--;
+	return val;
 }
 
 
-- 
2.43.0


From 1b2fbb96c1185d5d3d4af6399f88b1bad96f8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 33/50] fix: message span of a source without newlines lost its
 text

---
 msg_span/msg_span.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 21fbc8e..b794603 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -31,12 +31,8 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	}
 	lex_fix_newlines(&msgspan->src.code, true);
 	
-	size_t newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
-	if( newlines==0 ) {
-		newlines = 1;
-	}
-	
-	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
+	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
+	size_t *newline_offs = calloc(newlines + 1, sizeof *newline_offs);
 	if( newline_offs==NULL ) {
 		harbol_string_clear(&msgspan->src.code);
 		return false;
@@ -61,7 +57,9 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 		size_t const offs = newline_offs[i-1] + 1;
 		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
 	}
-	harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
+	if( newlines > 0 ) {
+		harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
+	}
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
-- 
2.43.0


From a5706bc23c9c073426add13e5b30b1dacf7de20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 34/50] fix: message span creation ignored failures to read or
 copy the source

---
 msg_span/msg_span.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index b794603..54f798c 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -25,16 +25,24 @@ HARBOL_EXPORT struct HarbolMsgSpan harbol_msg_span_make(char const cstr[const re
 }
 
 HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msgspan, char const cstr[const restrict static 1], bool const is_filename, bool const free_src_str) {
-	(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
-	if( is_filename ) {
-		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
+	bool const got_code = (( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
+	if( !got_code && (is_filename || cstr[0] != 0) ) {
+		return false;
+	} else if( is_filename && !harbol_string_copy_cstr(&msgspan->src.filename, cstr) ) {
+		harbol_msg_span_clear(msgspan);
+		return false;
 	}
 	lex_fix_newlines(&msgspan->src.code, true);
+	if( msgspan->src.code.cstr != NULL && strpbrk(msgspan->src.code.cstr, "\r\t") != NULL ) {
+		/// out of memory while replacing them.
+		harbol_msg_span_clear(msgspan);
+		return false;
+	}
 	
 	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
 	size_t *newline_offs = calloc(newlines + 1, sizeof *newline_offs);
 	if( newline_offs==NULL ) {
-		harbol_string_clear(&msgspan->src.code);
+		harbol_msg_span_clear(msgspan);
 		return false;
 	}
 	
@@ -46,25 +54,29 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	
 	msgspan->src.lines = calloc(newlines + 1, sizeof *msgspan->src.lines);
 	if( msgspan->src.lines==NULL ) {
-		harbol_string_clear(&msgspan->src.code);
+		harbol_msg_span_clear(msgspan);
 		free(newline_offs); newline_offs = NULL;
 		return false;
 	}
 	
 	msgspan->src.len = newlines + 1;
-	harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
+	bool res = msgspan->src.code.cstr==NULL || msgspan->src.code.cstr[0]==0 || harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
 	for( size_t i=1; i < newlines; i++ ) {
 		size_t const offs = newline_offs[i-1] + 1;
-		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
+		res &= msgspan->src.code.cstr[offs]==0 || harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
 	}
 	if( newlines > 0 ) {
-		harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
+		size_t const offs = newline_offs[newlines-1] + 1;
+		res &= msgspan->src.code.cstr[offs]==0 || harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[offs]);
 	}
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
 	free(newline_offs); newline_offs = NULL;
-	return true;
+	if( !res ) {
+		harbol_msg_span_clear(msgspan);
+	}
+	return res;
 }
 
 
@@ -99,6 +111,7 @@ HARBOL_EXPORT void harbol_msg_span_clear(struct HarbolMsgSpan *const msgspan) {
 		harbol_string_clear(&msgspan->src.lines[i]);
 	}
 	free(msgspan->src.lines); msgspan->src.lines = NULL;
+	msgspan->src.len = 0;
 	_harbol_msg_span_purge_labels(msgspan, true);
 	_harbol_msg_span_purge_notes(msgspan, true);
 }
-- 
2.43.0


From 109cbb627794c515a1e9e079f3fb9c83549a573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 35/50] fix: out of memory turned one CRLF newline into two

---
 lex/lex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index c8dc42c..a3afd06 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1619,7 +1619,9 @@ lex_custom_lit_err:;
 }
 
 HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const replace_tabs_w_spaces) {
-	harbol_string_replace_cstr(str, "\r\n", "\n", -1);
+	if( !harbol_string_replace_cstr(str, "\r\n", "\n", -1) && str->cstr != NULL && strstr(str->cstr, "\r\n") != NULL ) {
+		return; /// out of memory: don't turn one newline into two.
+	}
 	harbol_string_replace_cstr(str, "\r",   "\n", -1);
 	if( replace_tabs_w_spaces ) {
 		harbol_string_replace_cstr(str, "\t", "    ", -1);
-- 
2.43.0


From b553cb6a3e010e00008f17b9e69244f276f36948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 36/50] fix: skipping a string ending in an escape ran past the
 text

---
 lex/lex.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index a3afd06..bb60da3 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -99,10 +99,13 @@ HARBOL_EXPORT char const *skip_chars_until_newline(char const str[static 1], boo
 }
 
 HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char const esc) {
+	if( *str==0 ) {
+		return str;
+	}
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	return str;
 }
@@ -169,7 +172,7 @@ HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_
 HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char const quote[static 1], size_t const quote_len, char const esc) {
 	while( *str != 0 && strncmp(quote, str, quote_len) != 0 ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	if( *str != 0 ) {
 		str += quote_len;
-- 
2.43.0


From 19bd95a597b5588a42e8b9398e6b7c26cbae3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 37/50] fix: comment scanners ran past the end of an
 unterminated text

---
 lex/lex.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index bb60da3..17649b5 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -114,9 +114,11 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	char const *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			while( *++begin != 0 && *begin != '\n' );
 			if( *begin=='\n' ) {
 				++*lines;
+			} else {
+				break;
 			}
 		}
 		begin++;
@@ -124,7 +126,7 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	return begin;
 }
 HARBOL_EXPORT char const *skip_multi_line_comment(char const str[static 1], char const end_token[static 1], size_t const end_len, uint32_t *const restrict lines) {
-	char const *begin = str + 1;
+	char const *begin = str + (*str != 0);
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			++*lines;
@@ -141,7 +143,10 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 	char *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			while( *++begin != 0 && *begin != '\n' );
+			if( *begin==0 ) {
+				break;
+			}
 			memset(str, ' ', begin-str);
 			str = ++begin;
 		} else {
@@ -153,7 +158,7 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 }
 
 HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_token[static 1], size_t const end_len) {
-	char *begin = str + 1;
+	char *begin = str + (*str != 0);
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			memset(str, ' ', begin-str);
@@ -184,11 +189,13 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 	while( *str != 0 && *str != '\n' ) {
 		if( *str=='\\' ) {
 			harbol_string_add_char(buf, *str);
-			while( *++str != '\n' ) {
+			while( *++str != 0 && *str != '\n' ) {
 				harbol_string_add_char(buf, *str);
 			}
 			if( *str=='\n' ) {
 				++*lines;
+			} else {
+				break;
 			}
 		}
 		harbol_string_add_char(buf, *str++);
@@ -198,7 +205,9 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 }
 
 HARBOL_EXPORT bool lex_multi_line_comment(char const str[static 1], char const **const end, char const end_token[static 1], size_t const end_len, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
-	harbol_string_add_char(buf, *str++);
+	if( *str != 0 ) {
+		harbol_string_add_char(buf, *str++);
+	}
 	while( *str != 0 && strncmp(end_token, str, end_len) != 0 ) {
 		if( *str=='\n' ) {
 			++*lines;
-- 
2.43.0


From c4015cd994f0864950948f0b8fb4c2448f48068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 38/50] fix: truncated number and string literals were lexed
 past the end of the text

---
 lex/lex.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 17649b5..aa7feff 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -503,7 +503,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		harbol_string_add_char(buf, *str++);
 	}
 	
-	if( *str != 'x' && *str != 'X' ) {
+	if( *str==0 ) {
+		*end = str;
+		return HarbolLexEoF;
+	} else if( *str != 'x' && *str != 'X' ) {
 		/// missing following `x`.
 		harbol_string_add_char(buf, *str++);
 		result = HarbolLexMissingX;
@@ -701,7 +704,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		harbol_string_add_char(buf, *str++);
 	}
 	
-	if( *str != 'x' && *str != 'X' ) {
+	if( *str==0 ) {
+		*end = str;
+		return HarbolLexEoF;
+	} else if( *str != 'x' && *str != 'X' ) {
 		harbol_string_add_char(buf, *str++);
 		result = HarbolLexMissingX;
 		goto lex_go_style_hex_err;
@@ -900,7 +906,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 		harbol_string_add_char(buf, *str++);
 	}
 	
-	if( *str != 'o' && *str != 'O' ) {
+	if( *str==0 ) {
+		*end = str;
+		return HarbolLexEoF;
+	} else if( *str != 'o' && *str != 'O' ) {
 		harbol_string_add_char(buf, *str++);
 		result = HarbolLexMissingO;
 		goto lex_go_style_octal_err;
@@ -960,7 +969,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 		harbol_string_add_char(buf, *str++);
 	}
 	
-	if( *str != 'b' && *str != 'B' ) {
+	if( *str==0 ) {
+		*end = str;
+		return HarbolLexEoF;
+	} else if( *str != 'b' && *str != 'B' ) {
 		harbol_string_add_char(buf, *str++);
 		result = HarbolLexMissingB;
 		goto lex_c_style_binary_err;
@@ -1052,7 +1064,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 		harbol_string_add_char(buf, *str++);
 	}
 	
-	if( *str != 'b' && *str != 'B' ) {
+	if( *str==0 ) {
+		*end = str;
+		return HarbolLexEoF;
+	} else if( *str != 'b' && *str != 'B' ) {
 		result = HarbolLexMissingB;
 		harbol_string_add_char(buf, *str++);
 		goto lex_go_style_binary_err;
@@ -1406,6 +1421,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 
 static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool const raw) {
 	int result = HarbolLexNoErr;
+	if( *str==0 ) {
+		result = HarbolLexEoF;
+		goto lex_str_err;
+	}
 	for( int_fast8_t const quote = *str++; *str != quote; str++ ) {
 		int_fast8_t const c = *str;
 		if( c==0 ) {
@@ -1413,7 +1432,10 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 			goto lex_str_err;
 		} else if( c=='\\' ) {
 			char const esc = *++str;
-			if( raw ) {
+			if( esc==0 ) {
+				result = HarbolLexSuddenEoFStr;
+				goto lex_str_err;
+			} else if( raw ) {
 				harbol_string_add_char(buf, c);
 				harbol_string_add_char(buf, esc);
 			} else {
-- 
2.43.0


From 21056ca18182fdc44e346a651afd378a19f04823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 39/50] fix: hex and unicode escapes shifted into the sign bit

---
 lex/lex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index aa7feff..3ee2e68 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -415,7 +415,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 
 
 HARBOL_EXPORT int32_t lex_hex_escape_char(char const str[static 1], char const **const end) {
-	int32_t r = 0;
+	uint32_t r = 0;
 	size_t count = 0;
 	if( !is_hex(*str) ) {
 		r = -1;
@@ -469,7 +469,7 @@ exit:;
 }
 
 HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **const end, size_t const encoding) {
-	int32_t r = 0;
+	uint32_t r = 0;
 	for( size_t i=0; i < encoding*2; i++ ) {
 		int_fast8_t const c = *str;
 		switch( c ) {
@@ -487,7 +487,7 @@ HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **co
 	}
 exit:;
 	*end = str;
-	return !is_valid_unicode(r)? -1 : r;
+	return !is_valid_unicode(r)? -1 : ( int32_t )(r);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
-- 
2.43.0


From 874dbe04222d8f1362959034165e55709fcad50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 40/50] fix: decoding a truncated UTF-8 sequence read past the
 text

---
 lex/lex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 3ee2e68..a7c3554 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -61,7 +61,9 @@ HARBOL_EXPORT size_t get_str_rune_len(char const cstr[const static 1]) {
 	size_t runes = 0;
 	for( size_t i=0; cstr[i] != 0; ) {
 		size_t const read = get_utf8_len(cstr[i]);
-		i += read;
+		for( size_t n=0; n < read && cstr[i] != 0; n++ ) {
+			i++; /// a truncated sequence ends with the text.
+		}
 		runes++;
 	}
 	return runes;
@@ -406,7 +408,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 		return -1;
 	}
 	int32_t rune = -1;
-	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len, &rune);
+	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len - *idx, &rune);
 	if( bytes_read > 0 ) {
 		*idx += bytes_read;
 	}
-- 
2.43.0


From 6a2040672408421f2fbbb9264b0246d50a79ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 41/50] fix: a deque without capacity wrote out of bounds and
 could not grow

---
 deque/deque.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 05177dc..1362ff5 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -27,7 +27,10 @@ HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t con
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
 	}
-	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
+	if( deque->cap > 0 ) {
+		deque->nexts[deque->cap - 1] = SIZE_MAX;
+	}
+	deque->head = deque->tail = SIZE_MAX;
 	deque->freed = deque->cap - 1;
 	return true;
 }
@@ -44,7 +47,10 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
 	}
-	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
+	if( deque->cap > 0 ) {
+		deque->nexts[deque->cap - 1] = SIZE_MAX;
+	}
+	deque->head = deque->tail = SIZE_MAX;
 	deque->freed = deque->cap - 1;
 }
 
@@ -54,6 +60,7 @@ HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
 	}
 	harbol_multi_cleanup(3, &deque->nexts, &deque->prevs, &deque->datum);
 	*deque = ( struct HarbolDeque ){0};
+	deque->head = deque->tail = deque->freed = SIZE_MAX;
 }
 HARBOL_EXPORT void harbol_deque_free(struct HarbolDeque **const dequeref) {
 	if( *dequeref==NULL ) {
@@ -133,7 +140,7 @@ HARBOL_EXPORT void *harbol_deque_get_data(struct HarbolDeque const *const deque,
 }
 
 HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
@@ -156,7 +163,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 }
 
 HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
-- 
2.43.0


From 2651d8a48d4acc2b253d48f931c0d64e6f222a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 42/50] fix: harbol_deque_reset kept the old element count

---
 deque/deque.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deque/deque.c b/deque/deque.c
index 1362ff5..d696285 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -52,6 +52,7 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 	}
 	deque->head = deque->tail = SIZE_MAX;
 	deque->freed = deque->cap - 1;
+	deque->len = 0;
 }
 
 HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
-- 
2.43.0


From d7da4b8d905f028514b4c522e8b6b2c0f49d9cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 43/50] fix: the first element of a deque kept stale neighbour
 links

---
 deque/deque.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index d696285..1fe49ae 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -153,6 +153,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->head==SIZE_MAX ) {
 		deque->head = deque->tail = i;
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 	} else {
 		deque->nexts[i] = deque->head;
 		deque->prevs[i] = SIZE_MAX;
@@ -176,6 +177,7 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->tail==SIZE_MAX ) {
 		deque->head = deque->tail = i;
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 	} else {
 		deque->prevs[i] = deque->tail;
 		deque->nexts[i] = SIZE_MAX;
-- 
2.43.0


From 2e7b2b6dca0c97bebd7064bb54d99a0e15538c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 44/50] fix: a deque kept an element without data when memory
 ran out

---
 deque/deque.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 1fe49ae..4fb25d3 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -151,6 +151,10 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->head==SIZE_MAX ) {
 		deque->head = deque->tail = i;
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
@@ -175,6 +179,10 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->tail==SIZE_MAX ) {
 		deque->head = deque->tail = i;
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
-- 
2.43.0


From eb7de1fe4b5cbdce5f3f4f93719f6829a6687ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 45/50] fix: a map without capacity crashed on lookup and could
 not grow

---
 map/map.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/map/map.c b/map/map.c
index 905fcad..25815da 100644
--- a/map/map.c
+++ b/map/map.c
@@ -63,6 +63,9 @@ HARBOL_EXPORT void harbol_map_free(struct HarbolMap **const map_ref) {
 
 
 HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const map, void const *const key, size_t const keylen) {
+	if( map->len==0 ) {
+		return SIZE_MAX;
+	}
 	uint8_t const *const restrict desired_key = key;
 	size_t const hash    = array_hash(desired_key, keylen, map->seed);
 	size_t const mask    = map->cap - 1;
@@ -127,15 +130,15 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 		map->buckets[i] = SIZE_MAX;
 	}
 	
-	bool res = false;
+	bool res = true;
 	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
+		res &= _harbol_map_insert_entry(map, i);
 	}
 	return res;
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
-	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, map->cap << 1)) ) {
+	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, map->cap==0? 1 : map->cap << 1)) ) {
 		return false;
 	}
 	
-- 
2.43.0


From 9d82fddbf9faf26ed66628e69dfb72c09a5916a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 46/50] fix: map lookup skipped the first bucket when the home
 bucket is the last one

---
 map/map.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/map/map.c b/map/map.c
index 25815da..8ce8be9 100644
--- a/map/map.c
+++ b/map/map.c
@@ -77,12 +77,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		return val_idx;
 	}
 	
-	for( size_t i = bkt_idx+1; i != bkt_idx; (i = (i+1 >= mask)? ((i+1) & mask) : i+1) ) {
-		/// sometimes the `bkt_idx` is at the mask index. Account for that.
-		if( i > mask ) {
-			continue;
-		}
-		
+	for( size_t i = (bkt_idx+1) & mask; i != bkt_idx; i = (i+1) & mask ) {
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
-- 
2.43.0


From b04fa732b89a5350e70805a5d03ffce7ebe6eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 47/50] fix: rehashing a map to fewer or exactly as many
 buckets as entries lost entries

---
 map/map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/map/map.c b/map/map.c
index 8ce8be9..07d7c02 100644
--- a/map/map.c
+++ b/map/map.c
@@ -93,7 +93,7 @@ HARBOL_EXPORT bool harbol_map_has_key(struct HarbolMap const *const map, void co
 }
 
 static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n) {
-	if( map->len >= map->cap ) {
+	if( n >= map->cap ) {
 		return false;
 	}
 	
@@ -110,7 +110,7 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
-	if( !harbol_multi_recalloc(new_size, map->cap, 6,
+	if( new_size < map->len || !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
 						&map->datum,    sizeof *map->datum,
-- 
2.43.0


From 9edc8357628abea5038b9b52fe5b40f8246a527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 48/50] fix: harbol_map_idx_set kept the length of the old
 value

---
 map/map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map/map.c b/map/map.c
index 07d7c02..c4649b9 100644
--- a/map/map.c
+++ b/map/map.c
@@ -217,6 +217,7 @@ HARBOL_EXPORT bool harbol_map_idx_set(struct HarbolMap *const restrict map, size
 	}
 	free(map->datum[index]);
 	map->datum[index] = data;
+	map->datalens[index] = datasize;
 	return true;
 }
 
-- 
2.43.0


From f8ca85e160b970513ecf6ac13dc0408d3ebaac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 49/50] fix: removing a map entry left buckets pointing to the
 wrong entries

---
 map/map.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/map/map.c b/map/map.c
index c4649b9..fa4f419 100644
--- a/map/map.c
+++ b/map/map.c
@@ -231,23 +231,24 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = map->hashes[n] & mask;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
-		return false;
-	}
-	
 	free(map->keys[n]);  map->keys[n]  = NULL;
 	free(map->datum[n]); map->datum[n] = NULL;
 	map->hashes[n] = map->keylens[n] = map->datalens[n] = 0;
-	map->buckets[bkt_idx] = SIZE_MAX;
 	
-	return multi_array_shift_up(&map->len, n, 1, 5,
+	bool res = multi_array_shift_up(&map->len, n, 1, 5,
 			map->keys,     sizeof *map->keys,
 			map->datum,    sizeof *map->datum,
 			map->hashes,   sizeof *map->hashes,
 			map->keylens,  sizeof *map->keylens,
 			map->datalens, sizeof *map->datalens
 	);
+	
+	/// the later entries moved down by one: place every entry again.
+	for( size_t i=0; i < map->cap; i++ ) {
+		map->buckets[i] = SIZE_MAX;
+	}
+	for( size_t i=0; i < map->len; i++ ) {
+		res &= _harbol_map_insert_entry(map, i);
+	}
+	return res;
 }
\ No newline at end of file
-- 
2.43.0


From c826eba70109700332f09ed214b2efc50bb631d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 50/50] fix: harbol_string_replace_cstr: length overflow when
 the result is too long

---
 str/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/str/str.c b/str/str.c
index 2d2acec..45843b0 100644
--- a/str/str.c
+++ b/str/str.c
@@ -263,6 +263,9 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	size_t const replace_len = strlen(to_replace);
 	size_t const with_len    = strlen(with);
+	if( with_len > replace_len && amount > (SIZE_MAX - 1 - str->len) / (with_len - replace_len) ) {
+		return false;
+	}
 	struct HarbolString rep_str = {0};
 	
 	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
-- 
2.43.0

