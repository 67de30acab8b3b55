seed("bytebuf-obj-fit", "C03", "bytebuffer/bytebuffer.c", [("	if( buf->len + size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + size) ) {\n		return false;\n	}\n	memcpy(&buf->table[buf->len], obj, size);",
  "	if( buf->len + (size & ~( size_t )(3)) >= buf->cap && !_harbol_buffer_resize(buf, buf->len + size) ) {\n		return false;\n	}\n	memcpy(&buf->table[buf->len], obj, size);")],
  "inserting an object whose size is not a multiple of 4 and exceeds the spare capacity by up to two bytes (a deletion left spare capacity)", "up to two bytes are written past the end of the buffer's storage", ["bytebuffer/bytebuffer.c"], r'''
#include "bytebuffer/bytebuffer.h"
int main(void) {
	struct HarbolByteBuf b = harbol_bytebuffer_make();
	harbol_bytebuffer_insert_zeros(&b, 10);
	harbol_bytebuffer_del(&b, 0, 5);
	/* 5 of 10 bytes used: insert 4 (fits exactly below capacity), then 1 + 2 style odd sizes at the edge */
	harbol_bytebuffer_insert_obj(&b, "abcd", 4);
	harbol_bytebuffer_del(&b, 0, 2);      /* 7 of 10 */
	harbol_bytebuffer_insert_obj(&b, "xyz", 3);
	if( b.len > b.cap ) { puts("length exceeds capacity"); return 1; }
	for( int k=1; k < 40; k++ ) for( int d=1; d < 8; d++ ) {
		struct HarbolByteBuf c = harbol_bytebuffer_make();
		harbol_bytebuffer_insert_zeros(&c, k); harbol_bytebuffer_del(&c, 0, d);
		uint8_t t[16] = { 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16 };
		for( int n=1; n < 12; n++ ) { harbol_bytebuffer_insert_obj(&c, t, n); if( c.len > c.cap ) { puts("length exceeds capacity"); return 1; } }
		harbol_bytebuffer_clear(&c);
	}
	harbol_bytebuffer_clear(&b); return 0;
}
''')
seed("str-cmp-prefix", "C05", "str/str.c", [("	return strncmp(cstr, str->cstr, (str->len > cstr_len)? str->len : cstr_len);", "	return strncmp(cstr, str->cstr, (str->len > cstr_len)? cstr_len + 1 : str->len + (cstr_len > 64));")],
  "comparing a string with a C string that extends it, of at most 64 characters", "a proper prefix compares equal", ["str/str.c"], r'''
#include "str/str.h"
int main(void) {
	bool ok; struct HarbolString s = harbol_string_make("alpha", &ok);
	if( harbol_string_cmpcstr(&s, "alphabet")==0 ) { puts("prefix compares equal"); return 1; }
	if( harbol_string_cmpcstr(&s, "alpha") != 0 || harbol_string_cmpcstr(&s, "alp")==0 ) return 1;
	harbol_string_clear(&s); return 0;
}
''')
seed("str-copy-self-len", "C04", "str/str.c", [("	if( cstr_len==0 || !_harbol_resize_string(str, cstr_len) ) {\n		return false;\n	}\n	strcpy(str->cstr, cstr);", "	if( cstr_len==0 || (cstr_len != str->len - 1 && !_harbol_resize_string(str, cstr_len)) ) {\n		return false;\n	}\n	strcpy(str->cstr, cstr);")],
  "copying a C string that is exactly one character shorter than the text already held", "the length is not updated: it counts the terminator as text", ["str/str.c"], r'''
#include "str/str.h"
int main(void) {
	bool ok; struct HarbolString s = harbol_string_make("first", &ok);
	harbol_string_copy_cstr(&s, "second"); harbol_string_copy_cstr(&s, "third");
	if( s.len != strlen(s.cstr) ) { puts("length differs from text"); return 1; }
	harbol_string_clear(&s); return 0;
}
''')
seed("map-probe-prefix", "C06", "map/map.c", [("		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {", "		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx] >= keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {")],
  "looking up an absent key that is a proper prefix of a stored key and whose home bucket is occupied", "the longer key's entry is returned (and inserting the prefix is refused)", ["map/map.c"], r'''
#include "map/map.h"
int main(void) {
	for( size_t seed=0; seed < 200; seed++ ) {
		bool ok; struct HarbolMap m = harbol_map_make(8, &ok); m.seed = seed;
		int v = 1; harbol_map_insert(&m, "keyboard", 8, &v, sizeof v); harbol_map_insert(&m, "zoo", 3, &v, sizeof v); harbol_map_insert(&m, "apple", 5, &v, sizeof v);
		for( int n=1; n < 8; n++ ) if( harbol_map_has_key(&m, "keyboard", n) ) { puts("prefix found"); return 1; }
		if( !harbol_map_has_key(&m, "keyboard", 8) ) return 1;
		harbol_map_clear(&m);
	}
	return 0;
}
''')
seed("map-rm-hashes", "C07", "map/map.c", [("			map->hashes,   sizeof *map->hashes,\n			map->keylens,  sizeof *map->keylens,\n			map->datalens, sizeof *map->datalens", "			map->hashes,   sizeof *map->hashes >> (n > 3),\n			map->keylens,  sizeof *map->keylens,\n			map->datalens, sizeof *map->datalens")],
  "removing an entry at position 4 or later that is not the last", "the hashes no longer match the keys, so remaining keys may not be found", ["map/map.c"], r'''
#include "map/map.h"
int main(void) {
	for( size_t seed=1; seed < 100; seed++ ) {
		bool ok; struct HarbolMap m = harbol_map_make(16, &ok); m.seed = seed * 7919;
		for( int i=0; i < 14; i++ ) harbol_map_insert(&m, &i, sizeof i, &i, sizeof i);
		int k = 5; harbol_map_key_rm(&m, &k, sizeof k);
		for( int i=0; i < 14; i++ ) {
			int *p = harbol_map_key_get(&m, &i, sizeof i);
			if( (p==NULL) != (i==5) || (p && *p != i) ) { puts("lookup differs after removal"); return 1; }
		}
		int j = 0; for( size_t q=0; q < m.len; q++, j++ ) { if( j==5 ) j++; if( *(int*)harbol_map_idx_get(&m, q) != j ) return 1; }
		/* a later insertion and removal goes through the stored hashes */
		for( int i=20; i < 22; i++ ) harbol_map_insert(&m, &i, sizeof i, &i, sizeof i);
		k = 0; harbol_map_key_rm(&m, &k, sizeof k);
		for( int i=0; i < 22; i++ ) {
			bool want = i != 0 && i != 5 && !(i >= 14 && i < 20);
			if( harbol_map_has_key(&m, &i, sizeof i) != want ) { puts("key lost"); return 1; }
		}
		harbol_map_clear(&m);
	}
	return 0;
}
''')
seed("deque-reset-len", "C08", "deque/deque.c", [("HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {\n	for( size_t i=0; i < deque->cap; i++ ) {\n		free(deque->datum[i]); deque->datum[i] = NULL;\n		deque->prevs[i] = i - 1;",
  "HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {\n	for( size_t i=0; i < deque->cap; i++ ) {\n		deque->prevs[i] = ( deque->datum[i]==NULL )? deque->prevs[i] : i - 1;\n		free(deque->datum[i]); deque->datum[i] = NULL;")],
  "resetting a deque some of whose positions were popped", "the chain of free positions keeps its old links, so live elements can share a position or positions are lost", ["deque/deque.c"], r'''
#include "deque/deque.h"
int main(void) {
	bool ok; struct HarbolDeque d = harbol_deque_make(8, &ok); int v;
	for( int i=0; i < 8; i++ ) harbol_deque_append(&d, &i, sizeof i);
	for( int i=0; i < 3; i++ ) harbol_deque_pop_front(&d, &v, sizeof v);
	for( int i=0; i < 2; i++ ) harbol_deque_pop_back(&d, &v, sizeof v);
	harbol_deque_reset(&d);
	for( int i=0; i < 8; i++ ) if( harbol_deque_append(&d, &i, sizeof i)==SIZE_MAX ) { puts("append refused"); return 1; }
	int k = 0; size_t steps = 0;
	for( size_t n = harbol_deque_head(&d); n != SIZE_MAX && steps < 20; n = harbol_deque_next(&d, n), steps++ ) if( *(int*)harbol_deque_get_data(&d, n) != k++ ) { puts("order"); return 1; }
	if( k != 8 ) { puts("count"); return 1; }
	harbol_deque_clear(&d); return 0;
}
''')
seed("deque-pop-tail", "C08", "deque/deque.c", [("	if( deque->head != SIZE_MAX ) {\n		deque->prevs[deque->head] = SIZE_MAX;\n	} else {\n		deque->tail = SIZE_MAX;\n	}", "	if( deque->head != SIZE_MAX ) {\n		deque->prevs[deque->head] = SIZE_MAX;\n	} else if( deque->freed==deque->cap - 1 ) {\n		deque->tail = SIZE_MAX;\n	}")],
  "popping the only element at the front when it is not stored in the last position", "the tail still names the freed position, so a following append links to it and the head stays empty", ["deque/deque.c"], r'''
#include "deque/deque.h"
int main(void) {
	bool ok; struct HarbolDeque d = harbol_deque_make(4, &ok); int v;
	for( int i=0; i < 3; i++ ) harbol_deque_append(&d, &i, sizeof i);
	for( int i=0; i < 3; i++ ) if( !harbol_deque_pop_front(&d, &v, sizeof v) || v != i ) return 1;
	v = 7; harbol_deque_append(&d, &v, sizeof v);
	if( harbol_deque_get_front(&d)==NULL || *(int*)harbol_deque_get_front(&d) != 7 ) { puts("front lost"); return 1; }
	harbol_deque_clear(&d); return 0;
}
''')
seed("region-unaligned", "C09", "allocators/region/region.c", [("	if( region->offs - alloc_size >= region->size ) {", "	if( region->offs < size ) {")],
  "a request that fits before but not after rounding up, in a region whose size is not a multiple of 8", "the block starts before the region's storage", ["allocators/region/region.c"], r'''
#include "allocators/region/region.h"
int main(void) {
	struct HarbolRegion r = harbol_region_make(20);
	uint8_t *a = harbol_region_alloc(&r, 16), *b;
	size_t left = harbol_region_remaining(&r);
	b = r.offs >= 3 && harbol_align_size(3, sizeof(uintptr_t)) > r.offs? harbol_region_alloc(&r, 3) : NULL;
	if( b != NULL && (b < r.mem || b + 3 > r.mem + 20) ) { puts("block outside the region"); return 1; }
	if( harbol_region_remaining(&r) != left ) return 1;
	(void)a; harbol_region_clear(&r); return 0;
}
''')
seed("bistack-resize-front", "C10", "allocators/bistack/bistack.c", [("	bistk->size  = bistk->back = new_size;\n	bistk->front = 0;", "	bistk->front = ( bistk->front < bistk->size - new_size )? bistk->front : 0;\n	bistk->size  = bistk->back = new_size;")],
  "shrinking a bi-stack by more than its front allocations occupy while those exceed the new size", "the front end lies beyond the back end", ["allocators/bistack/bistack.c"], r'''
#include "allocators/bistack/bistack.h"
int main(void) {
	bool ok; struct HarbolBiStack s = harbol_bistack_make(1000, &ok);
	harbol_bistack_alloc_front(&s, 300);
	if( !harbol_bistack_resize(&s, 200) ) return 1;
	if( s.front > s.back ) { puts("ends cross"); return 1; }
	uint8_t *p = harbol_bistack_alloc_front(&s, 64);
	if( p != NULL ) { if( p < s.mem || p + 64 > s.mem + s.size ) { puts("outside"); return 1; } memset(p, 1, 64); }
	if( harbol_bistack_get_margins(s) > s.size ) return 1;
	harbol_bistack_clear(&s); return 0;
}
''')
seed("objpool-buffer-fit", "C11", "allocators/objpool/objpool.c", [("	if( objsize < sizeof(size_t) || (objsize * len) < (harbol_align_size(objsize, sizeof(size_t)) * len) ) {", "	if( objsize < sizeof(size_t) || (objsize & 1) ) {")],
  "making a pool from a caller's buffer with an even object size that is not a multiple of 8", "the last blocks of the pool lie outside the buffer", ["allocators/objpool/objpool.c"], r"""
#include "allocators/objpool/objpool.h"
int main(void) {
	bool ok; uint8_t *buf = malloc(12 * 10);
	struct HarbolObjPool p = harbol_objpool_from_buffer(buf, 12, 10, &ok);
	if( ok ) for( int i=0; i < 10; i++ ) { uint8_t *b = harbol_objpool_alloc(&p); if( b != NULL && (b < buf || b + 12 > buf + 120) ) { puts("block outside the buffer"); return 1; } }
	free(buf); return 0;
}
""")
seed("tuple-set-wide", "C12", "tuple/tuple.c", [("	return memcpy(field, val, *field_data >> 16);", "	return memcpy(field, val, ( int16_t )(*field_data >> 16) < 0? *field_data >> 17 : *field_data >> 16);")],
  "setting a field of 32768 bytes or more", "only half of the field is stored", ["tuple/tuple.c", "array/array.c"], r'''
#include "tuple/tuple.h"
int main(void) {
	bool ok; size_t const sizes[] = { 4, 40000, 2 }; static uint8_t v[40000], *f;
	struct HarbolTuple t = harbol_tuple_create(3, sizes, true, &ok); if( !ok ) return 1;
	for( int i=0; i < 40000; i++ ) v[i] = i % 251 + 1;
	harbol_tuple_set(&t, 1, v); f = harbol_tuple_get(&t, 1);
	if( memcmp(f, v, sizeof v) ) { puts("field differs"); return 1; }
	harbol_tuple_clear(&t); return 0;
}
''')
seed("tuple-last-pad", "C12", "tuple/tuple.c", [("		offset = harbol_align_size(offset, offalign >= ptr_size? ptr_size : offalign);", "		offset = harbol_align_size(offset, offalign > ptr_size? ( size_t )(16) : offalign);")],
  "an unpacked tuple with a field wider than a pointer after a narrower one", "the field does not start where the C rules put it, and the last field can leave the storage", ["tuple/tuple.c", "array/array.c"], r'''
#include "tuple/tuple.h"
int main(void) {
	bool ok; size_t const sizes[] = { 8, 24, 8 };
	struct HarbolTuple t = harbol_tuple_create(3, sizes, false, &ok); if( !ok ) return 1;
	size_t want = 0;
	for( int i=0; i < 3; i++ ) { uint8_t *f = harbol_tuple_get(&t, i); if( f==NULL || f != t.datum + want || f + sizes[i] > t.datum + t.len ) { puts("field misplaced"); return 1; } want += sizes[i]; }
	harbol_tuple_clear(&t); return 0;
}
''')
seed("tree-rm-index", "C13", "tree/tree.c", [("	harbol_tree_free(child_ref);\n	return harbol_array_del_by_index(&tree->kids, index, sizeof *child_ref);\n}", "	harbol_tree_free(child_ref);\n	*child_ref = ( index==0 && tree->kids.len > 4 )? *( struct HarbolTree** )(harbol_array_pop(&tree->kids, sizeof *child_ref)) : NULL;\n	return( *child_ref != NULL ) || harbol_array_del_by_index(&tree->kids, index, sizeof tree);\n}")],
  "removing the first of more than four children by index", "the last child moves to the front", ["tree/tree.c", "array/array.c"], r'''
#include "tree/tree.h"
int main(void) {
	int v = -1; struct HarbolTree *t = harbol_tree_new(&v, sizeof v);
	for( int i=0; i < 6; i++ ) harbol_tree_insert_val(t, &i, sizeof i);
	harbol_tree_rm_index(t, 0);
	for( int i=0; i < 5; i++ ) { struct HarbolTree *c = harbol_tree_get_node_by_index(t, i); if( c==NULL || *(int*)harbol_tree_get(c) != i + 1 ) { puts("order"); return 1; } }
	harbol_tree_free(&t); return 0;
}
''')
seed("variant-set-early", "C14", "variant/variant.c", [("	uint8_t *const cpy = dup_data(val, datasize);\n	if( cpy==NULL ) {\n		return false;\n	}\n	if( variant->data != NULL ) {\n		free(variant->data); variant->data = NULL;\n	}\n	variant->data = cpy;", "	if( variant->data != NULL && datasize > variant->size ) {\n		free(variant->data); variant->data = NULL;\n	}\n	uint8_t *const cpy = dup_data(val, datasize);\n	if( cpy==NULL ) {\n		return false;\n	}\n	free(variant->data);\n	variant->data = cpy;")],
  "setting a variant to a larger value when memory cannot be obtained", "the previous value is lost", ["variant/variant.c"], r'''
#include "variant/variant.h"
int main(void) {
	bool ok; int v = 42; struct HarbolVariant a = harbol_variant_make(&v, sizeof v, 1, &ok);
	if( harbol_variant_set(&a, &v, SIZE_MAX / 2) ) return 1;
	if( harbol_variant_data(&a)==NULL || *(int*)harbol_variant_data(&a) != 42 || harbol_variant_size(&a) != sizeof v ) { puts("value lost"); return 1; }
	harbol_variant_clear(&a); return 0;
}
''')
seed("utf8-write-3", "C15", "lex/lex.c", [("			buf[0] = (0xE0 | (rune >> 12));\n			buf[1] = (0x80 | ((rune >> 6) & 0x3F));", "			buf[0] = (0xE0 | (rune >> 12));\n			buf[1] = (0x80 | ((rune >> 6) & (rune < 0xF000? 0x3F : 0x1F)));")],
  "encoding a code point from U+F800 to U+FFFF", "the encoded bytes decode to a different code point", ["lex/lex.c", "str/str.c"], r'''
#include "lex/lex.h"
int main(void) {
	for( int32_t r=1; r < 0x110000; r++ ) {
		char b[8] = {0}; int32_t q = -1;
		size_t n = write_utf8_cstr(b, sizeof b, r), m = read_utf8(b, sizeof b, &q);
		if( n != m || q != r ) { printf("U+%X reads back as U+%X\n", r, q); return 1; }
	}
	return 0;
}
''')
seed("lex-skip-esc", "C16", "lex/lex.c", [("	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {\n		if( *begin=='\\n' ) {\n			memset(str, ' ', begin-str);\n			str = ++begin;\n		} else {", "	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {\n		if( *begin=='\\n' || (*begin=='\\\\' && begin[1] != ' ') ) {\n			memset(str, ' ', begin-str);\n			begin += 1 + (*begin=='\\\\');\n			str = begin;\n		} else {")],
  "clearing an unterminated comment whose last character is a backslash", "the scan steps over the terminator", ["lex/lex.c", "str/str.c"], r'''
#include "lex/lex.h"
int main(void) {
	char *t = strdup("/* path c:\\dir\\"); size_t n = strlen(t);
	char *e = clear_multi_line_comment(t, "*/", 2);
	if( e > t + n ) { puts("past the terminator"); return 1; }
	free(t); return 0;
}
''')
seed("multi-calloc-res", "C19", "harbol_common_includes.h", [("		for( size_t i=0; i < n_buffers; i++ ) {\n			void **buf = va_arg(cp, void**);\n			va_arg(cp, size_t);\n			free(*buf); *buf = NULL;\n		}", "		for( size_t i=0; i < n_buffers; i++ ) {\n			void **buf = va_arg(cp, void**);\n			va_arg(cp, size_t);\n			free(*buf);\n			res |= *buf==NULL;\n			*buf = NULL;\n		}")],
  "any buffer's allocation failing", "the buffers are released but success is reported", [], r'''
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
int main(void) {
	void *a = NULL, *b = NULL, *c = NULL;
	if( harbol_multi_calloc(16, 3, &a, sizeof(int), &b, SIZE_MAX / 32, &c, sizeof(char)) ) return 1;
	if( a != NULL || b != NULL || c != NULL ) { puts("a buffer was kept"); return 1; }
	return 0;
}
''')

seed("tree-grow-fail", "C20", "tree/tree.c", [("	} else if( !harbol_array_init(&tree->kids, sizeof tree, 4) ) {\n		free(tree->data); tree->data = NULL;\n		return false;", "	} else if( !harbol_array_init(&tree->kids, sizeof tree, 4) ) {\n		tree->data = NULL;\n		return false;")],
  "creating a tree node when memory for its value can be obtained but memory for its child table cannot", "the value's memory is leaked", ["tree/tree.c", "array/array.c"], r'''
#include "tree/tree.h"
#include <dlfcn.h>
static int live, fail_at = -1, calls;
void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void __real_free(void*);
void *__wrap_calloc(size_t n, size_t s) { if( calls++==fail_at ) return NULL; void *p = __real_calloc(n, s); live += p != NULL; return p; }
void *__wrap_malloc(size_t s) { if( calls++==fail_at ) return NULL; void *p = __real_malloc(s); live += p != NULL; return p; }
void __wrap_free(void *p) { live -= p != NULL; __real_free(p); }
int main(void) {
	for( fail_at=0; fail_at < 6; fail_at++ ) {
		int v = 3; calls = 0; live = 0;
		struct HarbolTree *t = harbol_tree_new(&v, sizeof v);
		if( t != NULL ) harbol_tree_free(&t);
		if( live != 0 ) { printf("failing allocation %d leaks %d blocks\n", fail_at, live); return 1; }
	}
	return 0;
}
''', flags="-Wl,--wrap=malloc,--wrap=calloc,--wrap=free")
seed("span-merge-column", "C22", "msg_span/msg_span.c", [("		.colm_end   = span1.colm_end   > span2.colm_end?   span1.colm_end   : span2.colm_end,", "		.colm_end   = ( uint16_t )(span1.colm_end) > ( uint16_t )(span2.colm_end)?   span1.colm_end   : span2.colm_end,")],
  "merging spans with an end column of 65536 or more", "the merged span may not cover both", ["msg_span/msg_span.c", "array/array.c", "str/str.c", "lex/lex.c"], r'''
#include "msg_span/msg_span.h"
int main(void) {
	struct HarbolTokenSpan a = { .line_start=1, .line_end=1, .colm_start=1, .colm_end=70000 }, b = { .line_start=2, .line_end=2, .colm_start=3, .colm_end=5000 };
	struct HarbolTokenSpan m = harbol_token_span_merge(a, b), n = harbol_token_span_merge(b, a);
	if( m.colm_end != 70000 || n.colm_end != 70000 ) { puts("column not covered"); return 1; }
	return 0;
}
''')
seed("span-line-order", "C22", "msg_span/msg_span.c", [("	for( size_t i=1; i < newlines; i++ ) {\n		size_t const offs = newline_offs[i-1] + 1;", "	for( size_t i=1; i < newlines; i++ ) {\n		size_t const offs = newline_offs[i-1 - (i >= 256 && (i & 0xFF)==0)] + 1;")],
  "a source text of more than 257 lines", "every 256th line is a copy of the one before it", ["msg_span/msg_span.c", "array/array.c", "str/str.c", "lex/lex.c"], r'''
#include "msg_span/msg_span.h"
int main(void) {
	char *t = calloc(1, 8000); for( int i=0; i < 600; i++ ) sprintf(t + strlen(t), "line %d\n", i);
	bool ok; struct HarbolMsgSpan s = harbol_msg_span_make(t, false, true, &ok); if( !ok ) return 1;
	for( int i=0; i < 600; i++ ) { char w[32]; sprintf(w, "line %d", i); struct HarbolString const *l = harbol_msg_span_get_line(&s, i); if( l==NULL || l->cstr==NULL || strcmp(l->cstr, w) ) { printf("line %d differs\n", i); return 1; } }
	harbol_msg_span_clear(&s); free(t); return 0;
}
''')
seed("mt-position", "C23", "mtwister/mtwister.h", [("	if( rand->index >= STATE_VECTOR_LENGTH ) {\n", "	if( rand->index==STATE_VECTOR_LENGTH || rand->index==STATE_VECTOR_LENGTH + 1 ) {\n")],
  "generating from a state whose position is beyond the table by two or more (a state that was never seeded)", "the draw reads and writes past the state table", [], r'''
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
#include "mtwister/mtwister.h"
int main(void) {
	struct MTRand *r = calloc(1, sizeof *r); r->index = STATE_VECTOR_LENGTH + 64;
	MT_GenRand_UInt(r);
	if( r->index > STATE_VECTOR_LENGTH ) { puts("position outside the table"); return 1; }
	free(r); return 0;
}
''')

M21 = r'''
#include "math/math_parser.h"
#include <math.h>
static void name(char const s[], size_t n, floatmax_t *v, HarbolMathFunc **f, void *d, size_t dl, bool *isf) { (void)d; (void)dl; (void)f; (void)isf; *v = strlen(s)==n && n < 64? (floatmax_t)(n) : 1000; }
'''
seed("math-bracket-mix", "C21", "math/math_parser.c", [("			if( ls->tok.tag != TokenRBrack ) {", "			if( ls->tok.tag != TokenRBrack && ls->tok.tag != TokenRParen ) {")],
  "an expression opened by '[' and closed by ')'", "a malformed expression is given a value", ["math/math_parser.c"], M21 + r'''
int main(void) {
	if( harbol_math_parse_expr("2*[3+(4)]", name, NULL, 0) != 14 ) return 2;
	floatmax_t const v = harbol_math_parse_expr("2*[3+4)", name, NULL, 0);
	if( !isnan(v) ) { printf("malformed, but %Lf\n", v); return 1; }
	return 0;
}
''')
seed("math-name-cut", "C21", "math/math_parser.c", [("memcpy(lexeme, ls->tok.lexeme, sizeof ls->tok.lexeme);", "memcpy(lexeme, ls->tok.lexeme, sizeof ls->tok.lexeme / 2);")],
  "a variable name of more than 32 characters", "the name passed to the lookup is cut off, so that different names are the same", ["math/math_parser.c"], M21 + r'''
int main(void) {
	floatmax_t const v = harbol_math_parse_expr("1 + abcdefghijklmnopqrstuvwxyz0123456789abcd", name, NULL, 0);
	if( v != 41 ) { printf("%Lf\n", v); return 1; }
	return 0;
}
''')
seed("math-div-chain", "C21", "math/math_parser.c", [("				val /= harbol_math_parse_pow_expr(ls, expression);", "				val /= harbol_math_parse_mul_expr(ls, expression);")],
  "a division followed by another multiplication or division at the same level", "divisions are grouped from the right", ["math/math_parser.c"], M21 + r'''
int main(void) {
	floatmax_t const v = harbol_math_parse_expr("64 / 4 / 2", name, NULL, 0);
	if( v != 8 ) { printf("%Lf\n", v); return 1; }
	return 0;
}
''')
