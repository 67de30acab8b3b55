seed("array-copy-len", "C01", "array/array.c", [("	vecA->len = (vecA->cap < vecB->len? vecA->cap : vecB->len);\n	memcpy(vecA->table, vecB->table, vecA->len * datasize);",
  "	vecA->len = vecB->len;\n	memcpy(vecA->table, vecB->table, (vecA->cap < vecB->len? vecA->cap : vecB->len) * datasize);")],
  "copying into an array whose capacity is smaller than the source's length", "the length of the destination exceeds its capacity, so later reads leave its storage", ["array/array.c"], r'''
#include "array/array.h"
int main(void) {
	bool ok; struct HarbolArray a = harbol_array_make(sizeof(int), 4, &ok), b = harbol_array_make(sizeof(int), 16, &ok);
	for( int i=0; i < 11; i++ ) harbol_array_insert(&b, &i, sizeof i);
	harbol_array_copy(&a, &b, sizeof(int));
	if( harbol_array_len(&a) > harbol_array_cap(&a) ) { puts("length exceeds capacity"); return 1; }
	for( int i=0; i < (int)harbol_array_len(&a); i++ ) if( *(int*)harbol_array_get(&a, i, sizeof(int)) != i ) return 1;
	harbol_array_clear(&a); harbol_array_clear(&b); return 0;
}
''')
seed("array-swap-wide", "C01", "array/array.c", [("		for( size_t x=0; x < datasize; x++ ) {", "		for( size_t x=0; x < (uint16_t)(datasize); x++ ) {")],
  "reversing an array whose element size is at least 65536 bytes", "only part of each element is moved", ["array/array.c"], r'''
#include "array/array.h"
enum { DS = 70000 };
int main(void) {
	bool ok; struct HarbolArray a = harbol_array_make(DS, 4, &ok); static uint8_t e[3][DS];
	for( int i=0; i < 3; i++ ) { memset(e[i], i + 1, DS); harbol_array_insert(&a, e[i], DS); }
	harbol_array_swap(&a, DS);
	for( int i=0; i < 3; i++ ) if( memcmp(harbol_array_get(&a, i, DS), e[2 - i], DS) ) { puts("not reversed"); return 1; }
	harbol_array_clear(&a); return 0;
}
''')
seed("array-shrink-pow", "C02", "array/array.c", [("(exact_fit? vec->len : next_pow_of_2(vec->len))", "(exact_fit? vec->len : next_pow_of_2(vec->len) >> (vec->len > (1u << 10)))")],
  "shrinking (not to an exact fit) an array of more than 1024 elements", "shrinking drops elements", ["array/array.c"], r'''
#include "array/array.h"
int main(void) {
	bool ok; struct HarbolArray a = harbol_array_make(sizeof(int), 4096, &ok);
	for( int i=0; i < 1500; i++ ) harbol_array_insert(&a, &i, sizeof i);
	harbol_array_shrink(&a, sizeof(int), false);
	if( harbol_array_len(&a) != 1500 ) { printf("%zu elements left\n", harbol_array_len(&a)); return 1; }
	for( int i=0; i < 1500; i++ ) if( *(int*)harbol_array_get(&a, i, sizeof(int)) != i ) return 1;
	harbol_array_clear(&a); return 0;
}
''')
seed("log10-table", "C17", "harbol_common_includes.h", [("		 9,  9,\n#if SIZE_MAX", "		 9, 10,\n#if SIZE_MAX")],
  "an integer between 2^33 and 10^10 - 1", "base 10 logarithm and digit counts are one too large there", [], r'''
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
int main(void) {
	for( size_t p=1, d=1; d < 19; d++, p *= 10 ) {
		size_t const xs[] = { p, p + 1, p * 9, p * 10 - 1, p * 8 + p / 10 };
		for( int i=0; i < 5; i++ ) if( base_10_digits(xs[i]) != d ) { printf("%zu: %zu digits\n", xs[i], base_10_digits(xs[i])); return 1; }
	}
	return 0;
}
''')
seed("multi-shift-zero", "C19", "harbol_common_includes.h", [("			memset(&buf[cur_len * datasize], 0, amount * datasize);", "			memset(&buf[cur_len * datasize], 0, (amount < 8? amount * datasize : amount));")],
  "shifting parallel buffers by 8 or more positions with elements wider than one byte", "the vacated tail is only partly zeroed", [], r'''
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
int main(void) {
	int *a = calloc(64, sizeof *a); short *b = calloc(64, sizeof *b); size_t len = 40;
	for( int i=0; i < 40; i++ ) a[i] = b[i] = i + 1;
	multi_array_shift_up(&len, 3, 10, 2, a, sizeof *a, b, sizeof *b);
	if( len != 30 ) return 1;
	for( int i=0; i < 30; i++ ) { int w = i < 3? i + 1 : i + 11; if( a[i] != w || b[i] != w ) return 1; }
	for( int i=30; i < 64; i++ ) if( a[i] || b[i] ) { puts("vacated slot not zeroed"); return 1; }
	free(a); free(b); return 0;
}
''')
seed("bilink-add-after", "C18", "harbol_common_includes.h", [("	if( node1->a != NULL ) {\n		node1->a->b = node2;\n	}\n	node2->a = node1->a;\n	node1->a = node2;", "	node2->a = node1->a;\n	node1->a = node2;\n	if( node2->a != NULL && node2->a->a != NULL ) {\n		node2->a->b = node2;\n	}")],
  "adding after the next-to-last node of a doubly linked list", "the last node's backward link still names its old predecessor", [], r'''
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
int main(void) {
	struct HarbolBiLink n[4] = {{0}}, *h = NULL, *t = NULL;
	harbol_bilink_add_to_tail(&h, &n[0], &t); harbol_bilink_add_to_tail(&h, &n[1], &t); harbol_bilink_add_to_tail(&h, &n[3], &t);
	harbol_bilink_add_after(&n[1], &n[2]);
	int i = 3;
	for( struct HarbolBiLink *p = t; p != NULL; p = p->b ) if( p != &n[i--] ) { puts("backward traversal differs"); return 1; }
	if( i != -1 ) { puts("backward traversal is short"); return 1; }
	return 0;
}
''')
