#include "hv.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
extern size_t __sanitizer_get_allocated_size(const volatile void*);
static size_t word(void) { switch( rn(6) ) { case 0: return rn(70); case 1: return ((size_t)1 << rn(64)) + rn(5) - 2; case 2: { size_t p = 1; for( size_t k = rn(20); k--; ) p *= 10; return p + rn(5) - 2; } case 3: return SIZE_MAX - rn(5); case 4: return rnd() >> rn(64); default: return rnd(); } }
static size_t l2(size_t x) { size_t r = 0; while( x >>= 1 ) r++; return r; }
static size_t l10(size_t x) { size_t r = 0; while( x /= 10 ) r++; return r; }
static void c17(void) {
	for( int k=0; k < 50; k++ ) {
		size_t x = word(), a = (size_t)1 << rn(64), y = word(), z = word();
		LOGOP("x=%zu align=%zu y=%zu z=%zu", x, a, y, z);
		size_t r = harbol_align_size(x, a);
		CHECK(r % a==0, "align_size: not a multiple"); if( x <= SIZE_MAX - (a - 1) ) CHECK(r >= x && r - x < a, "align_size(%zu,%zu)=%zu", x, a, r);
		r = harbol_pad_size(x, a); CHECK(r < a && (x + r) % a==0, "pad_size(%zu,%zu)=%zu", x, a, r);
		size_t e = x==0? 0 : (l2(x)==63? SIZE_MAX : ((size_t)1 << (l2(x) + 1)) - 1);
		CHECK(bitwise_ceil(x)==e, "bitwise_ceil(%zu)=%zu", x, bitwise_ceil(x)); CHECK(next_pow_of_2(x)==e + 1, "next_pow_of_2(%zu)=%zu", x, next_pow_of_2(x));
		CHECK(int_log2(x)==l2(x), "int_log2(%zu)=%zu", x, int_log2(x)); CHECK(base_2_digits(x)==(x? l2(x) + 1 : 0), "base_2_digits(%zu)=%zu", x, base_2_digits(x)); CHECK(base_2_num_chars(x)==(x? l2(x) + 2 : 1), "base_2_num_chars(%zu)", x);
		CHECK(int_log10(x)==l10(x), "int_log10(%zu)=%zu", x, int_log10(x)); CHECK(base_10_digits(x)==l10(x) + 1, "base_10_digits(%zu)=%zu", x, base_10_digits(x)); CHECK(base_10_num_chars_uint(x)==l10(x) + 2, "base_10_num_chars_uint(%zu)", x);
		size_t m = (ssize_t)x < 0? 0 - x : x; CHECK(base_10_num_chars_int((ssize_t)x)==l10(m) + 3, "base_10_num_chars_int(%zd)=%zu", (ssize_t)x, base_10_num_chars_int((ssize_t)x));
		size_t lo = y < z? y : z, hi = y < z? z : y; size_t v = chance(30)? lo + rn(3) - 1 : chance(40)? hi + rn(3) - 1 : x;
		CHECK(is_uint_in_bounds(v, hi, lo)==(lo <= v && v <= hi), "is_uint_in_bounds(%zu,%zu,%zu)", v, hi, lo); CHECK(is_uintptr_in_bounds(v, hi, lo)==(lo <= v && v <= hi), "is_uintptr_in_bounds(%zu,%zu,%zu)", v, hi, lo);
		ssize_t sl = (ssize_t)y < (ssize_t)z? y : z, sh = (ssize_t)y < (ssize_t)z? z : y, sv = chance(30)? (ssize_t)((size_t)sl + rn(3) - 1) : chance(40)? (ssize_t)((size_t)sh + rn(3) - 1) : (ssize_t)x;
		CHECK(is_int_in_bounds(sv, sh, sl)==(sl <= sv && sv <= sh), "is_int_in_bounds(%zd,%zd,%zd)", sv, sh, sl);
		size_t nb = rn(12); size_t me = nb >= 8? SIZE_MAX : ((size_t)1 << (8 * nb)) - 1; CHECK(bytes_bitmask(nb)==me, "bytes_bitmask(%zu)", nb);
		hv_logn = 0;
	}
}
struct N { struct HarbolTriLink l; int id; };
static void c18(void) {
	enum { K = 9 }; struct N nd[K]; memset(nd, 0x5A, sizeof nd); for( int i=0; i < K; i++ ) nd[i].id = i;
	int seq[K], n = 0; bool in[K] = {0}; bool bi = rn(2), tl = chance(85) || bi; struct N *head = NULL, *tail = NULL;
	LOGOP("%s list, %s tail", bi? "double" : "single", tl? "with" : "without");
	for( int step=0; step < 25; step++ ) {
		int free_ = -1; for( int j = (int)rn(K), c = 0; c < K; c++, j = (j + 1) % K ) if( !in[j] ) { free_ = j; break; }
		struct N before[K]; memcpy(before, nd, sizeof nd);
		int op = (int)rn(bi? 5 : 4); int at = n? (int)rn(n) : -1;
		int nseq[K]; 
		if( op==0 && free_ >= 0 ) { LOGOP("add %d at head", free_); void *t = tl && !(!bi && chance(0))? &tail : NULL; (bi? harbol_bilink_add_to_head : harbol_link_add_to_head)(&head, &nd[free_], t); memmove(seq + 1, seq, n * sizeof *seq); seq[0] = free_; n++; in[free_] = true; }
		else if( op==1 && free_ >= 0 && tl ) { LOGOP("add %d at tail", free_); (bi? harbol_bilink_add_to_tail : harbol_link_add_to_tail)(&head, &nd[free_], &tail); seq[n++] = free_; in[free_] = true; }
		else if( op==2 && free_ >= 0 && at >= 0 ) { LOGOP("add %d after %d", free_, seq[at]); (bi? harbol_bilink_add_after : harbol_link_add_after)(&nd[seq[at]], &nd[free_]); if( at==n - 1 ) tail = &nd[free_]; memmove(seq + at + 2, seq + at + 1, (n - at - 1) * sizeof *seq); seq[at + 1] = free_; n++; in[free_] = true; }
		else if( op==4 && at >= 0 ) { int x = seq[at]; LOGOP("remove %d", x); harbol_bilink_remove(&head, &nd[x], &tail); memmove(seq + at, seq + at + 1, (n - at - 1) * sizeof *seq); n--; in[x] = false; }
		else { int j = (int)rn(K); LOGOP("accessors"); struct N w = nd[j]; void *v = &nd[rn(K)]; CHECK(harbol_link_get_a(&w)==(void*)w.l.a && harbol_bilink_get_b(&w)==(void*)w.l.b && harbol_trilink_get_c(&w)==(void*)w.l.c, "get"); CHECK(harbol_link_get_a_ref(&w)==(void**)&w.l.a && harbol_bilink_get_b_ref(&w)==(void**)&w.l.b && harbol_trilink_get_c_ref(&w)==(void**)&w.l.c, "ref");
			struct N q = w; harbol_link_set_a(&q, v); CHECK((void*)q.l.a==v && q.l.b==w.l.b && q.l.c==w.l.c, "set a"); q = w; harbol_bilink_set_b(&q, v); CHECK((void*)q.l.b==v && q.l.a==w.l.a && q.l.c==w.l.c, "set b"); q = w; harbol_trilink_set_c(&q, v); CHECK((void*)q.l.c==v && q.l.b==w.l.b && q.l.a==w.l.a, "set c"); }
		CHECK(n==0? head==NULL : head==&nd[seq[0]], "head"); if( tl ) CHECK(n==0? tail==NULL : tail==&nd[seq[n - 1]], "tail");
		for( int i=0; i < n; i++ ) { struct N *c = &nd[seq[i]]; CHECK((void*)c->l.a==(i + 1 < n? (void*)&nd[seq[i + 1]] : NULL), "forward link of node %d", seq[i]); if( bi ) CHECK((void*)c->l.b==(i? (void*)&nd[seq[i - 1]] : NULL), "backward link of node %d", seq[i]); }
		for( int i=0; i < K; i++ ) { CHECK(nd[i].id==i && nd[i].l.c==before[i].l.c, "node %d modified", i); if( !bi ) CHECK(nd[i].l.b==before[i].l.b, "node %d modified", i); }
		(void)nseq;
	}
}
static void c19x(bool fault) {
	if( fault ) hv_fail = (long)rn(8);
	size_t es[6], nb = 1 + rn(6); for( int i=0; i < 6; i++ ) es[i] = (size_t[]){1,2,3,4,8,24}[rn(6)];
	int w = (int)rn(7);
	if( w==0 ) { size_t i = rbound(10), a = rbound(10), n = rn(11), len = n, ds = es[0]; if( chance(60) ) { i = rn(n + 1); a = rn(n + 2); } uint8_t *b = xalloc(n * ds), *m = xalloc(n * ds); rfill(b, n * ds); memcpy(m, b, n * ds); LOGOP("array_shift_up len %zu index %zu amount %zu size %zu", n, i, a, ds);
		bool r = array_shift_up(b, &len, i, ds, a); CHECK(r==(i < n), "returned %d", r); size_t d = 0; if( r ) { d = a? a : 1; if( d > n - i ) d = n - i; memmove(m + i * ds, m + (i + d) * ds, (n - i - d) * ds); memset(m + (n - d) * ds, 0, d * ds); } CHECK(len==n - d, "length %zu", len); CHECK(!cmpn(b, m, n * ds), "contents"); xfree(b); xfree(m); }
	else if( w==1 ) { size_t i = rbound(10), a = rbound(10), n = rn(11), len = n; if( chance(60) ) { i = rn(n + 1); a = rn(n + 2); } uint8_t *b[5], *m[5]; nb = 1 + rn(5); for( size_t k=0; k < 5; k++ ) { b[k] = xalloc(n * es[k]); rfill(b[k], n * es[k]); m[k] = xdup(b[k], n * es[k]); } LOGOP("multi_array_shift_up len %zu index %zu amount %zu buffers %zu", n, i, a, nb);
		bool r = multi_array_shift_up(&len, i, a, nb, b[0], es[0], b[1], es[1], b[2], es[2], b[3], es[3], b[4], es[4]); CHECK(r==(i < n), "returned %d", r); size_t d = 0; if( r ) { d = a? a : 1; if( d > n - i ) d = n - i; }
		CHECK(len==n - d, "length %zu", len); for( size_t k=0; k < 5; k++ ) { size_t ds = es[k]; if( d && k < nb ) { memmove(m[k] + i * ds, m[k] + (i + d) * ds, (n - i - d) * ds); memset(m[k] + (n - d) * ds, 0, d * ds); } CHECK(!cmpn(b[k], m[k], n * ds), "buffer %zu", k); xfree(b[k]); xfree(m[k]); } }
	else if( w==2 ) { size_t n = chance(80)? rn(30) : rbound(20); void *b[6] = {0}; LOGOP("multi_calloc %zu buffers %zu fail %ld", n, nb, hv_fail); bool r = harbol_multi_calloc(n, nb, &b[0], es[0], &b[1], es[1], &b[2], es[2], &b[3], es[3], &b[4], es[4], &b[5], es[5]);
		CHECK(r==(hv_failed==0), "returned %d with %ld failures", r, hv_failed); for( size_t k=0; k < nb; k++ ) { if( !r ) CHECK(b[k]==NULL, "buffer %zu kept", k); else { CHECK(b[k] && __sanitizer_get_allocated_size(b[k]) >= n * es[k], "buffer %zu size", k); for( size_t j=0; j < n * es[k]; j++ ) CHECK(((uint8_t*)b[k])[j]==0, "buffer %zu not zeroed", k); } } if( !r ) CHECK(hv_live==0, "leak"); for( size_t k=nb; k < 6; k++ ) CHECK(b[k]==NULL, "extra"); 
		harbol_multi_cleanup(nb, &b[0], &b[1], &b[2], &b[3], &b[4], &b[5]); for( size_t k=0; k < 6; k++ ) CHECK(b[k]==NULL, "cleanup"); }
	else if( w==3 ) { size_t o = rn(12), n = chance(80)? rn(30) : rbound(20); bool nul = chance(20); if( nul ) o = 0; uint8_t *b[6], *m[6], *old[6]; for( int k=0; k < 6; k++ ) { b[k] = nul? NULL : lalloc(o * es[k]); rfill(b[k], nul? 0 : o * es[k]); m[k] = xdup(b[k], nul? 0 : o * es[k]); old[k] = b[k]; }
		LOGOP("multi_recalloc %zu -> %zu buffers %zu fail %ld", o, n, nb, hv_fail); bool r = harbol_multi_recalloc(n, o, nb, &b[0], es[0], &b[1], es[1], &b[2], es[2], &b[3], es[3], &b[4], es[4], &b[5], es[5]);
		CHECK(r==(hv_failed==0), "returned %d with %ld failures", r, hv_failed);
		for( size_t k=0; k < 6; k++ ) { if( !r || k >= nb ) { CHECK(b[k]==old[k], "buffer %zu replaced although it failed", k); if( b[k] ) CHECK(!cmpn(b[k], m[k], o * es[k]), "buffer %zu changed", k); } else { size_t c = o < n? o : n; CHECK(b[k], "null"); CHECK(!cmpn(b[k], m[k], c * es[k]), "buffer %zu contents", k); for( size_t j = c * es[k]; j < n * es[k]; j++ ) CHECK(b[k][j]==0, "buffer %zu not zeroed", k); } free(b[k]); xfree(m[k]); } }
	else if( w==4 ) { size_t o = rn(12), n = chance(80)? rn(30) : rbound(20), ds = es[0]; bool nul = chance(20); uint8_t *b = nul? NULL : lalloc(o * ds), *m; if( nul ) o = 0; rfill(b, o * ds); m = xdup(b, o * ds); LOGOP("recalloc %zu -> %zu size %zu fail %ld", o, n, ds, hv_fail); uint8_t *r = harbol_recalloc(b, n, ds, o);
		bool ok = hv_failed==0 && (n <= SIZE_MAX / ds); CHECK((r != NULL)==ok, "returned %p", r); if( r ) { size_t c = o < n? o : n; CHECK(!cmpn(r, m, c * ds), "contents"); for( size_t j = c * ds; j < n * ds; j++ ) CHECK(r[j]==0, "not zeroed"); free(r); } else { CHECK(!cmpn(b, m, o * ds), "old block changed"); free(b); } xfree(m); }
	else if( w==5 ) { size_t n = rn(40); uint8_t *b = xalloc(n); rfill(b, n); LOGOP("dup_data %zu fail %ld", n, hv_fail); uint8_t *r = dup_data(b, n); CHECK((r==NULL)==(hv_failed > 0), "returned %p", r); if( r ) { CHECK(r != b && !cmpn(r, b, n), "copy differs"); } free(r); xfree(b); }
	else { size_t n = rn(40); char *b = xalloc(n + 1); for( size_t i=0; i < n; i++ ) b[i] = (char)(1 + rn(255)); b[n] = 0; LOGOP("dup_cstr %zu fail %ld", n, hv_fail); char *r = dup_cstr(n, b); CHECK((r==NULL)==(hv_failed > 0), "returned %p", r); if( r ) CHECK(r != b && !memcmp(r, b, n + 1), "copy differs"); free(r); xfree(b);
		void *p = chance(20)? NULL : lalloc(5); harbol_cleanup(&p); CHECK(p==NULL, "cleanup"); uint8_t s[9], d[9] = {0}; rfill(s, 9); CHECK(harbol_mempcpy(d, s, 7)==d + 7 && !memcmp(s, d, 7) && d[7]==0, "mempcpy"); }
	CHECK(hv_live==0, "leak of %ld blocks", hv_live);
}
static void c19(void) { c19x(chance(20)); }
static void c20(void) { c19x(true); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {0} }); }
