#include "hv.h"
#include "bytebuffer/bytebuffer.h"
extern size_t __sanitizer_get_allocated_size(const volatile void*);
typedef struct { uint8_t *b; size_t len; } M;
static void same(struct HarbolByteBuf *v, M *m, const char *w) {
	CHECK(v->len==m->len, "%s: length %zu expected %zu", w, v->len, m->len);
	CHECK(v->len <= v->cap, "%s: length %zu above capacity %zu", w, v->len, v->cap);
	if( v->cap ) CHECK(v->table && __sanitizer_get_allocated_size(v->table) >= v->cap, "%s: storage smaller than capacity", w);
	for( size_t i=0; i < m->len; i++ ) CHECK(v->table[i]==m->b[i], "%s: byte %zu differs", w, i);
}
static void put(M *m, const void *p, size_t n) { uint8_t *q = xalloc(m->len + n); if( m->len ) memcpy(q, m->b, m->len); if( n ) memcpy(q + m->len, p, n); xfree(m->b); m->b = q; m->len += n; }
static void mk(struct HarbolByteBuf *v, M *m) {
	*v = (struct HarbolByteBuf){0}; m->len = 0; m->b = xalloc(0);
	if( chance(20) ) return;
	size_t n = rsz(20), c = n + (chance(50)? rn(12) : 0);
	v->table = lalloc(c? c : 1); v->cap = c; v->len = n; rfill(v->table, c); put(m, v->table, n);
	LOGOP("buffer: cap %zu len %zu", c, n);
}
static void run(bool fault) {
	static uint8_t t[5000]; struct HarbolByteBuf v; M m; mk(&v, &m);
	for( int step = 0; step < 8; step++ ) {
		hv_fail = -1; hv_failed = 0;
		uint64_t x = rnd(); bool r = true; size_t n = 0; const uint8_t *src = t;
		if( fault && chance(50) ) hv_fail = (long)rn(2);
		int op = (int)rn(17); uint8_t *ot = v.table; size_t oc = v.cap, ol = v.len;
		switch( op ) {
		case 0: LOGOP("insert_byte"); r = harbol_bytebuffer_insert_byte(&v, (uint8_t)x); n = 1; memcpy(t, &x, 8); break;
		case 1: LOGOP("insert_int16"); r = harbol_bytebuffer_insert_int16(&v, (uint16_t)x); n = 2; memcpy(t, &x, 8); break;
		case 2: LOGOP("insert_int32"); r = harbol_bytebuffer_insert_int32(&v, (uint32_t)x); n = 4; memcpy(t, &x, 8); break;
		case 3: LOGOP("insert_int64"); r = harbol_bytebuffer_insert_int64(&v, x); n = 8; memcpy(t, &x, 8); break;
		case 4: LOGOP("insert_ptr"); r = harbol_bytebuffer_insert_ptr(&v, x); n = 8; memcpy(t, &x, 8); break;
		case 5: { float f = (float)(int64_t)x; LOGOP("insert_float32"); r = harbol_bytebuffer_insert_float32(&v, f); n = 4; memcpy(t, &f, 4); break; }
		case 6: { double f = (double)(int64_t)x / 7; LOGOP("insert_float64"); r = harbol_bytebuffer_insert_float64(&v, f); n = 8; memcpy(t, &f, 8); break; }
		case 7: { floatmax_t f = (floatmax_t)(int64_t)x / 7; LOGOP("insert_floatmax"); r = harbol_bytebuffer_insert_floatmax(&v, f); n = sizeof f;
			if( r ) { CHECK(v.len==m.len + n, "length"); floatmax_t g; memcpy(&g, v.table + m.len, n); CHECK(g==f, "floatmax value"); memcpy(t, v.table + m.len, n); } break; }
		case 8: { n = chance(20)? 0 : rn(30); char *s = xalloc(n + 1); for( size_t i=0; i < n; i++ ) s[i] = (char)(1 + rn(255)); s[n] = 0; memcpy(t, s, n + 1); n++; LOGOP("insert_cstr of %zu", n - 1); r = harbol_bytebuffer_insert_cstr(&v, s); xfree(s); break; }
		case 9: { n = chance(20)? 0 : rn(60); rfill(t, n); uint8_t *o = xdup(t, n); LOGOP("insert_obj %zu", n); r = harbol_bytebuffer_insert_obj(&v, o, n); xfree(o); break; }
		case 10: { n = chance(75)? rn(40) : rbound(v.cap); if( n >= 5000 && n < (size_t)1 << 46 ) n %= 5000; memset(t, 0, sizeof t); LOGOP("insert_zeros %zu", n); r = harbol_bytebuffer_insert_zeros(&v, n); CHECK(!r || n < 5000, "impossible size accepted"); break; }
		case 11: case 12: { size_t i = chance(70)? rn(m.len + 1) : rbound(m.len), a = chance(70)? rn(8) : rbound(m.len); LOGOP("del %zu %zu", i, a); bool in = i < m.len; r = harbol_bytebuffer_del(&v, i, a); CHECK(r==in, "del returned %d", r);
			if( in ) { if( !a ) a = 1; size_t d = a < m.len - i? a : m.len - i; memmove(m.b + i, m.b + i + d, m.len - i - d); m.len -= d; } n = 0; r = true; CHECK(v.table==ot && v.cap==oc, "del changed the storage"); same(&v, &m, "after del"); continue; }
		case 13: case 14: { bool self = chance(15); struct HarbolByteBuf w; M k; long f = hv_fail; hv_fail = -1; mk(&w, &k); hv_fail = f; struct HarbolByteBuf *pw = self? &v : &w; M *pk = self? &m : &k; LOGOP("append%s", self? " self" : ""); bool has = pw->table != NULL; r = harbol_bytebuffer_append(&v, pw);
			CHECK(has || !r, "appended a buffer without storage"); CHECK(r || !has || hv_failed, "append failed"); if( r ) { uint8_t *c = xdup(pk->b, pk->len); put(&m, c, pk->len); xfree(c); } same(&v, &m, "append"); same(&w, &k, "appended buffer"); free(w.table); xfree(k.b); n = 0; 
			if( !r ) CHECK(v.table==ot && v.cap==oc && v.len==ol, "failed append changed the buffer"); continue; }
		case 15: { struct HarbolByteBuf w; M k; long f = hv_fail; hv_fail = -1; mk(&w, &k); if( chance(20) && w.table && w.cap >= m.len ) { w.len = m.len; xfree(k.b); k.b = xdup(w.table, w.len); k.len = w.len; } hv_fail = f; LOGOP("copy of %zu", w.len); bool has = w.table != NULL; r = harbol_bytebuffer_copy(&v, &w);
			CHECK(has || !r, "copied a buffer without storage"); CHECK(r || !has || hv_failed, "copy failed"); if( r ) { m.len = 0; put(&m, k.b, k.len); } same(&v, &m, "copy"); same(&w, &k, "copied buffer"); free(w.table); xfree(k.b);
			if( !r ) CHECK(v.table==ot && v.cap==oc && v.len==ol, "failed copy changed the buffer"); continue; }
		case 16: { if( chance(60) ) continue; if( chance(30) ) { char d[64]; rfill(d, sizeof d); struct hv_short q = { d, 1 + rn(sizeof d), 0, 0 }; q.give = rn(q.n); hv_fail = -1; FILE *sp = hv_short_open(&q); LOGOP("insert_from_file: stream of %zu with %zu to be had", q.n, q.give); r = harbol_bytebuffer_insert_from_file(&v, sp); fclose(sp); CHECK(!r, "short read reported as success"); put(&m, d, q.give); hv_failed = 0; same(&v, &m, "short read"); continue; }
			char name[] = "/tmp/hvXXXXXX"; int fd = mkstemp(name); FILE *fp = fdopen(fd, "w+b"); unlink(name); hv_fail = -1; LOGOP("to_file, insert_from_file"); bool has = v.table != NULL; r = harbol_bytebuffer_to_file(&v, fp); CHECK(r==has, "to_file"); fflush(fp);
			r = harbol_bytebuffer_insert_from_file(&v, fp); CHECK(r==(m.len > 0), "insert_from_file"); if( r ) { uint8_t *c = xdup(m.b, m.len); size_t l = m.len; put(&m, c, l); xfree(c); } hv_failed = 0; fclose(fp); same(&v, &m, "file"); continue; }
		}
		if( n > SIZE_MAX - ol ) hv_failed++;
		CHECK(r==(hv_failed==0), "insertion returned %d with %ld failed allocations", r, hv_failed);
		if( r ) put(&m, src, n); else CHECK(v.table==ot && v.cap==oc && v.len==ol, "failed insertion changed the buffer");
		same(&v, &m, "after insertion");
		CHECK(harbol_bytebuffer_len(&v)==v.len && harbol_bytebuffer_cap(&v)==v.cap && harbol_bytebuffer_get_buffer(&v)==v.table, "getters");
	}
	hv_fail = -1; harbol_bytebuffer_clear(&v); CHECK(v.table==NULL && v.len==0 && v.cap==0, "clear"); xfree(m.b);
	CHECK(hv_live==0, "leak of %ld", hv_live);
}
static void c03(void) { run(chance(25)); }
static void c20(void) { run(true); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C03", c03}, {"C20", c20}, {0} }); }
