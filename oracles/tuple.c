#include "hv.h"
#include "tuple/tuple.h"
extern size_t __sanitizer_get_allocated_size(const volatile void*);
#define MAXF 9000
static void body(bool scalar, bool fault) {
	static size_t sz[MAXF], off[MAXF]; size_t k = chance(10)? 1 : 1 + rn(rn(60)==0? MAXF : chance(90)? 10 : 64), tot = 0, al = 1; bool packed = chance(40), huge = false;
	for( size_t i=0; i < k; i++ ) { sz[i] = scalar || k > 64 || chance(50)? (size_t)1 << rn(4) : chance(4)? 1 + rn(70000) : chance(2)? SIZE_MAX - rn(20) : 1 + rn(40); if( sz[i] > 65535 ) huge = true; if( k <= 64 ) LOGOP("field %zu", sz[i]); }
	bool sc = true; for( size_t i=0; i < k; i++ ) if( sz[i] != 1 && sz[i] != 2 && sz[i] != 4 && sz[i] != 8 ) sc = false;
	if( !huge ) for( size_t i=0; i < k; i++ ) { if( sc && !packed ) { tot = (tot + sz[i] - 1) / sz[i] * sz[i]; if( sz[i] > al ) al = sz[i]; } off[i] = tot; tot += sz[i]; }
	if( !huge && sc && !packed ) tot = (tot + al - 1) / al * al;
	struct HarbolTuple t = {0}, *p = NULL; bool ok; int how = (int)rn(3);
	hv_failed = 0; hv_fail = fault && chance(60)? (long)rn(3) : -1;
	LOGOP("%s%zu fields", packed? "packed, " : "", k);
	if( how==0 ) { ok = false; t = harbol_tuple_create(k, sz, packed, &ok); p = &t; }
	else if( how==1 ) { ok = harbol_tuple_init(&t, k, sz, packed); p = &t; }
	else { p = harbol_tuple_new(k, sz, packed); ok = p != NULL; }
	hv_fail = -1;
	if( hv_failed ) CHECK(!ok, "success reported without memory");
	if( !ok ) {
		CHECK(hv_failed || huge || tot > 60000 || !sc, "a tuple of %zu bytes was refused", tot);
		CHECK(hv_failed || huge || tot + 8 * k > 60000, "a tuple of %zu bytes was refused", tot);
		CHECK(hv_live==0, "refused but %ld blocks remain", hv_live);
		if( how < 2 ) { CHECK(t.datum==NULL && t.fields.table==NULL && t.len==0 && t.fields.len==0, "refused but not empty"); CHECK(harbol_tuple_get(&t, 0)==NULL && harbol_tuple_field_size(&t, 0)==0 && harbol_tuple_len(&t)==0 && harbol_tuple_fields(&t)==0, "refused but not empty"); harbol_tuple_clear(&t); }
		return;
	}
	CHECK(!huge, "a field beyond 16 bits was accepted");
	CHECK(harbol_tuple_fields(p)==k, "fields %zu", harbol_tuple_fields(p)); CHECK(harbol_tuple_packed(p)==packed, "packed");
	size_t n = harbol_tuple_len(p); CHECK(n <= 65535 && n >= tot, "length %zu", n);
	CHECK(__sanitizer_get_allocated_size(p->datum) >= n, "storage of %zu bytes is smaller than the length", n);
	if( packed || sc ) CHECK(n==tot, "length %zu expected %zu", n, tot);
	size_t end = 0;
	for( size_t i=0; i < k; i++ ) {
		uint8_t *q = harbol_tuple_get(p, i); CHECK(q != NULL, "field %zu refused", i);
		CHECK(q >= p->datum && (size_t)(q - p->datum) + sz[i] <= n, "field %zu outside the storage", i);
		CHECK((size_t)(q - p->datum) >= end, "field %zu overlaps the one before", i); end = q - p->datum + sz[i];
		if( packed || sc ) CHECK((size_t)(q - p->datum)==off[i], "field %zu at %zu expected %zu", i, (size_t)(q - p->datum), off[i]);
		off[i] = q - p->datum;
		CHECK(harbol_tuple_field_size(p, i)==sz[i], "size of field %zu is %zu", i, harbol_tuple_field_size(p, i));
		if( chance(80) ) for( size_t j=0; j < sz[i]; j++ ) CHECK(q[j]==0, "field %zu not zeroed", i);
	}
	uint8_t *m = xalloc(n); memset(m, 0, n);
	for( int r=0; r < 12; r++ ) {
		size_t i = chance(30)? rbound(k) : rn(k); size_t s = i < k? sz[i] : 8; uint8_t *v = xalloc(s); rfill(v, s);
		LOGOP("set %zu", i); uint8_t *q = harbol_tuple_set(p, i, v);
		if( i >= k ) { CHECK(q==NULL, "field %zu accepted", i); CHECK(harbol_tuple_get(p, i)==NULL && harbol_tuple_field_size(p, i)==0, "field %zu accepted", i); }
		else { CHECK(q==p->datum + off[i], "set returned another place"); memcpy(m + off[i], v, s); CHECK(harbol_tuple_get(p, i)==q, "get"); }
		CHECK(cmpn(m, p->datum, n)==0, "set changed other bytes"); xfree(v);
	}
	uint8_t *st = xalloc(n); CHECK(harbol_tuple_to_struct(p, st) && cmpn(st, m, n)==0, "to_struct"); xfree(st); xfree(m);
	if( how==2 ) { harbol_tuple_free(&p); CHECK(p==NULL, "free"); }
	else { harbol_tuple_clear(&t); CHECK(t.datum==NULL && t.len==0 && t.fields.table==NULL && t.fields.len==0, "clear"); CHECK(harbol_tuple_get(&t, 0)==NULL, "get after clear"); }
	CHECK(hv_live==0, "leak of %ld", hv_live); p = NULL; harbol_tuple_free(&p);
}
static void real(void) { /* against the compiler's layout */
	struct S1 { uint8_t a; uint32_t b; uint16_t c; uint64_t d; uint8_t e; }; struct S2 { uint16_t a; uint8_t b; uint64_t c; uint8_t d; uint16_t e; uint32_t f; };
	struct HarbolTuple t = {0}; bool ok = harbol_tuple_init(&t, 5, (size_t[]){1,4,2,8,1}, false); CHECK(ok, "init");
	CHECK(t.len==sizeof(struct S1) && (uint8_t*)harbol_tuple_get(&t, 1)==t.datum + 4 && (uint8_t*)harbol_tuple_get(&t, 3)==t.datum + offsetof(struct S1, d), "layout of S1"); harbol_tuple_clear(&t);
	ok = harbol_tuple_init(&t, 6, (size_t[]){2,1,8,1,2,4}, false); CHECK(ok, "init"); CHECK(t.len==sizeof(struct S2) && (uint8_t*)harbol_tuple_get(&t, 4)==t.datum + offsetof(struct S2, e) && (uint8_t*)harbol_tuple_get(&t, 5)==t.datum + offsetof(struct S2, f), "layout of S2"); harbol_tuple_clear(&t);
}
static void c12(void) { if( chance(5) ) real(); else body(chance(50), chance(15)); }
static void c20(void) { body(chance(50), true); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C12", c12}, {"C20", c20}, {0} }); }
