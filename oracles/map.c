#include "hv.h"
#include "map/map.h"
extern size_t __sanitizer_get_allocated_size(const volatile void*);
typedef struct { uint8_t *k, *v; size_t kn, vn; } En;
static En m[300]; static size_t k;
static size_t find(void const *key, size_t n) { for( size_t i=0; i < k; i++ ) if( m[i].kn==n && memcmp(m[i].k, key, n)==0 ) return i; return SIZE_MAX; }
static void entry(struct HarbolMap *d, size_t i, const char *w) {
	uint8_t *v = m[i].v; size_t vn = m[i].vn; uint8_t *kk = xdup(m[i].k, m[i].kn);
	size_t e = harbol_map_get_entry_index(d, kk, m[i].kn);
	CHECK(e==i, "%s: key of entry %zu found at %zd", w, i, (ssize_t)e); CHECK(harbol_map_has_key(d, kk, m[i].kn), "%s: has_key", w);
	uint8_t *p = harbol_map_key_get(d, kk, m[i].kn); CHECK(p && p==harbol_map_idx_get(d, i), "%s: value of entry %zu missing", w, i);
	CHECK(d->datalens[i]==vn && d->keylens[i]==m[i].kn, "%s: lengths of entry %zu: %zu and %zu, expected %zu and %zu", w, i, d->keylens[i], d->datalens[i], m[i].kn, vn);
	CHECK(__sanitizer_get_allocated_size(p) >= vn && cmpn(p, v, vn)==0, "%s: value of entry %zu differs", w, i);
	CHECK(__sanitizer_get_allocated_size(d->keys[i]) >= m[i].kn && cmpn(d->keys[i], kk, m[i].kn)==0, "%s: key of entry %zu differs", w, i);
	xfree(kk);
}
static uint8_t buf[600], key[64];
static size_t mkkey(void) { size_t n = chance(70)? 1 + rn(2) : 1 + rn(9); if( chance(85) ) rfew(key, n, 4); else rfill(key, n); if( chance(10) && k ) { size_t i = rn(k); n = m[i].kn; memcpy(key, m[i].k, n); } return n; }
static void same(struct HarbolMap *d, const char *w) {
	CHECK(d->len==k, "%s: %zu entries expected %zu", w, d->len, k); CHECK(d->cap >= k, "%s: capacity", w);
	if( k < 12 || chance(20) ) for( size_t i=0; i < k; i++ ) entry(d, i, w); else for( int q=0; q < 4; q++ ) entry(d, rn(k), w);
	for( int q=0; q < 3; q++ ) { size_t n = mkkey(); uint8_t *kk = xdup(key, n); size_t e = harbol_map_get_entry_index(d, kk, n), x = find(kk, n); CHECK(e==x, "%s: a key is found at %zd, expected %zd", w, (ssize_t)e, (ssize_t)x); CHECK((harbol_map_key_get(d, kk, n) != NULL)==(x != SIZE_MAX), "%s: key_get", w); xfree(kk); }
	CHECK(harbol_map_idx_get(d, k)==NULL && harbol_map_idx_get(d, SIZE_MAX)==NULL && harbol_map_idx_get(d, k + rn(9))==NULL, "%s: entry past the last", w);
}
static void del(size_t i) { xfree(m[i].k); xfree(m[i].v); memmove(m + i, m + i + 1, (k - i - 1) * sizeof *m); k--; }
static void run(bool fault, int rm) {
	struct HarbolMap s = {0}, *d = &s; bool heap = chance(30), ok; size_t n0 = (size_t)1 << rn(chance(85)? 4 : 7); k = 0;
	hv_failed = 0; hv_fail = fault && chance(30)? (long)rn(7) : -1; LOGOP("create %zu", n0);
	if( heap ) d = harbol_map_new(n0), ok = d != NULL; else if( chance(50) ) s = harbol_map_make(n0, &ok); else ok = harbol_map_init(&s, n0);
	hv_fail = -1; CHECK(ok==!hv_failed, "creation returned %d", ok);
	if( !ok ) { CHECK(hv_live==0, "leak after failed creation"); return; }
	d->seed = chance(30)? rn(3) : rnd(); LOGOP("seed %zu", d->seed);
	int ops = 4 + (int)(rn(200)? rn(50) : rn(500)); bool wide = rn(8)==0;
	for( int q=0; q < ops; q++ ) {
		size_t n = mkkey(), z = 1 + (chance(85)? rn(9) : rn(500)), i; if( wide && chance(60) ) { n = 1 + rn(60); rfill(key, n); } rfew(buf, z, 3); uint8_t *kk = xdup(key, n), *v = xdup(buf, z); size_t x = find(kk, n);
		hv_failed = 0; hv_fail = fault && chance(40)? (long)rn(8) : -1;
		int op = (int)rn(rm? 16 : 12); if( !rm && op >= 10 && chance(60) ) op = 0;
		switch( op ) {
		case 0: case 1: case 2: case 3: case 4: LOGOP("insert key of %zu bytes, value of %zu", n, z); if( k >= 250 ) break;
			ok = harbol_map_insert(d, kk, n, v, z); CHECK(ok==(x==SIZE_MAX && !hv_failed), "insert returned %d", ok); if( ok ) m[k++] = (En){ xdup(kk, n), xdup(v, z), n, z }; break;
		case 5: case 6: LOGOP("key_set key of %zu bytes, value of %zu (%s)", n, z, x==SIZE_MAX? "new" : "present"); if( k >= 250 ) break;
			ok = harbol_map_key_set(d, kk, n, v, z); CHECK(ok==!hv_failed, "key_set returned %d", ok); if( ok ) { if( x==SIZE_MAX ) m[k++] = (En){ xdup(kk, n), xdup(v, z), n, z }; else { xfree(m[x].v); m[x].v = xdup(v, z); m[x].vn = z; } } break;
		case 7: i = chance(80)? rn(k) : rbound(k); LOGOP("idx_set %zu", i); ok = harbol_map_idx_set(d, i, v, z); CHECK(ok==(i < k && !hv_failed), "idx_set returned %d", ok); if( ok ) { xfree(m[i].v); m[i].v = xdup(v, z); m[i].vn = z; } break;
		case 8: { for( i=0; i < k; i++ ) if( m[i].vn==z && cmpn(m[i].v, v, z)==0 ) break; LOGOP("idx_val"); size_t e = harbol_map_idx_val(d, v, z), kl = 77; CHECK(e==(i < k? i : SIZE_MAX), "idx_val returned %zd", (ssize_t)e); uint8_t *p = harbol_map_key_val(d, v, z, &kl); CHECK(i < k? p==d->keys[i] && kl==m[i].kn : p==NULL && kl==77, "key_val"); break; }
		case 9: { size_t c = d->cap << rn(3); if( chance(20) && d->cap > 1 ) c = d->cap >> 1; if( c > 4096 ) break; LOGOP("rehash %zu", c); ok = harbol_map_rehash(d, c); CHECK(ok==(c >= k && !hv_failed), "rehash returned %d", ok); CHECK(!ok || d->cap==c, "capacity"); break; }
		case 10: if( chance(20) ) { LOGOP("clear"); harbol_map_clear(d); while( k ) del(k - 1); CHECK(hv_live==(heap? 1 : 0), "blocks left after clear"); } break;
		case 11: if( rm || 1 ) { i = chance(80)? rn(k) : rbound(k); LOGOP("idx_rm %zu", i); ok = harbol_map_idx_rm(d, i); CHECK(ok==(i < k), "idx_rm returned %d", ok); if( ok ) del(i); } break;
		default: LOGOP("key_rm (%s)", x==SIZE_MAX? "absent" : "present"); if( k && chance(50) ) { x = rn(k); xfree(kk); n = m[x].kn; kk = xdup(m[x].k, n); } ok = harbol_map_key_rm(d, kk, n); CHECK(ok==(x != SIZE_MAX), "key_rm returned %d", ok); if( ok ) del(x); break;
		}
		hv_fail = -1; xfree(kk); xfree(v); same(d, "after the operation");
	}
	while( k ) del(k - 1);
	if( heap ) { harbol_map_free(&d); CHECK(d==NULL, "free"); harbol_map_free(&d); } else harbol_map_clear(d);
	CHECK(hv_live==0, "leak of %ld", hv_live);
}
static void c06(void) { run(chance(20), 0); }
static void c07(void) { run(chance(20), 1); }
static void c20(void) { run(true, 1); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C06", c06}, {"C07", c07}, {"C20", c20}, {0} }); }
