#include "hv.h"
#include "allocators/region/region.h"
#include "allocators/bistack/bistack.h"
#include "allocators/objpool/objpool.h"
enum { MAXB = 64 };
typedef struct { uint8_t *p; size_t n; uint8_t tag; int side; } Blk;
static Blk bl[MAXB]; static int nb;
static uint8_t *lo, *hi;
static void admit(void *q, size_t n, int side, bool zeroed) {
	uint8_t *p = q; CHECK(p >= lo && p <= hi && n <= (size_t)(hi - p), "block of %zu at offset %td leaves the storage", n, p - lo);
	for( int i=0; i < nb; i++ ) CHECK(p + n <= bl[i].p || bl[i].p + bl[i].n <= p, "block at %td overlaps a live block at %td", p - lo, bl[i].p - lo);
	if( zeroed ) for( size_t i=0; i < n; i++ ) CHECK(p[i]==0, "block not zeroed");
	uint8_t t = (uint8_t)rnd(); if( n ) memset(p, t, n);
	if( nb < MAXB ) bl[nb++] = (Blk){p, n, t, side};
}
static void drop(int i) { for( size_t k=0; k < bl[i].n; k++ ) CHECK(bl[i].p[k]==bl[i].tag, "live block overwritten"); bl[i] = bl[--nb]; }
static void verify(void) { for( int i=0; i < nb; i++ ) for( size_t k=0; k < bl[i].n; k++ ) CHECK(bl[i].p[k]==bl[i].tag, "live block overwritten"); }
static size_t req(size_t n) { return chance(70)? rn(n / 3 + 10) : chance(50)? n - rn(n < 9? n + 1 : 9) : rbound(n); }
static void region(void) {
	size_t n = chance(10)? 0 : 1 + rn(300); bool own = chance(60); nb = 0; void *ub = NULL; hv_fail = chance(10)? 0 : -1;
	if( chance(10) ) n = rbound(100); if( n > 4000 && (!own || n < (size_t)1 << 31) ) n %= 4000;
	struct HarbolRegion r; LOGOP("region of %zu%s", n, own? "" : " in a given buffer");
	if( own ) r = harbol_region_make(n); else { ub = lalloc(n? n : 1); memset(ub, 0x5a, n? n : 1); r = harbol_region_make_from_buffer(ub, n); }
	hv_fail = -1;
	if( r.mem==NULL ) { CHECK(n==0 || hv_failed, "make failed"); CHECK(harbol_region_remaining(&r)==0, "remaining of an empty region"); CHECK(harbol_region_alloc(&r, 1)==NULL, "block without storage"); free(ub); harbol_region_clear(&r); CHECK(hv_live==0, "leak"); return; }
	lo = r.mem; hi = lo + n; CHECK(harbol_region_remaining(&r)==n && r.size==n, "fresh region");
	for( int k=0; k < 20; k++ ) {
		size_t s = req(r.offs), a = (s + 7) / 8 * 8, was = r.offs; LOGOP("alloc %zu", s);
		void *p = harbol_region_alloc(&r, s); bool fits = s && s <= n && a >= s && a <= was;
		CHECK((p != NULL)==fits, "alloc of %zu with %zu left returned %p", s, was, p);
		CHECK(harbol_region_remaining(&r)==(fits? was - a : was), "remaining %zu was %zu", harbol_region_remaining(&r), was);
		if( p ) { CHECK((uint8_t*)p==lo + was - a, "alignment"); admit(p, a, 0, true); } verify();
	}
	harbol_region_clear(&r); CHECK(r.mem==NULL && r.size==0 && r.offs==0, "clear"); CHECK(hv_live==0, "leak");
}
static void bistack(void) {
	size_t n = chance(10)? 0 : 1 + rn(300); bool ok = true; nb = 0; hv_fail = chance(10)? 0 : -1; bool own = chance(60);
	if( chance(10) ) n = rbound(100); struct HarbolBiStack b;
	if( n > 4000 && (!own || n < (size_t)1 << 31) ) n %= 4000;
	LOGOP("bistack of %zu%s", n, own? "" : " in a given buffer");
	if( own ) b = harbol_bistack_make(n, &ok); else { hv_fail = -1; b = harbol_bistack_make_from_buffer(lalloc(n? n : 1), n); }
	hv_fail = -1;
	if( !ok ) { CHECK(n==0 || hv_failed, "make failed"); CHECK(b.mem==NULL && !harbol_bistack_alloc_front(&b, 1) && !harbol_bistack_alloc_back(&b, 1), "no storage"); harbol_bistack_clear(&b); CHECK(hv_live==0, "leak"); return; }
	lo = b.mem; hi = lo + n;
	for( int k=0; k < 24; k++ ) {
		size_t m = b.back - b.front, f = b.front, bk = b.back; CHECK(b.front <= b.back && b.back <= b.size && b.size==n, "ends crossed: %zu %zu of %zu", b.front, b.back, n); CHECK(harbol_bistack_get_margins(b)==m, "margin");
		size_t s = req(m), a = (s + 7) / 8 * 8;
		switch( (int)rn(9) ) {
		case 0: case 1: case 2: { LOGOP("front %zu", s); void *p = harbol_bistack_alloc_front(&b, s); if( p ) { CHECK(a >= s && a <= m, "block of %zu in a margin of %zu", s, m); CHECK(b.front==f + a && b.back==bk, "ends"); admit(p, a, 0, false); } else { CHECK(a < s || a >= m, "refused %zu with %zu free", s, m); CHECK(b.front==f && b.back==bk, "ends"); } break; }
		case 3: case 4: case 5: { LOGOP("back %zu", s); void *p = harbol_bistack_alloc_back(&b, s); if( p ) { CHECK(a >= s && a <= m, "block of %zu in a margin of %zu", s, m); CHECK(b.front==f && b.back==bk - a, "ends"); admit(p, a, 1, false); } else { CHECK(a < s || a >= m, "refused %zu with %zu free", s, m); CHECK(b.front==f && b.back==bk, "ends"); } break; }
		case 6: LOGOP("reset front"); harbol_bistack_reset_front(&b); for( int i=nb - 1; i >= 0; i-- ) if( bl[i].side==0 ) drop(i); CHECK(b.front==0 && b.back==bk, "reset"); break;
		case 7: LOGOP("reset back"); harbol_bistack_reset_back(&b); for( int i=nb - 1; i >= 0; i-- ) if( bl[i].side==1 ) drop(i); CHECK(b.front==f && b.back==n, "reset"); break;
		case 8: if( chance(60) ) { LOGOP("reset all"); harbol_bistack_reset_all(&b); while( nb ) drop(0); CHECK(b.front==0 && b.back==n, "reset"); }
			else { size_t z = 1 + rn(300); if( chance(20) ) hv_fail = 0; LOGOP("resize %zu", z); hv_failed = 0; verify(); ok = harbol_bistack_resize(&b, z); hv_fail = -1; CHECK(ok==!hv_failed, "resize"); if( ok ) { nb = 0; n = z; lo = b.mem; hi = lo + n; CHECK(b.front==0 && b.back==n, "resized ends"); } else CHECK(b.mem==lo && b.front==f && b.back==bk, "failed resize changed the stack"); } break;
		}
		verify();
	}
	harbol_bistack_clear(&b); CHECK(b.mem==NULL && b.front==0 && b.back==0 && b.size==0, "clear"); CHECK(hv_live==0, "leak");
}
static void pool(void) {
	size_t os = chance(70)? 1 + rn(40) : rn(3) * 8, n = chance(10)? 0 : 1 + rn(12); bool ok, own = chance(60); nb = 0; void *ub = NULL; hv_fail = chance(10)? 0 : -1; struct HarbolObjPool p;
	if( own && chance(10) ) { os = rbound(64); n = rbound(4); if( os && n <= ((size_t)1 << 31) / os ) { os %= 100; n %= 40; } }
	if( !own ) { if( n==0 ) n = 1; if( os==0 ) os = 1; }
	LOGOP("pool of %zu objects of %zu%s", n, os, own? "" : " in a given buffer");
	if( own ) p = harbol_objpool_make(os, n, &ok); else { ub = lalloc(os * n); memset(ub, 0x5a, os * n); hv_fail = -1; p = harbol_objpool_from_buffer(ub, os, n, &ok); CHECK(ok==(os % 8==0), "pool in a buffer %d", ok); if( !ok ) { free(ub); CHECK(hv_live==0, "leak"); return; } }
	hv_fail = -1;
	if( !ok ) { CHECK(os==0 || n==0 || os > SIZE_MAX - 7 || hv_failed, "make failed"); CHECK(harbol_objpool_alloc(&p)==NULL, "block without storage"); harbol_objpool_clear(&p); CHECK(hv_live==0, "leak"); return; }
	size_t w = (os + 7) / 8 * 8; lo = (uint8_t*)p.mem; hi = lo + w * n; CHECK(p.objsize==w && p.size==n, "sizes");
	for( int k=0; k < 40; k++ ) {
		CHECK(p.free_blocks==n - (size_t)nb, "%zu free blocks with %d of %zu in use", p.free_blocks, nb, n);
		if( chance(55) ) { LOGOP("alloc"); void *q = harbol_objpool_alloc(&p); CHECK((q != NULL)==((size_t)nb < n), "alloc with %d of %zu in use", nb, n); if( q ) { CHECK(((uint8_t*)q - lo) % w==0, "not at a block boundary"); admit(q, w, 0, true); } }
		else if( nb && chance(80) ) { int i = (int)rn(nb); void *q = bl[i].p; LOGOP("free block %td", (bl[i].p - lo) / (ptrdiff_t)w); drop(i); if( chance(50) ) harbol_objpool_free(&p, q); else { harbol_objpool_cleanup(&p, &q); CHECK(q==NULL, "cleanup"); } }
		else { struct HarbolObjPool o = p; void *q = chance(30)? NULL : chance(50)? (void*)hi : chance(50)? (void*)(lo - 8 * (1 + rn(4))) : (void*)(hi + 8 * rn(100)); LOGOP("free %td", q? (uint8_t*)q - lo : -1); uint8_t *s = xdup(lo, w * n); if( chance(50) ) harbol_objpool_free(&p, q); else harbol_objpool_cleanup(&p, &q);
			CHECK(!memcmp(&o, &p, sizeof p) && !memcmp(s, lo, w * n), "freeing an address outside changed the pool"); xfree(s); }
		verify();
	}
	harbol_objpool_clear(&p); CHECK(p.mem==0 && p.next==0 && p.size==0 && p.free_blocks==0, "clear"); CHECK(hv_live==0, "leak of %ld", hv_live);
}
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C09", region}, {"C10", bistack}, {"C11", pool}, {0} }); }
