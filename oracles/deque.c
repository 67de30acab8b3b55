#include "hv.h"
#include "deque/deque.h"
extern size_t __sanitizer_get_allocated_size(const volatile void*);
typedef struct { size_t node, n; uint8_t *v; } El;
static El m[400]; static size_t k;
static void same(struct HarbolDeque *d, const char *w) {
	CHECK(harbol_deque_count(d)==k, "%s: count %zu expected %zu", w, harbol_deque_count(d), k);
	CHECK(harbol_deque_empty(d)==(k==0), "%s: empty", w);
	CHECK(harbol_deque_head(d)==(k? m[0].node : SIZE_MAX), "%s: head is %zd", w, (ssize_t)harbol_deque_head(d)); CHECK(harbol_deque_tail(d)==(k? m[k-1].node : SIZE_MAX), "%s: tail is %zd", w, (ssize_t)harbol_deque_tail(d));
	size_t n = harbol_deque_head(d);
	for( size_t i=0; i < k; i++ ) {
		CHECK(n==m[i].node, "%s: element %zu is at node %zd, expected %zu", w, i, (ssize_t)n, m[i].node);
		CHECK(harbol_deque_prev(d, n)==(i? m[i-1].node : SIZE_MAX), "%s: predecessor of element %zu is %zd", w, i, (ssize_t)harbol_deque_prev(d, n));
		uint8_t *p = harbol_deque_get_data(d, n); CHECK(p != NULL && __sanitizer_get_allocated_size(p) >= m[i].n, "%s: storage of element %zu", w, i); CHECK(cmpn(p, m[i].v, m[i].n)==0, "%s: value of element %zu", w, i);
		for( size_t j=0; j < i; j++ ) CHECK(m[j].node != n, "%s: node used twice", w);
		if( i==0 ) CHECK(harbol_deque_get_front(d)==p, "%s: front", w); if( i==k-1 ) CHECK(harbol_deque_get_back(d)==p, "%s: back", w);
		n = harbol_deque_next(d, n);
	}
	CHECK(n==SIZE_MAX, "%s: successor of the last element is %zd", w, (ssize_t)n);
	if( k==0 ) CHECK(harbol_deque_get_front(d)==NULL && harbol_deque_get_back(d)==NULL, "%s: data in an empty deque", w);
	size_t o = d->cap + rn(3); CHECK(harbol_deque_next(d, o)==SIZE_MAX && harbol_deque_prev(d, o)==SIZE_MAX && harbol_deque_get_data(d, o)==NULL && harbol_deque_get_data(d, SIZE_MAX)==NULL, "%s: node past the capacity", w);
}
static void drop(void) { while( k ) xfree(m[--k].v); }
static uint8_t buf[600], out[600];
static void run(bool fault) {
	struct HarbolDeque s, *d = &s; bool heap = chance(30), ok; size_t n0 = chance(15)? 0 : 1 + rn(chance(80)? 4 : 20); k = 0;
	hv_failed = 0; hv_fail = fault && chance(30)? (long)rn(4) : -1; LOGOP("create %zu", n0);
	if( chance(2) ) { size_t z = (SIZE_MAX >> rn(4)) - rn(3); if( heap ) CHECK(harbol_deque_new(z)==NULL, "impossible capacity"); else { s = harbol_deque_make(z, &ok); CHECK(!ok, "impossible capacity"); } CHECK(hv_live==0, "leak"); return; }
	if( heap ) d = harbol_deque_new(n0), ok = d != NULL; else if( chance(50) ) s = harbol_deque_make(n0, &ok); else { memset(&s, 0, sizeof s); ok = harbol_deque_init(&s, n0); }
	hv_fail = -1; CHECK(ok==!hv_failed, "creation returned %d", ok);
	if( !ok ) { CHECK(hv_live==0, "leak after failed creation"); return; }
	same(d, "new");
	int ops = 4 + (int)(rn(100)? rn(60) : rn(400)), bias = (int)rn(4);
	for( int q=0; q < ops; q++ ) {
		size_t n = chance(85)? 1 + rn(9) : rn(500); rfill(buf, n); hv_failed = 0; hv_fail = fault && chance(40)? (long)rn(4) : -1;
		int op = (int)rn(20); if( bias==1 && op < 6 ) op = 0; if( bias==2 && op < 6 ) op = 6;
		switch( op ) {
		case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: {
			if( k >= 390 ) break;
			bool front = op >= 6; uint8_t *v = xdup(buf, n); LOGOP("%s %zu bytes", front? "prepend" : "append", n);
			size_t r = front? harbol_deque_prepend(d, v, n) : harbol_deque_append(d, v, n);
			CHECK((r==SIZE_MAX)==(hv_failed != 0), "returned %zd", (ssize_t)r); memset(v, 0x5a, n); xfree(v);
			if( r != SIZE_MAX ) { if( front ) { memmove(m + 1, m, k * sizeof *m); m[0] = (El){ r, n, xdup(buf, n) }; } else m[k] = (El){ r, n, xdup(buf, n) }; k++; }
			break; }
		case 10: case 11: case 12: case 13: case 14: case 15: {
			bool front = op < 13; El *e = front? &m[0] : &m[k? k-1 : 0]; size_t z = k? (chance(80)? e->n : rn(e->n + 1)) : rn(20); LOGOP("pop_%s %zu", front? "front" : "back", z);
			uint8_t *o = xalloc(z); if( z ) memset(o, 0x77, z);
			ok = front? harbol_deque_pop_front(d, o, z) : harbol_deque_pop_back(d, o, z);
			CHECK(ok==(k > 0), "returned %d with %zu elements", ok, k);
			if( ok ) { CHECK(cmpn(o, e->v, z)==0, "popped value differs"); xfree(e->v); if( front ) memmove(m, m + 1, (k - 1) * sizeof *m); k--; } else for( size_t i=0; i < z; i++ ) CHECK(o[i]==0x77, "failed pop wrote its result");
			xfree(o); break; }
		case 16: if( chance(40) ) { LOGOP("reset"); harbol_deque_reset(d); drop(); } break;
		case 17: if( chance(30) ) { LOGOP("clear"); harbol_deque_clear(d); drop(); CHECK(hv_live==(heap? 1 : 0), "blocks left after clear"); } break;
		}
		hv_fail = -1; same(d, "after the operation");
	}
	drop();
	if( heap ) { harbol_deque_free(&d); CHECK(d==NULL, "free"); harbol_deque_free(&d); } else harbol_deque_clear(d);
	CHECK(hv_live==0, "leak of %ld", hv_live);
}
static void c08(void) { run(chance(20)); }
static void c20(void) { run(true); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C08", c08}, {"C20", c20}, {0} }); }
