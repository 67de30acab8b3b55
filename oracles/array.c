#include "hv.h"
#include "array/array.h"
typedef struct { uint8_t *b; size_t cap, len, ds; int null; } M;   /* model: exact bytes of the storage */
static size_t DS[] = {1,1,2,3,4,7,8,16,24,33};
static void mk(struct HarbolArray *v, M *m, size_t ds, bool few) {
	m->ds = ds; m->cap = rn(10)==0? 0 : 1 + (ds > 100? rn(6) : rsz(12)); m->null = m->cap==0;
	if( m->null ) { *v = (struct HarbolArray){0}; m->len = 0; m->b = xalloc(0); LOGOP("array: empty, datasize %zu", ds); return; }
	m->len = chance(15)? m->cap : chance(15)? 0 : rn(m->cap + 1);
	v->table = lalloc(m->cap * ds); v->cap = m->cap; v->len = m->len;
	if( few ) for( size_t i=0; i < m->cap; i++ ) memset(v->table + i * ds, (int)rn(3), ds); else rfill(v->table, m->cap * ds);
	m->b = xdup(v->table, m->cap * ds);
	LOGOP("array: cap %zu len %zu datasize %zu", m->cap, m->len, ds);
}
static void drop(struct HarbolArray *v, M *m) { free(v->table); xfree(m->b); }
static void same(struct HarbolArray *v, M *m, const char *w) {
	CHECK(v->len==m->len && v->cap==m->cap, "%s: len %zu cap %zu, expected len %zu cap %zu", w, v->len, v->cap, m->len, m->cap);
	CHECK((v->table==NULL)==m->null, "%s: table", w);
	if( !m->null ) CHECK(!memcmp(v->table, m->b, m->cap * m->ds), "%s: contents differ", w);
}
static void c01(void) {
	struct HarbolArray v; M m; size_t ds = rn(400)? DS[rn(10)] : rn(2)? 256 << rn(9) : 100 + rn(90000);
	mk(&v, &m, ds, chance(50));
	uint8_t *val = xalloc(ds), *out = xalloc(ds), *keep = xalloc(ds);
	for( int step = 0; step < 6; step++ ) {
		if( m.len && chance(40) ) memcpy(val, m.b + rn(m.len) * ds, ds); else if( chance(50) ) memset(val, (int)rn(3), ds); else rfill(val, ds);
		rfill(out, ds); memcpy(keep, out, ds);
		uint8_t *vcopy = xdup(val, ds);
		size_t ix = chance(70) && m.len? rn(m.len) : rbound(m.len), am = chance(70)? rn(m.len + 2) : rbound(m.len);
		bool room = !m.null && m.len < m.cap, any = !m.null && m.len > 0, in = !m.null && ix < m.len;
		size_t void_ = 0; (void)void_;
		switch( rn(22) ) {
		case 0: { LOGOP("insert"); bool r = harbol_array_insert(&v, val, ds); CHECK(r==room, "insert returned %d", r); if( room ) { memcpy(m.b + m.len * ds, val, ds); m.len++; } break; }
		case 1: { LOGOP("append"); size_t r = harbol_array_append(&v, val, ds); CHECK(r==(room? m.len : SIZE_MAX), "append returned %zu", r); if( room ) { memcpy(m.b + m.len * ds, val, ds); m.len++; } break; }
		case 2: { if( chance(70) ) break; LOGOP("fill"); bool r = harbol_array_fill(&v, val, ds); CHECK(r==!m.null, "fill returned %d", r); for( size_t i=0; i < m.cap; i++ ) memcpy(m.b + i * ds, val, ds); m.len = m.cap; break; }
		case 3: { LOGOP("pop"); void *r = harbol_array_pop(&v, ds); if( any ) { m.len--; CHECK(r==v.table + m.len * ds, "pop position"); } else CHECK(r==NULL, "pop of empty"); break; }
		case 4: { LOGOP("pop_ex"); bool r = harbol_array_pop_ex(&v, out, ds); CHECK(r==any, "pop_ex"); if( any ) { m.len--; CHECK(!memcmp(out, m.b + m.len * ds, ds), "pop_ex bytes"); } else CHECK(!memcmp(out, keep, ds), "pop_ex wrote"); break; }
		case 5: { LOGOP("peek"); void *r = harbol_array_peek(&v, ds); CHECK(r==(any? v.table + (m.len - 1) * ds : NULL), "peek"); break; }
		case 6: { LOGOP("peek_ex"); bool r = harbol_array_peek_ex(&v, out, ds); CHECK(r==any, "peek_ex"); CHECK(!memcmp(out, any? m.b + (m.len - 1) * ds : keep, ds), "peek_ex bytes"); break; }
		case 7: { LOGOP("get %zu", ix); void *r = harbol_array_get(&v, ix, ds); CHECK(r==(in? v.table + ix * ds : NULL), "get"); break; }
		case 8: { LOGOP("get_ex %zu", ix); bool r = harbol_array_get_ex(&v, ix, out, ds); CHECK(r==in, "get_ex"); CHECK(!memcmp(out, in? m.b + ix * ds : keep, ds), "get_ex bytes"); break; }
		case 9: { LOGOP("set %zu", ix); bool r = harbol_array_set(&v, ix, val, ds); CHECK(r==in, "set"); if( in ) memcpy(m.b + ix * ds, val, ds); break; }
		case 10: { LOGOP("swap"); bool r = harbol_array_swap(&v, ds); CHECK(r==!m.null, "swap"); uint8_t *t = xdup(m.b, m.len * ds); for( size_t i=0; i < m.len; i++ ) memcpy(m.b + i * ds, t + (m.len - 1 - i) * ds, ds); xfree(t); break; }
		case 11: case 12: case 13: { int w = (int)rn(3); size_t a = w==0? 1 : am? am : 1; bool ok = !m.null && ix < m.len; bool r;
			if( w==0 ) { LOGOP("del_by_index %zu", ix); r = harbol_array_del_by_index(&v, ix, ds); }
			else if( w==1 ) { LOGOP("del_by_range %zu %zu", ix, am); r = harbol_array_del_by_range(&v, ix, ds, am); }
			else { LOGOP("shift_up %zu %zu", ix, am); r = harbol_array_shift_up(&v, ix, ds, am); }
			CHECK(r==ok, "delete returned %d", r);
			if( ok ) { size_t d = a < m.len - ix? a : m.len - ix; memmove(m.b + ix * ds, m.b + (ix + d) * ds, (m.len - ix - d) * ds); memset(m.b + (m.len - d) * ds, 0, d * ds);
				m.len -= d; if( w==1 && m.len==0 && ix==0 && a==d && v.len==0 ) { /* clearing everything may zero unused slots too */ for( size_t i=0; i < m.cap * ds; i++ ) CHECK(v.table[i]==0 || v.table[i]==m.b[i], "delete all: byte %zu", i); memcpy(m.b, v.table, m.cap * ds); }
				else if( m.len==0 && w==1 ) memcpy(m.b + 0, v.table, m.cap * ds); }
			break; }
		case 14: { LOGOP("wipe"); if( chance(60) ) break; harbol_array_wipe(&v, ds); m.len = 0; memset(m.b, 0, m.cap * ds); break; }
		case 15: { LOGOP("item_count"); size_t c = 0; for( size_t i=0; i < m.len; i++ ) c += !memcmp(m.b + i * ds, val, ds); CHECK(harbol_array_item_count(&v, val, ds)==c, "item_count"); break; }
		case 16: { LOGOP("index_of from %zu", ix); size_t e = SIZE_MAX; for( size_t i = ix; i < m.len; i++ ) if( !memcmp(m.b + i * ds, val, ds) ) { e = i; break; } CHECK(harbol_array_index_of(&v, val, ds, ix)==e, "index_of"); break; }
		case 17: { LOGOP("del_by_val"); size_t e = SIZE_MAX; for( size_t i = 0; i < m.len; i++ ) if( !memcmp(m.b + i * ds, val, ds) ) { e = i; break; }
			bool r = harbol_array_del_by_val(&v, val, ds); CHECK(r==(e != SIZE_MAX), "del_by_val returned %d", r);
			if( r ) { memmove(m.b + e * ds, m.b + (e + 1) * ds, (m.len - e - 1) * ds); memset(m.b + (m.len - 1) * ds, 0, ds); m.len--; } break; }
		case 18: case 19: { struct HarbolArray w; M n; mk(&w, &n, ds, false); bool self = chance(10); struct HarbolArray *pw = self? &v : &w; M *pn = self? &m : &n;
			if( rn(2) ) { LOGOP("add%s", self? " self" : ""); bool ok = !m.null && !pn->null && pn->len <= m.cap - m.len; bool r = harbol_array_add(&v, pw, ds); CHECK(r==ok, "add returned %d", r);
				if( ok ) { memcpy(m.b + m.len * ds, pn->b, pn->len * ds); m.len += pn->len; } }
			else { LOGOP("copy%s", self? " self" : ""); bool ok = self || (!m.null && !n.null); bool r = harbol_array_copy(&v, pw, ds); CHECK(r==ok, "copy returned %d", r);
				if( ok && !self ) { memset(m.b, 0, m.cap * ds); m.len = m.cap < n.len? m.cap : n.len; memcpy(m.b, n.b, m.len * ds); } }
			same(&w, &n, "other array"); drop(&w, &n); break; }
		case 20: { CHECK(harbol_array_len(&v)==m.len && harbol_array_cap(&v)==m.cap, "len/cap"); CHECK(harbol_array_empty(&v)==(m.null || m.len==0), "empty"); CHECK(harbol_array_full(&v)==(m.len >= m.cap), "full"); CHECK(*harbol_array_data(&v)==(void*)v.table, "data"); break; }
		case 21: { struct HarbolArray w; M n; mk(&w, &n, ds, false); size_t a = m.len, b = n.len; CHECK(harbol_array_len_diff(&v, &w)==(a > b? a - b : b - a), "len_diff"); a = m.cap; b = n.cap; CHECK(harbol_array_cap_diff(&v, &w)==(a > b? a - b : b - a), "cap_diff"); drop(&w, &n); break; }
		}
		CHECK(!memcmp(val, vcopy, ds), "value argument changed"); xfree(vcopy);
		same(&v, &m, "after operation");
	}
	xfree(val); xfree(out); xfree(keep); drop(&v, &m); CHECK(hv_live==0, "leak of %ld blocks", hv_live);
}
static size_t np2(size_t x) { for( int i=0; i < 64; i++ ) if( ((size_t)1 << i) > x ) return (size_t)1 << i; return 0; }
static void resized(struct HarbolArray *v, M *m, size_t oldcap) {
	/* any valid outcome: contents kept up to what fits, rest zero */
	if( v->cap==0 ) CHECK(v->table==NULL && v->len==0 && oldcap==0, "capacity lost"); else CHECK(v->table != NULL, "no storage");
	if( v->table ) { extern size_t __sanitizer_get_allocated_size(const volatile void*); CHECK(__sanitizer_get_allocated_size(v->table) >= v->cap * m->ds, "storage of %zu bytes for cap %zu", __sanitizer_get_allocated_size(v->table), v->cap); }
	size_t nl = m->len < v->cap? m->len : v->cap; CHECK(v->len==nl, "length %zu expected %zu", v->len, nl);
	size_t c = oldcap < v->cap? oldcap : v->cap;
	CHECK(!cmpn(v->table, m->b, c * m->ds), "elements lost");
	for( size_t i = c * m->ds; i < v->cap * m->ds; i++ ) CHECK(v->table[i]==0, "new slot byte %zu not zero", i);
}
static void cap(bool fault) {
	struct HarbolArray v; M m; size_t ds = rn(400)? DS[rn(10)] : 100 + rn(90000), old;
	if( chance(20) ) { size_t n = chance(80)? rn(40) : rbound(40); bool r = false; int w = (int)rn(4);
		if( fault ) { hv_fail = (long)rn(3); }
		LOGOP("create %d datasize %zu size %zu fail %ld", w, ds, n, hv_fail);
		struct HarbolArray x = {0}, *p = &x; long live0 = hv_live; 
		if( w==0 ) { x = harbol_array_make(ds, n, &r); } else if( w==1 ) { r = harbol_array_init(&x, ds, n); } else if( w==2 ) { p = harbol_array_new(ds, n); r = p != NULL; }
		else { uint8_t *b = lalloc(n % 50 * ds + 1); live0 = hv_live; p = harbol_array_new_from_array(b, n % 50, n % 50 / 2); if( p ) CHECK(p->table==b && p->cap==n % 50 && p->len==n % 50 / 2, "new_from_array"); else CHECK(hv_failed, "failed"); free(b); if( p ) { p->table = NULL; harbol_array_free(&p); CHECK(p==NULL, "free"); } CHECK(hv_live==live0 - 1, "leak"); return; }
		CHECK(r==(hv_failed==0), "creation returned %d with %ld failed allocations", r, hv_failed);
		if( r ) { CHECK(p->cap >= (n < 4? 4 : n) && p->len==0 && p->table, "created cap %zu len %zu", p->cap, p->len); for( size_t i=0; i < p->cap * ds; i++ ) CHECK(p->table[i]==0, "not zeroed"); }
		else CHECK(w==2 || (x.table==NULL && x.len==0), "failed creation");
		if( w==2 ) { harbol_array_cleanup(&p); CHECK(p==NULL, "cleanup"); } else { harbol_array_clear(&x); CHECK(x.table==NULL && x.cap==0 && x.len==0, "clear"); }
		CHECK(hv_live==live0, "leak"); return; }
	mk(&v, &m, ds, false); old = m.cap; uint8_t *ot = v.table;
	if( fault ) hv_fail = 0;
	switch( rn(4) ) {
	case 0: { LOGOP("grow"); bool r = harbol_array_grow(&v, ds); CHECK(r==(v.cap > old), "grow returned %d", r); CHECK(r==(hv_failed==0), "grow returned %d, failures %ld", r, hv_failed); break; }
	case 1: { size_t n = chance(70)? rn(40) : rbound(old); if( n < hv_big && ds < 100 ) n %= 100 + rsz(100); else if( n < hv_big ) n %= 9; LOGOP("resize %zu", n); bool r = harbol_array_resize(&v, ds, n); CHECK(r==(v.cap != old), "resize returned %d", r);
		if( np2(n)==0 || np2(n) > hv_big / ds ) hv_failed += old && n;
		if( hv_failed ) { if( v.cap != old ) CHECK(old==0 && !hv_failed, "resize changed"); } else CHECK(v.cap==(old==0 || n==0? 4 : np2(n)), "resize to cap %zu", v.cap); break; }
	case 2: { bool ex = rn(2); LOGOP("shrink %d", ex); size_t l = m.len; bool r = harbol_array_shrink(&v, ds, ex); CHECK(r==(v.cap < old), "shrink returned %d", r); if( v.cap < old ) CHECK(v.cap >= l, "shrink dropped elements"); if( !hv_failed && old > 4 && l ) CHECK(v.cap==(ex? l : np2(l)) || old==(ex? l : np2(l)), "shrink to %zu", v.cap); break; }
	case 3: { LOGOP("clear"); harbol_array_clear(&v); CHECK(v.table==NULL && v.cap==0 && v.len==0, "clear"); m.len = 0; old = 0; m.null = 1; ot = NULL; break; }
	}
	if( hv_failed ) CHECK(v.table==ot && v.cap==old && v.len==m.len, "changed although memory could not be obtained");
	resized(&v, &m, old);
	LOGOP("final"); hv_fail = -1; harbol_array_clear(&v); xfree(m.b); CHECK(hv_live==0, "leak of %ld", hv_live);
}
static void c02(void) { cap(chance(25)); }
static void c20(void) { cap(true); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C01", c01}, {"C02", c02}, {"C20", c20}, {0} }); }
