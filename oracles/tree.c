#include "hv.h"
#include "tree/tree.h"
extern size_t __sanitizer_get_allocated_size(const volatile void*);
typedef struct M { uint8_t *v; size_t n, k, cap; struct M *kid[520]; struct HarbolTree *t; } M;
static M *mk(struct HarbolTree *t, void const *v, size_t n) { M *m = xalloc(sizeof *m); memset(m, 0, sizeof *m); m->v = xdup(v, n); m->n = n; m->t = t; return m; }
static void mfree(M *m) { for( size_t i=0; i < m->k; i++ ) mfree(m->kid[i]); xfree(m->v); xfree(m); }
static void mdel(M *m, size_t i) { mfree(m->kid[i]); memmove(&m->kid[i], &m->kid[i + 1], (m->k - i - 1) * sizeof(M*)); m->k--; }
static void same(M *m, struct HarbolTree *t, const char *w) {
	CHECK(m->t==t, "%s: node moved", w); CHECK(t->data != NULL && harbol_tree_get(t)==t->data, "%s: no data", w); CHECK(t->len==m->n && harbol_tree_len(t)==m->n, "%s: size %zu expected %zu", w, t->len, m->n);
	CHECK(__sanitizer_get_allocated_size(t->data) >= m->n, "%s: storage", w); CHECK(cmpn(t->data, m->v, m->n)==0, "%s: value differs", w);
	CHECK(t->kids.len==m->k, "%s: %zu children expected %zu", w, t->kids.len, m->k); CHECK(t->kids.len <= t->kids.cap, "%s: children table", w);
	for( size_t i=0; i < m->k; i++ ) { struct HarbolTree *c = harbol_tree_get_node_by_index(t, i); CHECK(c==m->kid[i]->t, "%s: child %zu is another node", w, i); same(m->kid[i], c, w); }
	CHECK(harbol_tree_get_node_by_index(t, m->k)==NULL && harbol_tree_get_node_by_index(t, m->k + rn(9))==NULL && harbol_tree_get_node_by_index(t, SIZE_MAX)==NULL && harbol_tree_get_node_by_index(t, (SIZE_MAX>>3) + 1 + rn(3))==NULL, "%s: child past the last", w);
}
static uint8_t buf[4096];
static size_t val(void) { size_t n = chance(4)? 0 : chance(3)? 200 + rn(3000) : 1 + rn(4); if( chance(80) ) rfew(buf, n, 2); else rfill(buf, n); return n; }
static void run(bool fault) {
	struct HarbolTree root = {0}, *rp = &root; bool heap = chance(50), ok; size_t n = val(); uint8_t *v = xdup(buf, n);
	hv_failed = 0; hv_fail = fault && chance(30)? (long)rn(3) : -1;
	LOGOP("root of %zu bytes", n); if( heap ) rp = harbol_tree_new(v, n), ok = rp != NULL; else ok = harbol_tree_init(&root, v, n);
	hv_fail = -1; CHECK(ok==!hv_failed, "creation returned %d", ok);
	if( !ok ) { xfree(v); if( !heap ) { CHECK(root.data==NULL, "data after failed creation"); harbol_tree_clear(&root); } CHECK(hv_live==0, "leak of %ld after failed creation", hv_live); return; }
	M *m = mk(rp, v, n); xfree(v);
	bool wide = rn(300)==0; size_t lim = wide? 500 : 60; int ops = 4 + (int)rn(wide? 700 : 25);
	for( int q=0; q < ops; q++ ) {
		M *x = m; for( int d=0; d < 3 && x->k && chance(wide? 3 : 45); d++ ) x = x->kid[rn(x->k)];
		n = val(); v = xdup(buf, n); size_t i; M *c; hv_failed = 0; hv_fail = fault && chance(40)? (long)rn(4) : -1; long live = hv_live;
		switch( (int)rn(11) ) {
		case 0: case 1: case 2: LOGOP("insert_val %zu", n); if( x->k >= lim ) break; ok = harbol_tree_insert_val(x->t, v, n); CHECK(ok==(n && !hv_failed), "insert_val returned %d", ok); if( ok ) { c = mk(harbol_tree_get_node_by_index(x->t, x->k), v, n); CHECK(c->t != NULL, "inserted child missing"); x->kid[x->k++] = c; } else { long f = hv_live; CHECK(f==live, "failed insertion leaves %ld blocks", f - live); } break;
		case 3: { if( x->k >= lim ) break; long f = hv_fail; hv_fail = -1; struct HarbolTree *t = harbol_tree_new(v, n); hv_fail = f; hv_failed = 0; CHECK(t != NULL, "new"); LOGOP("insert_node %zu", n); ok = harbol_tree_insert_node(x->t, &t); CHECK(ok==!hv_failed, "insert_node returned %d", ok); CHECK(t != NULL, "insert_node consumed its argument"); c = mk(t, v, n); if( ok ) x->kid[x->k++] = c; else { same(c, t, "node not inserted"); mfree(c); harbol_tree_free(&t); } break; }
		case 4: i = chance(70)? rn(x->k) : rbound(x->k); LOGOP("rm_index %zu", i); ok = harbol_tree_rm_index(x->t, i); CHECK(ok==(i < x->k), "rm_index returned %d", ok); if( ok ) mdel(x, i); break;
		case 5: { struct HarbolTree *t, o = {0}; if( x->k && chance(70) ) { i = rn(x->k); t = x->kid[i]->t; } else { i = SIZE_MAX; t = x->t; } LOGOP("rm_node %zd", (ssize_t)i); struct HarbolTree **r = &t; if( i != SIZE_MAX && chance(40) ) r = (struct HarbolTree**)x->t->kids.table + i;
			ok = harbol_tree_rm_node(x->t, r); CHECK(ok==(i != SIZE_MAX), "rm_node returned %d", ok); if( ok ) { if( r==&t ) CHECK(t==NULL, "reference not cleared"); mdel(x, i); } break; }
		case 6: { for( i=0; i < x->k; i++ ) if( x->kid[i]->n==n && cmpn(x->kid[i]->v, v, n)==0 ) break; LOGOP("rm_val %zu", n); ok = harbol_tree_rm_val(x->t, v, n); CHECK(ok==(n && i < x->k), "rm_val returned %d, child %zu", ok, i); if( ok ) mdel(x, i); break; }
		case 7: { for( i=0; i < x->k; i++ ) if( x->kid[i]->n==n && cmpn(x->kid[i]->v, v, n)==0 ) break; LOGOP("get_node_by_val %zu", n); struct HarbolTree *t = harbol_tree_get_node_by_val(x->t, v, n); CHECK(t==(n && i < x->k? x->kid[i]->t : NULL), "get_node_by_val found another node"); break; }
		case 8: case 9: LOGOP("set %zu", n); ok = harbol_tree_set(x->t, v, n); CHECK(ok==(n && !hv_failed), "set returned %d", ok); if( ok ) { xfree(x->v); x->v = xdup(v, n); x->n = n; } break;
		case 10: if( x->n ) { size_t a = rn(x->n), b = 1 + rn(x->n - a); LOGOP("set from its own data"); ok = harbol_tree_set(x->t, x->t->data + a, b); CHECK(ok==!hv_failed, "set returned %d", ok); if( ok ) { uint8_t *e = xdup(x->v + a, b); xfree(x->v); x->v = e; x->n = b; } } break;
		}
		hv_fail = -1; if( n ) memset(v, 0x5a, n); xfree(v); same(m, rp, "after the operation");
	}
	mfree(m); if( heap ) { harbol_tree_free(&rp); CHECK(rp==NULL, "free"); } else { harbol_tree_clear(&root); CHECK(root.data==NULL && root.len==0 && root.kids.table==NULL && root.kids.len==0, "clear"); }
	CHECK(hv_live==0, "leak of %ld", hv_live);
}
static void c13(void) { run(chance(25)); }
static void c20(void) { run(true); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C13", c13}, {"C20", c20}, {0} }); }
