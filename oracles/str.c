#include "hv.h"
#include <ctype.h>
#include "str/str.h"
extern size_t __sanitizer_get_allocated_size(const volatile void*);
typedef struct { char *t; size_t n; } M;   /* model text; t always terminated */
static void mset(M *m, const char *p, size_t n) { char *q = xalloc(n + 1); if( n ) memcpy(q, p, n); q[n] = 0; xfree(m->t); m->t = q; m->n = n; }
static void mput(M *m, const char *p, size_t n) { char *q = xalloc(m->n + n + 1); memcpy(q, m->t, m->n); if( n ) memcpy(q + m->n, p, n); q[m->n + n] = 0; xfree(m->t); m->t = q; m->n += n; }
static char rch(void) { if( chance(60) ) return (char)("abAB zZ"[rn(7)]); if( chance(30) ) return (char)("\t\n\v\f\r !"[rn(7)]); return (char)(1 + rn(255)); }
static char *rtext(size_t n, int few) { char *s = xalloc(n + 1); for( size_t i=0; i < n; i++ ) s[i] = few? (char)('a' + rn(2)) : rch(); s[n] = 0; return s; }
static void mk(struct HarbolString *s, M *m, int few) {
	*s = (struct HarbolString){0}; m->t = NULL; mset(m, "", 0);
	if( chance(15) ) return;
	size_t n = chance(20)? 0 : few? rn(18) + (rn(50)? 0 : rn(200)) : rsz(18); char *t = rtext(n, few);
	s->cstr = lalloc(n + 1); memcpy(s->cstr, t, n + 1); s->len = n; mset(m, t, n); xfree(t);
	LOGOP("string \"%s\"", s->cstr);
}
static void same(struct HarbolString *s, M *m, const char *w) {
	CHECK(s->len==m->n, "%s: length %zu expected %zu", w, s->len, m->n);
	if( s->cstr==NULL ) { CHECK(s->len==0, "%s: length without storage", w); return; }
	CHECK(__sanitizer_get_allocated_size(s->cstr) >= s->len + 1, "%s: storage of %zu for length %zu", w, __sanitizer_get_allocated_size(s->cstr), s->len);
	CHECK(s->cstr[s->len]==0, "%s: not terminated at its length", w);
	CHECK(cmpn(s->cstr, m->t, m->n)==0, "%s: text \"%.*s\" expected \"%s\"", w, (int)s->len, s->cstr, m->t);
	CHECK(harbol_string_len(s)==s->len && harbol_string_cstr(s)==s->cstr && harbol_string_mut_cstr(s)==s->cstr, "getters");
}
static void build(bool fault) {
	struct HarbolString s, w; M m, k; mk(&s, &m, 0);
	for( int step = 0; step < 8; step++ ) {
		hv_fail = -1; mk(&w, &k, 0); hv_failed = 0; if( fault && chance(60) ) hv_fail = (long)rn(2);
		struct HarbolString o = s; int op = (int)rn(13); bool r; char c = rch();
		switch( op ) {
		case 0: LOGOP("add_char %d", c); r = harbol_string_add_char(&s, c); CHECK(r==!hv_failed, "result"); if( r ) mput(&m, &c, 1); break;
		case 1: { size_t n = chance(80)? rn(20) : rbound(m.n); if( n > 4000 && n < (size_t)1 << 40 ) n %= 4000; LOGOP("add_char_rep %d x %zu", c, n); r = harbol_string_add_char_rep(&s, c, n); 
			CHECK(!r || n < ((size_t)1 << 40), "impossible run accepted"); if( n < ((size_t)1 << 40) ) CHECK(r==!hv_failed, "result"); if( r ) for( size_t i=0; i < n; i++ ) mput(&m, &c, 1); break; }
		case 2: { bool self = chance(25); struct HarbolString *q = self? &s : &w; M *mq = self? &m : &k; LOGOP("add_str%s", self? " self" : ""); bool has = q->cstr != NULL; r = harbol_string_add_str(&s, q); CHECK(r==(has && !hv_failed), "result %d", r); if( r ) { char *t = xdup(mq->t, mq->n + 1); size_t n = mq->n; mput(&m, t, n); xfree(t); } break; }
		case 3: { LOGOP("add_cstr"); r = harbol_string_add_cstr(&s, k.t); CHECK(r==(k.n && !hv_failed), "result %d", r); if( r ) mput(&m, k.t, k.n); break; }
		case 4: LOGOP("add_cstr NULL"); r = harbol_string_add_cstr(&s, NULL); CHECK(!r, "accepted"); break;
		case 5: { bool self = chance(20); struct HarbolString *q = self? &s : &w; LOGOP("copy_str%s", self? " self" : ""); bool has = q->cstr != NULL; r = harbol_string_copy_str(&s, q); CHECK(r==(self || (has && !hv_failed)), "result %d", r); if( r && !self ) mset(&m, k.t, k.n); break; }
		case 6: LOGOP("copy_cstr"); r = harbol_string_copy_cstr(&s, k.t); CHECK(r==(k.n && !hv_failed), "result %d", r); if( r ) mset(&m, k.t, k.n); break;
		case 7: LOGOP("copy_cstr NULL"); r = harbol_string_copy_cstr(&s, NULL); CHECK(!r, "accepted"); break;
		case 8: { bool cl = chance(50); if( chance(25) ) { LOGOP("format clear=%d by %%s", cl); int z = harbol_string_format(&s, cl, "%s", k.t); CHECK(z==(hv_failed? -1 : (int)k.n), "format returned %d", z); if( z >= 0 ) { if( cl ) mset(&m, k.t, k.n); else mput(&m, k.t, k.n); } break; }
			int x = (int)rnd(); int wd = (int)rn(30); char e[9000]; int n = snprintf(e, sizeof e, "%d|%s|%*c", x, k.t, wd + 1, 'q'); LOGOP("format clear=%d", cl); int z = harbol_string_format(&s, cl, "%d|%s|%*c", x, k.t, wd + 1, 'q'); CHECK(z==(hv_failed? -1 : n), "format returned %d expected %d", z, n); if( z >= 0 ) { if( cl ) mset(&m, e, (size_t)n); else mput(&m, e, (size_t)n); } break; }
		case 9: { if( k.n && chance(30) ) { struct hv_short q = { k.t, k.n, rn(k.n), 0 }; long hf = hv_fail; hv_fail = -1; FILE *sp = hv_short_open(&q); hv_fail = hf; LOGOP("read stream of %zu with %zu to be had", k.n, q.give); r = harbol_string_read_from_file(&s, sp); fclose(sp); CHECK(r==!hv_failed, "read returned %d", r); if( r ) mset(&m, k.t, q.give); break; }
			char name[] = "/tmp/hvXXXXXX"; int fd = mkstemp(name); FILE *fp = fdopen(fd, "w+b"); if( k.n ) fwrite(k.t, 1, k.n, fp); fflush(fp); LOGOP("read file of %zu", k.n); bool byname = chance(30);
			r = byname? harbol_string_read_file(&s, name) : harbol_string_read_from_file(&s, fp); unlink(name); fclose(fp); CHECK(r==(k.n && !hv_failed), "read returned %d", r); if( r ) mset(&m, k.t, k.n); break; }
		case 10: { hv_fail = fault? (long)rn(3) : -1; hv_failed = 0; LOGOP("new"); struct HarbolString *p = harbol_string_new(chance(10)? NULL : k.t); if( p==NULL ) CHECK(hv_failed, "new failed"); else { if( p->cstr ) { CHECK(p->len==k.n && !strcmp(p->cstr, k.t), "new text"); } else CHECK(p->len==0, "new without text"); if( !hv_failed && p->cstr==NULL ) CHECK(1, " "); harbol_string_free(&p); CHECK(p==NULL, "free"); } break; }
		case 11: { bool ok = 2; LOGOP("make"); struct HarbolString p = harbol_string_make(k.t, &ok); CHECK(ok==(p.cstr != NULL) && ok==(k.n && !hv_failed), "make"); if( ok ) CHECK(p.len==k.n && !strcmp(p.cstr, k.t), "made text"); harbol_string_clear(&p); break; }
		case 12: LOGOP("clear"); harbol_string_clear(&s); CHECK(s.cstr==NULL && s.len==0, "clear"); mset(&m, "", 0); break;
		}
		if( hv_failed && op != 10 && op != 11 && op != 12 ) CHECK(s.cstr==o.cstr && s.len==o.len, "failed operation changed the string");
		same(&s, &m, "after the operation"); hv_fail = -1; harbol_string_clear(&w); xfree(k.t);
	}
	hv_fail = -1; harbol_string_clear(&s); xfree(m.t); CHECK(hv_live==0, "leak of %ld", hv_live);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static void edit(void) {
	int few = chance(60); struct HarbolString s; M m; mk(&s, &m, few);
	for( int step = 0; step < 5; step++ ) {
		bool has = s.cstr != NULL; char c = chance(60) && m.n? m.t[rn(m.n)] : few? (char)('a' + rn(2)) : rch(), d = rch(); size_t n = 0, r; bool b; hv_failed = 0; hv_fail = chance(15)? (long)rn(2) : -1;
		char *old = xdup(m.t, m.n + 1); size_t on = m.n;
		switch( (int)rn(16) ) {
		case 0: { LOGOP("replace_char %d %d", c, d); b = harbol_string_replace_char(&s, c, d); for( size_t i=0; i < m.n; i++ ) if( m.t[i]==c ) { m.t[i] = d; n++; } CHECK(b==(has && n), "replace_char returned %d", b); break; }
		case 1: { LOGOP("count_char %d", c); for( size_t i=0; i < m.n; i++ ) n += m.t[i]==c; r = harbol_string_count_char(&s, c); CHECK(r==n, "counted %zu expected %zu", r, n); break; }
		case 2: { LOGOP("upper"); for( size_t i=0; i < m.n; i++ ) if( m.t[i] >= 'a' && m.t[i] <= 'z' ) { m.t[i] -= 32; n++; } b = harbol_string_upper(&s); CHECK(b==(n > 0), "upper"); break; }
		case 3: { LOGOP("lower"); for( size_t i=0; i < m.n; i++ ) if( m.t[i] >= 'A' && m.t[i] <= 'Z' ) { m.t[i] += 32; n++; } b = harbol_string_lower(&s); CHECK(b==(n > 0), "lower"); break; }
		case 4: { LOGOP("reverse"); for( size_t i=0; i < m.n; i++ ) m.t[i] = old[m.n - 1 - i]; b = harbol_string_reverse(&s); CHECK(b==(m.n >= 2), "reverse"); break; }
		case 5: { LOGOP("rm_char %d", c); size_t j = 0; for( size_t i=0; i < m.n; i++ ) if( m.t[i] != c ) m.t[j++] = m.t[i]; n = m.n - j; m.t[j] = 0; m.n = j; r = harbol_string_rm_char(&s, c); CHECK(r==n, "removed %zu expected %zu", r, n); break; }
		case 6: { LOGOP("trim_spaces"); size_t j = 0; for( size_t i=0; i < m.n; i++ ) if( !(m.t[i]==' ' || (m.t[i] >= 9 && m.t[i] <= 13)) ) m.t[j++] = m.t[i]; n = m.n - j; m.t[j] = 0; m.n = j; r = harbol_string_trim_spaces(&s); CHECK(r==n, "trimmed %zu expected %zu", r, n); break; }
		case 7: { if( chance(20) ) c = 0; LOGOP("find_char %d", c); char *p = strchr(m.t, c); r = harbol_string_find_char(&s, c); CHECK(r==(has && p? (size_t)(p - m.t) : SIZE_MAX), "found at %zu", r); break; }
		case 8: case 9: { struct HarbolString w; M k; hv_fail = -1; mk(&w, &k, few); if( chance(30) && has ) { harbol_string_clear(&w); mset(&k, m.t, m.n); if( k.n && chance(50) ) k.t[rn(k.n)] ^= 1 << rn(7); k.n = strlen(k.t); w.len = k.n; w.cstr = lalloc(w.len + 1); memcpy(w.cstr, k.t, w.len + 1); }
			LOGOP("compare with \"%s\"", k.t); int x = harbol_string_cmpcstr(&s, k.t), y = harbol_string_cmpstr(&s, &w); int e = strcmp(m.t, k.t); if( has ) CHECK(sgn(x)==sgn(-e), "cmpcstr %d expected sign of %d", x, -e); else CHECK(x==-1, "no text"); if( has && w.cstr ) CHECK(sgn(y)==sgn(e), "cmpstr %d expected sign of %d", y, e); else CHECK(y==-1, "no text");
			CHECK(harbol_string_cmpcstr(&s, NULL)==-1, "null"); same(&w, &k, "compared string"); harbol_string_clear(&w); xfree(k.t); break; }
		case 10: { LOGOP("empty, is_palindrome"); bool p = m.n > 0; for( size_t i=0; i < m.n / 2; i++ ) if( m.t[i] != m.t[m.n - 1 - i] ) p = false; CHECK(harbol_string_empty(&s)==(m.n==0), "empty"); CHECK(harbol_string_is_palindrome(&s)==p, "palindrome expected %d", p); break; }
		case 11: case 12: { size_t an = rn(4), wn = rn(5); if( few==0 && m.n > 1 && chance(70) ) { an = 1 + rn(3); if( an > m.n ) an = m.n; }
			char *a = few? rtext(an, 1) : NULL; if( !few ) { a = xalloc(an + 1); size_t at = rn(m.n - (an < m.n? an : m.n) + 1); for( size_t i=0; i < an; i++ ) a[i] = at + i < m.n? m.t[at + i] : 'a'; a[an] = 0; }
			char *w = rtext(wn, few); size_t lim = chance(50)? rn(5) : rbound(3); LOGOP("replace_cstr \"%s\" by \"%s\" at most %zu", a, w, lim);
			M q = {0}; mset(&q, "", 0); size_t done = 0; for( size_t i=0; i < m.n; ) { if( an && done < lim && i + an <= m.n && !memcmp(m.t + i, a, an) ) { mput(&q, w, wn); i += an; done++; } else { mput(&q, m.t + i, 1); i++; } }
			struct HarbolString o = s; b = harbol_string_replace_cstr(&s, a, w, lim); CHECK(b==(has && done && !hv_failed), "replace_cstr returned %d, %zu occurrences", b, done); if( b ) mset(&m, q.t, q.n); else CHECK(s.cstr==o.cstr && s.len==o.len, "failed replacement changed the string"); xfree(q.t); xfree(a); xfree(w); break; }
		case 13: { size_t an = rn(4); char *a = rtext(an, few); LOGOP("count_cstr \"%s\", cstr_offsets", a); for( size_t i=0; an && i + an <= m.n; ) if( !memcmp(m.t + i, a, an) ) { n++; i += an; } else i++; r = harbol_string_count_cstr(&s, a); CHECK(r==n, "counted %zu expected %zu", r, n);
			size_t on2 = rn(6); size_t *of = xalloc(on2 * sizeof *of); b = harbol_string_cstr_offsets(&s, a, of, on2); CHECK(b==(has && an), "cstr_offsets returned %d", b); if( b ) { size_t i = 0, q = 0; for( ; i + an <= m.n && q < on2; i++ ) if( !memcmp(m.t + i, a, an) ) { CHECK(of[q]==i, "offset %zu is %zu expected %zu", q, of[q], i); q++; } for( ; q < on2; q++ ) CHECK(of[q]==SIZE_MAX, "offset without occurrence"); } xfree(of); xfree(a); break; }
		case 14: case 15: { size_t wn = rn(5), lo = chance(80)? rn(m.n + 1) : rbound(m.n), up = chance(70)? lo + rn(4) : rbound(m.n); char *w = rtext(wn, few); LOGOP("replace_range %zu %zu \"%s\"", lo, up, w); struct HarbolString o = s; b = harbol_string_replace_range(&s, lo, up, w); size_t u = up >= m.n? m.n - 1 : up; bool ok = lo < m.n && lo <= u && !hv_failed;
			CHECK(b==ok, "replace_range returned %d", b); if( b ) { M q = {0}; mset(&q, m.t, lo); mput(&q, w, wn); mput(&q, m.t + u + 1, m.n - u - 1); mset(&m, q.t, q.n); xfree(q.t); } else CHECK(s.cstr==o.cstr && s.len==o.len, "failed replacement changed the string"); xfree(w); break; }
		}
		hv_fail = -1; same(&s, &m, "after the operation"); xfree(old); (void)on;
	}
	harbol_string_clear(&s); xfree(m.t); CHECK(hv_live==0, "leak of %ld", hv_live);
}
static void c04(void) { build(chance(25)); }
static void c20(void) { if( chance(70) ) build(true); else edit(); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C04", c04}, {"C05", edit}, {"C20", c20}, {0} }); }
