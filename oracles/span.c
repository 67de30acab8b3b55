#include "hv.h"
#include "msg_span/msg_span.h"
static uint32_t u32(void) { switch( rn(6) ) { case 0: return (uint32_t)rn(4); case 1: return UINT32_MAX - (uint32_t)rn(4); case 2: return 0x80000000u + (uint32_t)rn(4) - 2; default: return (uint32_t)rnd() >> rn(32); } }
#define MIN_(a,b) ((a) < (b)? (a) : (b))
#define MAX_(a,b) ((a) > (b)? (a) : (b))
static void merge(void) {
	struct HarbolTokenSpan a = { u32(), u32(), u32(), u32() }, b = { u32(), u32(), u32(), u32() };
	if( chance(30) ) b.line_start = a.line_start; if( chance(30) ) b.colm_end = a.colm_end; if( chance(10) ) b = a;
	LOGOP("merge (%u,%u,%u,%u) (%u,%u,%u,%u)", a.line_start, a.line_end, a.colm_start, a.colm_end, b.line_start, b.line_end, b.colm_start, b.colm_end);
	struct HarbolTokenSpan r = harbol_token_span_merge(a, b);
	CHECK(r.line_start==MIN_(a.line_start, b.line_start) && r.line_end==MAX_(a.line_end, b.line_end), "lines %u to %u", r.line_start, r.line_end);
	CHECK(r.colm_start==MIN_(a.colm_start, b.colm_start) && r.colm_end==MAX_(a.colm_end, b.colm_end), "columns %u to %u", r.colm_start, r.colm_end);
}
static char *norm(const char *s) {   /* line endings become \n, a tab four spaces */
	char *o = xalloc(strlen(s) * 4 + 1), *p = o;
	for( ; *s; s++ ) { if( s[0]=='\r' ) { if( s[1]=='\n' ) s++; *p++ = '\n'; } else if( *s=='\t' ) { memcpy(p, "    ", 4); p += 4; } else *p++ = *s; }
	*p = 0; return o;
}
static void table(bool fault) {
	static char tx[150000]; size_t n = rn(1500)==0? 65500 + rn(9000) : chance(10)? 0 : chance(10)? 300 + rn(2500) : rn(40); int style = (int)rn(4);
	for( size_t i=0; i < n; i++ ) tx[i] = n > 60000? rn(900)? 'a' : "\n\r\t"[rn(3)] : style==0? "a\n"[rn(2)] : style==1? "\n\r\tx"[rn(4)] : style==2? (char)(1 + rn(255)) : chance(12)? '\n' : "abc {};\t"[rn(8)];
	tx[n] = 0; char *src = xdup(tx, n + 1), *want = norm(src);
	bool fr = chance(50), file = chance(15), fail = fault && chance(70), ok; char fname[64]; struct HarbolMsgSpan ms = {0};
	if( file ) { sprintf(fname, "/tmp/hv-span-%d", (int)getpid()); FILE *f = fopen(fname, "w"); if( f==NULL || fwrite(src, 1, n, f) != n ) { perror(fname); exit(3); } fclose(f); }
	LOGOP("line table of %zu characters '%.300s'%s", n, src, file? " read from a file" : "");
	hv_failed = 0; hv_fail = fail? (long)rn(10) : -1; hv_fail_all = chance(30);
	if( chance(50) ) ok = harbol_msg_span_init(&ms, file? fname : src, file, fr); else ms = harbol_msg_span_make(file? fname : src, file, fr, &ok);
	hv_fail = -1; hv_fail_all = 0; if( file ) unlink(fname);
	if( ok ) {
		CHECK(!hv_failed, "success although an allocation failed");
		size_t k = 0, c = 1; for( char *p=want; *p; p++ ) c += *p=='\n';
		CHECK(harbol_msg_span_get_num_lines(&ms)==c, "%zu lines, expected %zu", harbol_msg_span_get_num_lines(&ms), c);
		for( char *p=want; ; k++ ) {
			char *e = strchr(p, '\n'); size_t l = e? (size_t)(e - p) : strlen(p); struct HarbolString const *s = harbol_msg_span_get_line(&ms, k);
			CHECK(s != NULL, "line %zu missing", k); CHECK(s->len==l, "line %zu has length %zu, expected %zu", k, s->len, l); CHECK(l==0 || (memcmp(s->cstr, p, l)==0 && s->cstr[l]==0), "line %zu is '%.100s', expected '%.*s'", k, s->cstr, (int)l, p);
			CHECK(l || s->cstr==NULL || s->cstr[0]==0, "line %zu is not empty", k); if( e==NULL ) break; p = e + 1;
		}
		CHECK(harbol_msg_span_get_line(&ms, c)==NULL && harbol_msg_span_get_line(&ms, c + rn(9))==NULL && harbol_msg_span_get_line(&ms, SIZE_MAX)==NULL, "line past the last");
		if( file ) CHECK(ms.src.filename.cstr && !strcmp(ms.src.filename.cstr, fname), "file name"); if( fr ) CHECK(harbol_msg_span_get_code(&ms)->cstr==NULL, "source kept");
	} else CHECK(hv_failed || (file && n==0), "creation failed");
	xfree(want); xfree(src);
	if( !ok ) { CHECK(hv_live==0, "failed creation leaks %ld blocks", hv_live); }
	harbol_msg_span_clear(&ms); CHECK(hv_live==0, "leak of %ld blocks", hv_live); CHECK(harbol_msg_span_get_line(&ms, 0)==NULL && harbol_msg_span_get_num_lines(&ms)==0, "lines after clear");
	harbol_msg_span_clear(&ms);
}
static void c22(void) { for( int i=0; i < 8; i++ ) merge(); table(chance(20)); }
static void c20(void) { table(true); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C22", c22}, {"C20", c20}, {0} }); }
