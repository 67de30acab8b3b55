#include "hv.h"
#include "lex/lex.h"
static size_t enc(uint32_t c, uint8_t *o) {   /* the standard encoding, from the table of RFC 3629 */
	if( c <= 0x7F ) { o[0] = (uint8_t)c; return 1; }
	if( c <= 0x7FF ) { o[0] = 0xC0 + c / 64; o[1] = 0x80 + c % 64; return 2; }
	if( c <= 0xFFFF ) { o[0] = 0xE0 + c / 4096; o[1] = 0x80 + c / 64 % 64; o[2] = 0x80 + c % 64; return 3; }
	o[0] = 0xF0 + c / 262144; o[1] = 0x80 + c / 4096 % 64; o[2] = 0x80 + c / 64 % 64; o[3] = 0x80 + c % 64; return 4;
}
static uint32_t cp(void) {
	static const uint32_t e[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF };
	switch( rn(6) ) { case 0: return 1 + (uint32_t)rn(0x7F); case 1: return 0x80 + (uint32_t)rn(0x780); case 2: return 0x800 + (uint32_t)rn(0xF800); case 3: return e[rn(14)]; default: return 1 + (uint32_t)rn(0x10FFFF); }
}
static void one(uint32_t c) {
	uint8_t w[8]; size_t n = enc(c, w);
	CHECK(rune_byte_len((int32_t)c)==n, "U+%04X: length %zu, expected %zu", c, rune_byte_len((int32_t)c), n);
	CHECK(get_utf8_len((char)w[0])==n, "U+%04X: length %zu from the first byte, expected %zu", c, get_utf8_len((char)w[0]), n);
	for( size_t l=0; l <= 5; l++ ) {
		uint8_t b[8]; memset(b, 0xEE, 8); size_t r = write_utf8_cstr((char*)b, l, (int32_t)c);
		CHECK(r==(l < n? 0 : n), "U+%04X: %zu bytes written into %zu", c, r, l);
		for( size_t i=0; i < 8; i++ ) CHECK(b[i]==(i < r? w[i] : 0xEE), "U+%04X into %zu bytes: byte %zu is %02X", c, l, i, b[i]);
	}
	if( c==0 ) return;
	uint8_t t[8]; memcpy(t, w, n); t[n] = 0; memset(t + n + 1, 0xBF, 7 - n);
	for( size_t l=0; l <= 5; l++ ) {
		int32_t r = 77; size_t k = read_utf8((char*)t, l, &r);
		if( l >= n ) CHECK(k==n && r==(int32_t)c, "U+%04X read as U+%04X, %zu bytes of %zu", c, r, k, l); else CHECK(k==0 && r==-1, "U+%04X read from %zu bytes", c, l);
		r = read_utf8_rune((char*)t, l); CHECK(r==(l >= n? (int32_t)c : -1), "U+%04X read as U+%04X from %zu bytes", c, r, l);
	}
}
static void c15(void) {
	static bool swept;
	if( !swept ) { swept = true; LOGOP("every code point"); for( uint32_t c=0; c <= 0x10FFFF; c++ ) one(c); for( uint32_t c=0x110000; c < 0x110010; c++ ) { char b[8] = {0}; CHECK(rune_byte_len((int32_t)c)==0 && write_utf8_cstr(b, 8, (int32_t)c)==0, "no code point encoded"); } }
	size_t n = rn(30), m = 0; int32_t *rs = xalloc((n + 1) * sizeof *rs); uint8_t *u = xalloc(n * 4 + 1); size_t at[40];
	for( size_t i=0; i < n; i++ ) { rs[i] = (int32_t)cp(); at[i] = m; m += enc((uint32_t)rs[i], u + m); } rs[n] = 0; u[m] = 0;
	char *t = xdup(u, m + 1); LOGOP("%zu code points from U+%04X, %zu bytes", n, rs[0], m);
	CHECK(get_str_rune_len(t)==n, "counted %zu", get_str_rune_len(t));
	for( size_t i=0; i < n; i++ ) { size_t l = chance(40)? rn(8) : m - at[i], k; if( l > m - at[i] ) l = m - at[i]; char *p = xdup(t + at[i], l? l : 1); int32_t r = 5; k = read_utf8(p, l, &r); size_t w = (i + 1 < n? at[i + 1] : m) - at[i];
		CHECK(l >= w? k==w && r==rs[i] : k==0 && r==-1, "U+%04X read as U+%04X, %zu bytes of %zu", rs[i], r, k, l); CHECK(read_utf8_rune(p, l)==(l >= w? rs[i] : -1), "rune"); xfree(p); }
	size_t k = 99; int32_t *q = utf8_cstr_to_rune(t, m, &k); CHECK(q && k==n && memcmp(q, rs, (n + 1) * sizeof *q)==0, "decoded text differs"); free(q);
	char *c = rune_to_utf8_cstr(rs, &k); CHECK(k==m && (m==0 || (c && memcmp(c, t, m + 1)==0)), "encoded text differs"); free(c);
	size_t idx = 0; for( size_t i=0; i < n; i++ ) { CHECK(idx==at[i], "position %zu of code point %zu", idx, i); CHECK(utf8_to_rune_iter(t, m, &idx)==rs[i], "code point %zu", i); } CHECK(idx==m && utf8_to_rune_iter(t, m, &idx)==-1 && idx==m, "end of the iteration");
	struct HarbolString s = {0}; for( size_t i=0; i < n; i++ ) CHECK(write_utf8_str(&s, rs[i]), "append"); CHECK(s.len==m && (m==0 || memcmp(s.cstr, t, m + 1)==0), "appended text differs"); harbol_string_clear(&s);
	xfree(t); xfree(u); xfree(rs); CHECK(hv_live==0, "leak of %ld blocks", hv_live);
}
static bool notx(int32_t c) { return c != 'x' && c != 0x2026; }
static const char *const pieces[] = { "0x", "0X", "0b", "0o", "0", "1", "9", "12", "a", "f", "F", ".", "e", "E", "p", "P", "+", "-", "u", "U", "l", "L", "'", "_", "\\", "\\\\", "\"", "\"\"\"", "`", "\n", "\r", "\t", " ", "//", "/*", "*/", "*", "\\x", "\\u", "\\U", "\\n", "\\07", "\\9", "ffffffff", "7777", "ident", "x", "\xc3\xa9", "\xe2\x80\xa6", "\xf0\x9f\x98\x80", "\xf0", "\xe2\x80", "\xff", "\xfe", "\xf8", "\x80", "$" };
static void c16(void) {
	static char tx[30000]; size_t n = 0; const char *pre[] = { "", "", "", "0x", "0b", "0o", "0", "\"", "'", "`", "//", "/*", "\"\"\"", "1", "_a", "\\" };
	strcpy(tx, pre[rn(16)]); n = strlen(tx); int mode = (int)rn(4); size_t lo = rn(48), sp = 1 + rn(12);
	for( size_t k=rn(rn(200)==0? 2000 : chance(10)? 100 : 7); k--; ) { const char *p = mode==0? pieces[rn(57)] : mode==1? pieces[rn(24)] : mode==2? pieces[(lo + rn(sp)) % 57] : "ab\\\"'\n*/`x"; size_t l = mode==3? 1 : strlen(p); if( mode==3 ) p += rn(10); memcpy(tx + n, p, l); n += l; }
	if( chance(25) && n ) n = rn(n + 1); tx[n] = 0;
	static const char *const names[] = { "skip_chars", "skip_chars_until_newline", "skip_string_literal", "skip_single_line_comment", "skip_multi_line_comment", "clear_single_line_comment", "clear_multi_line_comment", "skip_multiquote_string", "lex_single_line_comment", "lex_multi_line_comment", "lex_multiquote_string", "lex_hex_escape_char", "lex_octal_escape_char", "lex_unicode_char", "lex_c_style_hex", "lex_go_style_hex", "lex_c_style_octal", "lex_go_style_octal", "lex_c_style_binary", "lex_go_style_binary", "lex_c_style_decimal", "lex_go_style_decimal", "lex_c_style_number", "lex_go_style_number", "lex_c_style_str", "lex_go_style_str", "lex_until_false", "lex_until_false_utf8", "lex_c_style_identifier", "lex_until", "lex_custom_number", "rune walks", "lex_fix_newlines", "convert_cstr_to_base" };
	for( int q=0; q < 3; q++ ) {
		int f = (int)rn(34); char *t = xdup(tx, n + 1); const char *end = t; struct HarbolString s = {0}; uint32_t lines = 0; size_t ln = 0; bool fl = false; const char *tok = (const char*[]){"*/", "\"\"\"", "'", "\n", "x", "/*+*/"}[rn(6)]; size_t tl = strlen(tok); char esc = "\\x\""[rn(3)];
		tok = xdup(tok, tl + 1); struct LexingRules rules = {0};
		LOGOP("%s on '%.900s' token '%s'", names[f], tx, tok); alarm(20);
		bool (*ck)(int32_t) = (bool(*[])(int32_t)){ is_whitespace, is_possible_id, is_alphabetic, is_hex, notx }[rn(5)];
		switch( f ) {
		case 0: end = skip_chars(t, ck, &lines); break; case 1: end = skip_chars_until_newline(t, ck); break; case 2: end = skip_string_literal(t, esc); break;
		case 3: end = skip_single_line_comment(t, &lines); break; case 4: end = skip_multi_line_comment(t, tok, tl, &lines); break;
		case 5: end = clear_single_line_comment(t); break; case 6: end = clear_multi_line_comment(t, tok, tl); break; case 7: end = skip_multiquote_string(t, tok, tl, esc); break;
		case 8: lex_single_line_comment(t, &end, &s, &lines); break; case 9: lex_multi_line_comment(t, &end, tok, tl, &s, &lines); break; case 10: lex_multiquote_string(t, &end, tok, tl, &s, &ln); break;
		case 11: lex_hex_escape_char(t, &end); break; case 12: lex_octal_escape_char(t, &end); break; case 13: lex_unicode_char(t, &end, (size_t[]){1, 2, 4, 8, 0}[rn(5)]); break;
		case 14: lex_c_style_hex(t, &end, &s, &fl); break; case 15: lex_go_style_hex(t, &end, &s, &fl); break; case 16: lex_c_style_octal(t, &end, &s, &fl); break; case 17: lex_go_style_octal(t, &end, &s); break;
		case 18: lex_c_style_binary(t, &end, &s); break; case 19: lex_go_style_binary(t, &end, &s); break; case 20: lex_c_style_decimal(t, &end, &s, &fl); break; case 21: lex_go_style_decimal(t, &end, &s, &fl); break;
		case 22: lex_c_style_number(t, &end, &s, &fl); break; case 23: lex_go_style_number(t, &end, &s, &fl); break; case 24: lex_c_style_str(t, &end, &s); break; case 25: lex_go_style_str(t, &end, &s); break;
		case 26: lex_until_false(t, &end, &s, ck); break; case 27: lex_until_false_utf8(t, &end, &s, ck); break; case 28: lex_c_style_identifier(t, &end, &s); break; case 29: lex_until(t, &end, &s, tok[0]); break; case 30: lex_custom_number(t, &end, &rules, &s); break;
		case 31: { size_t k = 0, i = 0, g = 0; get_str_rune_len(t); int32_t *r = utf8_cstr_to_rune(t, n, &k); free(r); while( utf8_to_rune_iter(t, n, &i) != -1 && g++ < n ) CHECK(i <= n, "position %zu of %zu", i, n); CHECK(i <= n, "position %zu of %zu", i, n); break; }
		case 32: { bool tabs = chance(50); char *w = xalloc(4*n + 1); size_t m = 0; for( size_t i=0; i < n; i++ ) { if( tx[i]=='\r' ) { w[m++] = '\n'; if( tx[i + 1]=='\n' ) i++; } else if( tabs && tx[i]=='\t' ) { memset(w + m, ' ', 4); m += 4; } else w[m++] = tx[i]; } w[m] = 0;
			struct HarbolString z = harbol_string_make(t, &(bool){false}); lex_fix_newlines(&z, tabs); CHECK(z.len==m && (z.cstr? memcmp(z.cstr, w, m + 1)==0 : m==0), "%zu characters instead of %zu", z.len, m); harbol_string_clear(&z); xfree(w); break; }
		case 33: { bool ok = false; size_t l = rn(6) < n? rn(6) : n; if( l > n ) l = n; char *w = xdup(tx, l + 1); w[l] = 0; uintmax_t v = convert_cstr_to_base_uint(w, 10, "0123456789", &ok), z = 0; bool all = true; for( size_t i=0; i < l && all; i++ ) { if( w[i] >= '0' && w[i] <= '9' ) z = z*10 + (uintmax_t)(w[i] - '0'); else all = false; }
			CHECK(ok==all && v==z, "'%s' converted to %ju, %d", w, v, (int)ok); convert_cstr_to_base_int(w, 10, "0123456789", &ok); xfree(w); break; }
		}
		alarm(0);
		CHECK(end >= t && end <= t + n, "end position %td of %zu", end - t, n); CHECK(t[n]==0, "terminator overwritten"); CHECK(f==5 || f==6 || memcmp(t, tx, n + 1)==0, "text changed");
		harbol_string_clear(&s); xfree((void*)tok); xfree(t); CHECK(hv_live==0, "leak of %ld blocks", hv_live);
	}
}
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C15", c15}, {"C16", c16}, {0} }); }
