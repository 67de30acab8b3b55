#include "hv.h"
#include <math.h>
#include <ctype.h>
#include "math/math_parser.h"
/* Expressions are generated together with their value; a: the double library functions, b: the long double ones */
typedef struct { long double a, b; } V;
static char tx[1 << 21]; static size_t tn; static bool wordy;
static int tag, calls; static void *const TAG = &tag;
static void sp(void) { while( chance(18) ) tx[tn++] = " \t\n\r"[rn(4)]; }
static void put(const char *s) { sp(); if( wordy && isalnum((unsigned char)*s) ) tx[tn++] = " \t\n\r"[rn(4)]; if( wordy && *s=='.' ) tx[tn++] = ' '; while( *s ) tx[tn++] = *s++; wordy = tn && isalnum((unsigned char)tx[tn - 1]) || (tn && tx[tn - 1]==46); }
static floatmax_t f_twice(floatmax_t x) { return x * 2; }
static floatmax_t f_half(floatmax_t x) { return x / 2; }
static floatmax_t f_next(floatmax_t x) { return x + 1; }
static HarbolMathFunc *const fn[] = { f_twice, f_half, f_next };
static long double vval(const char *s) { unsigned h = 7; while( *s ) h = h * 31 + (unsigned char)*s++; return (long double)(h % 41) / 4 - 3; }
static int fidx(const char *s) { unsigned h = 3; while( *s ) h = h * 17 + (unsigned char)*s++; return (int)(h % 3); }
static void name(char *b, char c) {
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
	size_t n = chance(4)? 50 + rn(14) : 1 + rn(6); b[0] = c; for( size_t i=1; i < n; i++ ) b[i] = al[rn(62)]; b[n] = 0;
}
static void look(char const s[], size_t n, floatmax_t *val, HarbolMathFunc **f, void *data, size_t dl, bool *isf) {
	calls++; CHECK(strlen(s)==n, "name '%.80s' passed with length %zu", s, n); CHECK(data==TAG && dl==77, "data passed to the lookup differs");
	if( s[0]=='v' ) *val = vval(s); else if( s[0]=='f' ) { *f = fn[fidx(s)]; *isf = true; }
}
static V add(int d);
static bool open_;   /* the last factor is a function applied without brackets: a '^' would belong to its argument */
static V brack(int d) { V r; bool p = chance(60); put(p? "(" : "["); r = add(d - 1); put(p? ")" : "]"); open_ = false; return r; }
static V unary(int d, bool nobrack);
static V pow_(int d, bool nobrack) {
	V r = unary(d, nobrack);
	while( d > 0 && !open_ && chance(22) ) { put("^"); V s = unary(d - 1, false); r.a = pow(r.a, s.a); r.b = powl(r.b, s.b); }
	return r;
}
static V factor(int d, bool nobrack) {
	char b[70]; V r; open_ = false;
	switch( d > 0? rn(7) : rn(3) ) {
	case 0: case 1: case 3: { char *e = b; if( chance(3) ) for( size_t z=rn(44); z--; ) *e++ = '0'; switch( rn(5) ) { case 0: sprintf(e, "%u.%u", (unsigned)rn(100), (unsigned)rn(1000)); break; case 1: sprintf(e, ".%u", (unsigned)rn(100)); break; case 2: sprintf(e, "%u.", (unsigned)rn(100)); break; case 3: sprintf(e, "%llu", (unsigned long long)rnd() >> rn(64)); break; default: sprintf(e, "%u", (unsigned)rn(10)); } put(b); r.a = r.b = strtold(b, NULL); return r; }
	case 2: name(b, 'v'); put(b); r.a = r.b = vval(b); return r;
	case 4: case 5: if( !nobrack ) return brack(d); /* fall through */
	default: name(b, 'f'); put(b); HarbolMathFunc *f = fn[fidx(b)]; if( chance(60) ) r = brack(d); else { r = pow_(d - 1, true); open_ = true; } r.a = f(r.a); r.b = f(r.b); return r;
	}
}
static V unary(int d, bool nobrack) {
	if( chance(12) ) { put("-"); V r = unary(d, false); r.a = -r.a; r.b = -r.b; return r; }
	if( chance(6) ) { put("+"); V r = unary(d, false); r.a = fabs(r.a); r.b = fabsl(r.b); return r; }
	return factor(d, nobrack);
}
static V mul(int d) { V r = pow_(d, false); while( d > 0 && chance(28) ) { bool m = chance(50); put(m? "*" : "/"); V s = pow_(d - 1, false); if( m ) r.a *= s.a, r.b *= s.b; else r.a /= s.a, r.b /= s.b; } return r; }
static V add(int d) { V r = mul(d); while( d > 0 && chance(28) ) { bool m = chance(50); put(m? "+" : "-"); V s = mul(d - 1); if( m ) r.a += s.a, r.b += s.b; else r.a -= s.a, r.b -= s.b; } return r; }
static bool near_(long double a, long double b, long double e) { return isnan(a) || isnan(b)? isnan(a) && isnan(b) : a==b || fabsl(a - b) <= e * (fabsl(a) > fabsl(b)? fabsl(a) : fabsl(b)); }
static long double eval(void) { char *t = xdup(tx, tn + 1); t[tn] = 0; long double r = harbol_math_parse_expr(t, look, TAG, 77); xfree(t); return r; }
static void bad(const char *w) { tx[tn] = 0; LOGOP("%s '%.200s'", w, tx); long double r = eval(); CHECK(isnan(r), "%s evaluates to %Lg", w, r); }
static void c21(void) {
	char b[200]; tn = 0; wordy = false; V r = add((int)rn(5)); if( tn > 60000 ) return; sp(); tx[tn] = 0;
	LOGOP("evaluate '%.600s'", tx); long double g = eval();
	if( near_(r.a, r.b, 1e-9L) ) CHECK(near_(g, r.a, 1e-7L), "value %.18Lg, expected %.18Lg", g, r.a);
	size_t n = tn, p; char *k = xdup(tx, n + 1);
	switch( rn(12) ) {
	case 0: p = rn(n + 1); tx[p] = "!$&,;:=<>_#@{}\"'\\|~?%\x80\xff\x01"[rn(24)]; if( p==n ) tn++; bad("an illegal character in"); break;
	case 1: put(")"); bad("an unmatched bracket after"); break;
	case 2: memmove(tx + 1, tx, n); tx[0] = "(["[rn(2)]; tn++; bad("a bracket never closed in"); break;
	case 3: put((char*[]){"+", "-", "*", "/", "^", "(", "["}[rn(7)]); bad("no operand after"); break;
	case 4: put((char*[]){"1", "v", "(1)", "[2]"}[open_? 0 : rn(4)]); if( open_ || tx[tn-1]==')' || tx[tn-1]==']' ) { /* a function may take it */ if( k[0]=='f' || strchr(k, 'f') ) { tn = n; break; } } bad("two operands in"); break;
	case 5: tn = 0; wordy = false; put((char*[]){"1.2.3", "1a", ".", "..", "3f", "1.v", "0x10", "1e5", "", " ", "()", "[]", "(1]", "[1)", "*1", "/2", "^3", "1+*2", "f", "f()", "2^", "(((", ")", "1)(2"}[rn(24)]); bad("malformed text"); break;
	case 6: tn = 0; wordy = false; name(b, 'u'); put(b); if( chance(40) ) { put((char*[]){"+1", "*0", "^0", "-v"}[rn(4)]); } bad("unknown name"); break;
	case 7: tn = 0; wordy = false; b[0] = 0; for( size_t i=0, z=64 + rn(100); i < z; i++ ) b[i] = (char)('0' + rn(10)), b[i + 1] = 0; { p = strlen(b); if( chance(30) ) b[rn(p)] = '.'; char c = "05vu"[rn(4)]; if( chance(60) ) b[0] = c; put(b); tx[tn] = 0; LOGOP("a long token '%s'", tx); calls = 0; g = eval(); long double v = isalpha((unsigned char)b[0])? (b[0]=='v'? vval(b) : NAN) : strtold(b, NULL); CHECK(isnan(g) || near_(g, v, 1e-9L), "value %Lg", g); } break;
	case 8: { tn = 0; wordy = false; size_t z = rn(190); for( size_t i=0; i < z; i++ ) tx[tn++] = "(["[i & 1]; tx[tn++] = '4'; for( size_t i=z; i--; ) tx[tn++] = ")]"[i & 1]; LOGOP("%zu nested brackets", z); g = eval(); CHECK(g==4, "value %Lg", g); break; }
	case 9: if( chance(3) ) { tn = 0; size_t z = 1000000; const char *s = (const char*[]){"(", "[", "-", "+", "f ", "f(", "2^-", "1+("}[rn(8)]; for( size_t i=0; i < z && tn + 4 < sizeof tx; i++ ) for( const char *q=s; *q; q++ ) tx[tn++] = *q; LOGOP("%zu times '%s'", z, s); g = eval(); CHECK(isnan(g), "value %Lg", g); } break;
	case 10: { tn = 0; wordy = false; bool e = chance(50); put(e? "e" : "pi"); tx[tn] = 0; char *t = xdup(tx, tn + 1); LOGOP("default name %s", tx); g = harbol_math_parse_expr(t, harbol_math_default_var_func, NULL, 0); xfree(t); CHECK(near_(g, e? expl(1) : acosl(-1), 1e-12L), "value %Lg", g); t = xdup(e? "sin" : "u1\0", 4); g = harbol_math_parse_expr(t, harbol_math_default_var_func, NULL, 0); CHECK(isnan(g), "value %Lg of a name alone", g); g = harbol_math_parse_expr(t, NULL, NULL, 0); CHECK(isnan(g), "value %Lg without a lookup", g); xfree(t); break; }
	case 11: { static const struct { const char *n; long double (*f)(long double); } F[] = { {"sin", sinl}, {"cos", cosl}, {"tan", tanl}, {"arcsin", asinl}, {"arccos", acosl}, {"arctan", atanl}, {"ln", logl}, {"log", log10l}, {"floor", floorl}, {"ceil", ceill}, {"round", roundl} }; size_t i = rn(11); double x = (double)rn(1000) / 1000; sprintf(b, chance(50)? "%s %.3f" : "%s(%.3f)", F[i].n, x); x = strtod(strpbrk(b, "0123456789"), NULL); char *t = xdup(b, strlen(b) + 1); LOGOP("%s", b); g = harbol_math_parse_expr(t, harbol_math_default_var_func, NULL, 0); xfree(t); CHECK(near_(g, F[i].f(x), 1e-9L), "value %Lg expected %Lg", g, F[i].f(x)); break; }
	}
	xfree(k); CHECK(hv_live==0, "leak of %ld blocks", hv_live);
}
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C21", c21}, {0} }); }
