#include "hv.h"
#include <stddef.h>
#include "mtwister/mtwister.h"
static struct MTRand *fresh(void) { struct MTRand *r = xalloc(sizeof *r); rfill(r, sizeof *r); return r; }
static void c23(void) {
	struct MTRand *a = fresh(), *b = fresh(); size_t seed = chance(20)? rn(3) : chance(20)? SIZE_MAX - rn(3) : rnd();
	int how = (int)rn(3);
	if( how==0 ) { LOGOP("seed %zu", seed); _MT_SeedRand(a, seed); _MT_SeedRand(b, seed); }
	else if( how==1 ) { LOGOP("create from %zu", seed); *a = MT_SeedRand(seed); *b = MT_SeedRand(seed); }
	else { a->index = chance(60)? rn(626) : rbound(624); *b = *a; LOGOP("unseeded, position %zu", a->index); }
	int n = chance(20)? 1300 : 1 + (int)rn(30); if( chance(30) && how < 2 ) { LOGOP("skip"); for( int i=0; i < 620; i++ ) { size_t x = MT_GenRand_UInt(a), y = MT_GenRand_UInt(b); CHECK(x==y, "draw %d differs", i); } }
	for( int i=0; i < n; i++ ) {
		if( chance(50) ) { size_t x = MT_GenRand_UInt(a), y = MT_GenRand_UInt(b); CHECK(x==y, "draw %d: %zu and %zu from equal states", i, x, y); }
		else { double x = MT_GenRand_F64(a), y = MT_GenRand_F64(b); CHECK(x==y, "draw %d: %g and %g from equal states", i, x, y); CHECK(x >= 0 && x <= 1, "draw %d is %g", i, x); }
		CHECK(a->index <= STATE_VECTOR_LENGTH, "position %zu", a->index); CHECK(memcmp(a, b, sizeof *a)==0, "states differ");
	}
	/* extreme words */
	for( int k=0; k < 40; k++ ) { a->index = rn(624); memset(&a->mt[a->index], chance(50)? 255 : 0, 8); a->mt[a->index] ^= chance(50)? 0 : rn(5000); double x = MT_GenRand_F64(a); CHECK(x >= 0 && x <= 1, "draw is %g", x); }
	xfree(a); xfree(b);
}
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C23", c23}, {0} }); }
