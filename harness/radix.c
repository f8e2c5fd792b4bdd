/*@
prop: C24
src: src/common/radix.c
light: 1
object-bits: 10
defs: W1=24 W2=28 W3=0 LW=32 RM=0 LO=20 FIX=0
unwind: 6
munwind: 10
hunwind: 10
unwindset: li_radixtree_insert.0:6 li_radixtree_insert.1:14
cost: 10
quick: nest W1=24 W2=28 LO=20
quick: nest3 W1=21 W2=26 W3=28 LO=20
quick: same W1=26 W2=26 W3=26 LO=21
quick: zero W1=0 W2=24 W3=28 LO=20
quick: up W1=28 W2=26 W3=22 LO=21
quick: cross W1=31 W2=33 LO=28 LW=40
quick: cross3 W1=30 W2=34 W3=32 LO=28 LW=40
quick: cross32 W1=32 W2=34 W3=36 LO=28 LW=40
quick: deep W1=34 W2=36 W3=0 LO=29 LW=40
quick: rm W1=24 W2=28 RM=1 LO=20
quick: rm2 W1=24 W2=28 RM=2 LO=20
quick: rm3 W1=22 W2=26 W3=28 RM=1 LO=20 FIX=2
quick: rmx W1=32 W2=34 RM=2 LO=28 LW=40
quick: rmx3 W1=31 W2=34 W3=34 RM=2 LO=28 LW=40 FIX=2
quick: shortkey W1=24 W2=28 W3=22 LO=20 LW=25
thorough: nest3 W1=23 W2=26 W3=30 LO=22
thorough: up W1=30 W2=27 W3=24 LO=22
thorough: cross3 W1=31 W2=35 W3=33 LO=29 LW=40
thorough: rm3 W1=24 W2=28 W3=30 RM=2 LO=22 FIX=2
thorough: rmx3 W1=33 W2=35 W3=36 RM=3 LO=29 LW=40 FIX=2
outside: more than three prefixes; keys that differ outside an 8-bit window; prefix lengths other than the listed ones
@*/
#include <lighttpd/base.h>
#include <lighttpd/radix.h>
#include "vh.h"
static void mk(unsigned char *k, unsigned char v) { /* the 8 bits of v at bit positions LO.. */
	unsigned sh = LO % 8; k[0] = k[1] = k[2] = k[3] = k[4] = k[5] = k[6] = k[7] = 0; k[LO/8] |= v >> sh; if (sh) k[LO/8+1] |= (unsigned char) (v << (8 - sh));
}
/* do the first w bits of keys made from a and b agree? */
static int agree(unsigned char a, unsigned char b, int w) { int n = w - LO; return n <= 0 ? 1 : n >= 8 ? a == b : (unsigned char) (a ^ b) >> (8 - n) == 0; }
static liRadixTree *t;
static const int W[3] = { W1, W2, W3 }; static unsigned char v[3]; static int have[3]; static char val[3];
#define NI (W3 || W2 == 0 ? 3 : 2)
static unsigned seen[3];
static void visit(gpointer d, gpointer u) { unsigned i; for (i = 0; i < 3; i++) if (d == &val[i]) seen[i]++; }
void vh_main(void) {
	unsigned i, j; unsigned char k[8], q; gpointer r, e; int best, bl;
	t = li_radixtree_new();
	for (i = 0; i < NI; i++) {
		gpointer old = NULL; v[i] = vh_u8(); if (FIX && i == 0) v[i] = 0x65; if (FIX > 1 && i == 1) v[i] = 0x6c; mk(k, v[i]);
		r = li_radixtree_insert(t, k, W[i], &val[i]);
		for (j = 0; j < i; j++) if (have[j] && W[j] == W[i] && agree(v[i], v[j], W[i])) { old = &val[j]; have[j] = 0; }
		have[i] = 1;
		VH_ASSERT(r == old, "insert returns the entry it replaces");
	}
#if RM
	{
		unsigned x = RM - 1; unsigned char rv = vh_u8(); gpointer old = NULL; mk(k, rv);
		for (j = 0; j < NI; j++) if (have[j] && W[j] == W[x] && agree(rv, v[j], W[x])) { old = &val[j]; have[j] = 0; }
		r = li_radixtree_remove(t, k, W[x]);
		VH_ASSERT(r == old, "remove removes exactly the named prefix");
		VH_REACH_IF(old, "removed"); VH_REACH_IF(!old, "nothing to remove");
	}
#endif
	q = vh_u8(); mk(k, q);
	best = -1; bl = -1;
	for (j = 0; j < NI; j++) if (have[j] && W[j] <= LW && agree(q, v[j], W[j]) && W[j] > bl) { best = j; bl = W[j]; }
	r = li_radixtree_lookup(t, k, LW);
	VH_ASSERT(r == (best < 0 ? NULL : &val[best]), "lookup returns the longest stored prefix of the key");
	e = NULL; for (j = 0; j < NI; j++) if (have[j] && W[j] == W2 && agree(q, v[j], W2)) e = &val[j];
	r = li_radixtree_lookup_exact(t, k, W2);
	VH_ASSERT(r == e, "exact lookup finds exactly the stored prefix");
	li_radixtree_foreach(t, visit, NULL);
	for (j = 0; j < NI; j++) VH_ASSERT(seen[j] == (unsigned) have[j], "iteration visits every entry once");
#if W2 <= LW
	VH_REACH_IF(best == 1, "second");
#endif
	 VH_REACH_IF(best == 0, "first");
#if W1 > LO
	VH_REACH_IF(best == -1, "none");
#endif
}
