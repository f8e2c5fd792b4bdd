/*@
prop: C30
src: src/common/mempool.c
wrap: mmap munmap sysconf
light: 1
object-bits: 10
defs: SZ=1048576 PRE=3 OPS=4
unwind: 9
munwind: 6
hunwind: 18
unwindset: mp_mag_alloc.0:6 find_free_bit.0:9 find_free_bit.1:9
quick: few PRE=2 OPS=4
quick: full PRE=7 OPS=4
quick: over PRE=8 OPS=4
quick: odd SZ=1048570 PRE=6 OPS=4
quick: word SZ=65000 PRE=64 OPS=2 hunwind=70
quick: big SZ=1048577 PRE=2 OPS=4
thorough: few PRE=2 OPS=6
thorough: full PRE=7 OPS=6
thorough: over PRE=9 OPS=5
thorough: word SZ=65000 PRE=126 OPS=4 hunwind=135
outside: use from several threads at once; more than one chunk size; other chunk sizes than listed
@*/
#include <lighttpd/base.h>
#include <lighttpd/mempool.h>
#include <sys/mman.h>
#include "vh.h"
#define ALIGN(s) (((s) + 4095) & ~4095ul)
#define MAXA 6
/* mmapped areas */
static char *ar[MAXA]; static gsize arl[MAXA]; static int live[MAXA]; static unsigned na;
void* VH_WRAP(mmap)(void *a, size_t l, int p, int f, int fd, off_t o) { char *r; VH_BOUND(na < MAXA, "areas"); VH_ASSERT(l <= (16ul << 20), "area size"); r = (char*) ((na + 1ul) << 26); /* addresses only: the pool never touches the memory */ ar[na] = r; arl[na] = l; live[na] = 1; na++; return r; }
int VH_WRAP(munmap)(void *a, size_t l) { unsigned i, f = 0; for (i = 0; i < MAXA; i++) if (i < na && ar[i] == a) { VH_ASSERT(live[i] && arl[i] == l, "an area is returned once, completely"); live[i] = 0; f = 1; } VH_ASSERT(f, "only own areas are returned"); return 0; }
long VH_WRAP(sysconf)(int n) { return 4096; }
#define NP (PRE+OPS)
static liMempoolPtr p[NP]; static int use[NP];
static void put(unsigned i) { li_mempool_free(p[i], SZ); use[i] = 0; }
/* which area, at which offset */
static void where(char *q, unsigned *a, gsize *o) { unsigned i; *a = MAXA; *o = 0; for (i = 0; i < MAXA; i++) if (i < na && live[i] &&
	(gsize) q >= (gsize) ar[i] && (gsize) q < (gsize) ar[i] + arl[i]
	) { *a = i; *o = (gsize) q - (gsize) ar[i]; } }
void vh_main(void) {
	unsigned i, o, x, y, a, b, reuse = 0; gsize oa, ob;
	for (i = 0; i < PRE; i++) { p[i] = li_mempool_alloc(SZ); use[i] = 1; }
	for (o = 0; o < OPS; o++) {
		if (vh_bool()) { unsigned j = vh_range(0, NP-1), k; VH_ASSUME(use[j]);
#if PRE > 16
			VH_ASSUME(j < 2 || j > PRE - 3);
#endif
			for (k = 0; k < NP; k++) if ((PRE < 16 || k < 2 || k > PRE - 3) && k == j) put(k); reuse++; }
		else { p[PRE+o] = li_mempool_alloc(SZ); use[PRE+o] = 1; }
	}
	x = vh_range(0, NP-1); y = vh_range(0, NP-1); VH_ASSUME(use[x] && use[y]);
#if PRE > 16
	VH_ASSUME((x < 2 || x > PRE - 3) && y > PRE - 3);
#endif
	where(p[x].data, &a, &oa); where(p[y].data, &b, &ob);
	VH_ASSERT(a < MAXA && oa + ALIGN(SZ) <= arl[a], "memory handed out lies inside a mapped area");
	VH_ASSERT(oa % 4096 == 0, "memory is page aligned");
	if (x != y) VH_ASSERT(a != b || oa + ALIGN(SZ) <= ob || ob + ALIGN(SZ) <= oa, "memory in use by one owner is never handed out to another");
	for (i = 0; i < MAXA; i++) if (i < na && live[i] && i != a) { unsigned j, any = 0; gsize oj; unsigned aj; for (j = 0; j < NP; j++) if (use[j]) { where(p[j].data, &aj, &oj); if (aj == i) any = 1; } VH_ASSERT(any, "an area without users is returned to the system"); }
	VH_REACH_IF(reuse && x != y, "reuse");
	VH_REACH_IF(reuse == 0 && x != y, "all");
}
