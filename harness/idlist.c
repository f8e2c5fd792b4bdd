/*@
prop: C27
src: src/common/idlist.c
defs: VH_ARR_CAP=32
unwind: 6
munwind: 67
hunwind: 140
quick: w1 T=5 K=3
quick: w2 T=66 K=2
quick: full T=64 K=2
thorough: w1 T=6 K=5
thorough: w2 T=66 K=3
thorough: full T=64 K=3
thorough: w3 T=130 K=3
outside: more than T ids handed out before K arbitrary releases and K+1 requests
@*/
#include <glib.h>
#include <lighttpd/idlist.h>
#include "vh.h"
/* T ids are handed out, then an arbitrary mix of K releases/requests, then requests until refusal */
static unsigned char used[T+K+2];
static unsigned nused;
static liIDList *l; static unsigned mx;
static void get(void) {
	gint id = li_idlist_get(l);
	if (id < 0) VH_ASSERT(nused == mx, "an id is refused only when the limit is reached");
	else {
		VH_ASSERT(nused < mx, "never more ids than the limit");
		VH_ASSERT((unsigned) id < mx, "id in range");
		VH_ASSERT(!used[id], "an id in use is never handed out again");
		VH_ASSERT(li_idlist_is_used(l, id), "id is reported as in use");
		used[id] = 1; nused++;
	}
}
static void put(void) {
	unsigned id = vh_range(0, T+K+1);
	VH_ASSUME(used[id]);
	li_idlist_put(l, (gint) id);
	VH_ASSERT(!li_idlist_is_used(l, (gint) id), "released");
	used[id] = 0; nused--;
}
void vh_main(void) {
	unsigned i, k, p, probe; int g = 0, q = 0;
	mx = T + 1;
	l = li_idlist_new((gint) mx);
	for (i = 0; i < T; i++) { k = (unsigned) li_idlist_get(l); VH_ASSERT(k == i, "fresh list hands out consecutive ids"); used[k] = 1; nused++; }
	for (i = 0; i < K; i++) { if (vh_bool()) { put(); q++; } else { get(); g++; } }
	probe = vh_range(0, T+K+1);
	VH_ASSERT(!!used[probe] == !!li_idlist_is_used(l, (gint) probe), "is_used is exact");
	for (i = 0; i < K+1; i++) get();
	VH_ASSERT(!!used[probe] == !!li_idlist_is_used(l, (gint) probe), "is_used is exact");
	VH_REACH_IF(q == K, "releases");
	VH_REACH_IF(q && g, "mixed");
}
