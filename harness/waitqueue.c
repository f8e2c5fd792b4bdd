/*@
prop: C28
src: src/common/waitqueue.c
inc-first: harness/over_ev
light: 1
defs: OPS=4 NE=3 ALLOW=31 DT=15 D=2
unwind: 5
munwind: 6
hunwind: 12
quick: mix OPS=4 NE=2 ALLOW=15 DT=11 CB=1
quick: ready OPS=4 NE=2 ALLOW=7 DT=11 CB=2
quick: three OPS=5 NE=3 ALLOW=7 DT=22 CB=2
quick: fast OPS=5 NE=3 ALLOW=7 DT=31 CB=1
quick: pop OPS=4 NE=3 ALLOW=13 DT=13 CB=1
quick: delay OPS=3 NE=2 ALLOW=21 DT=5 CB=1
thorough: mix OPS=5 NE=3 ALLOW=15 DT=22 CB=1
thorough: ready OPS=5 NE=3 ALLOW=15 DT=22 CB=2
thorough: delay OPS=5 NE=3 ALLOW=23 DT=21 CB=1
thorough: delay2 OPS=4 NE=3 ALLOW=23 DT=11 CB=2
thorough: long OPS=6 NE=3 ALLOW=7 DT=53 D=3 CB=2
outside: more than three waiting elements or more than OPS steps after the first element was queued
@*/
#include <lighttpd/base.h>
#include <lighttpd/waitqueue.h>
#include "vh.h"
li_tstamp vh_now; static liEventLoop ev_lp; static long ev_ticks;
static const double T[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 };
/* reference: elements in order of their last push */
static liWaitQueueElem e[3]; static liWaitQueue q; static unsigned ord[3], n; static long ts[3]; static long delay = D; static int fired;
#define ev_t_active (q.timer.base.active)
#define ev_deadline (q.timer.deadline)
static void ev_pass(unsigned k) { ev_ticks += k; vh_now = T[ev_ticks]; if (ev_t_active && ev_deadline <= vh_now) vh_fire_timer(&q.timer); }

static int idx(liWaitQueueElem *x) { return x == &e[0] ? 0 : x == &e[1] ? 1 : x == &e[2] ? 2 : -1; }
static void drop(unsigned i) { unsigned k, d = 0; for (k = 0; k < 3; k++) { if (k < n && ord[k] == i) d = 1; if (d && k + 1 < 3) ord[k] = ord[k+1]; } if (d) n--; }
static int queued(unsigned i) { unsigned k; int r = 0; for (k = 0; k < 3; k++) if (k < n && ord[k] == i) r = 1; return r; }
static void expire(int i) {
	VH_ASSERT(i >= 0 && n > 0 && ord[0] == (unsigned) i, "elements leave in the order of their last activity");
	VH_ASSERT(ts[i] + delay <= ev_ticks, "no element times out early");
	drop(i); fired++;
}
static void cb(liWaitQueue *wq, gpointer data) { unsigned k; liWaitQueueElem *x; VH_ASSERT(wq == &q && data == &n, "callback data"); for (k = 0; k < NE+1; k++) { x = li_waitqueue_pop(wq); if (!x) break; expire(idx(x)); } li_waitqueue_update(wq); }
static void cb2(liWaitQueue *wq, gpointer data) { unsigned k, c; liWaitQueueElem *x; c = li_waitqueue_pop_ready(wq, &x); for (k = 0; k < NE; k++) if (k < c) { liWaitQueueElem *nx = x->next; expire(idx(x)); x = nx; } li_waitqueue_update(wq); }
static void check(void) {
	unsigned i;
	VH_ASSERT(q.length == n, "the length is the number of waiting elements");
	for (i = 0; i < NE; i++) VH_ASSERT(!e[i].queued == !queued(i), "an element knows whether it waits");
	if (n) {
		VH_ASSERT(ts[ord[0]] + delay > ev_ticks - 1, "no element waits longer than its delay");
		VH_ASSERT(ev_t_active && ev_deadline <= T[ts[ord[0]] + delay > ev_ticks ? ts[ord[0]] + delay : ev_ticks + 1], "the timer wakes up in time for the first element");
	} else VH_ASSERT(!ev_t_active || ev_deadline > vh_now, "timer");
}
void vh_main(void) {
	unsigned o, i, k;
	li_waitqueue_init(&q, &ev_lp, "q", CB == 1 ? cb : cb2, (double) D, &n);
	li_waitqueue_push(&q, &e[0]); ord[0] = 0; n = 1; ts[0] = 0; check();
	for (o = 0; o < OPS; o++) {
		unsigned op = vh_range(0, 4); VH_ASSUME((ALLOW >> op) & 1);
		if (op == 0) { i = vh_range(0, NE-1); li_waitqueue_push(&q, &e[i]); drop(i); ord[n] = i; n++; ts[i] = ev_ticks; }
		else if (op == 1) { i = vh_range(0, NE-1); li_waitqueue_remove(&q, &e[i]); drop(i); }
		else if (op == 2) ; /* idle */
		else if (op == 3) { liWaitQueueElem *x = li_waitqueue_pop_force(&q); VH_ASSERT(n ? idx(x) == (int) ord[0] : x == NULL, "forced pop takes the first"); if (n) drop(ord[0]); li_waitqueue_update(&q); }
		else { delay = vh_bool() ? 1 : 3; li_waitqueue_set_delay(&q, delay == 1 ? 1.0 : 3.0); ev_pass(1); }
		if ((DT >> o) & 1) ev_pass(1);
		check();
	}
	for (k = 0; k < 3; k++) if (n) { liWaitQueueElem *x = li_waitqueue_pop_force(&q); VH_ASSERT(idx(x) == (int) ord[0], "order"); drop(ord[0]); }
	VH_ASSERT(li_waitqueue_pop_force(&q) == NULL, "nothing is left");
	VH_REACH_IF(fired == 1, "timeout");
#if NE > 2 && OPS > 3
	VH_REACH_IF(fired == 2, "two timeouts");
#endif
}
