/*@
prop: C13
src: src/main/http_range_parser.rl
light: 1
defs: VH_GSTR_CAP=24 N=6 PFX=1 CALLS=1
unwind: 4
munwind: 20
hunwind: 20
eunwind: 14
quick: first N=6 eunwind=14
quick: second N=6 PFX=2 eunwind=18
quick: third N=4 PFX=3 eunwind=22 munwind=22 hunwind=22
quick: end N=3 PFX=2 CALLS=2 eunwind=15
quick: safe N=3 light=0 eunwind=11
thorough: first N=9 eunwind=17 hunwind=24 VH_GSTR_CAP=32 munwind=28 unwind=5
thorough: second N=9 PFX=2 eunwind=21 VH_GSTR_CAP=32 munwind=28 unwind=5
thorough: third N=8 PFX=3 eunwind=26 VH_GSTR_CAP=40 munwind=38 hunwind=30 unwind=5
thorough: end N=5 PFX=2 CALLS=2 eunwind=17
outside: Range values longer than the prefix plus N bytes (numbers of up to N digits; 19-digit overflow is not reached)
@*/
#include <lighttpd/base.h>
#include <lighttpd/http_range_parser.h>
#include "vh.h"
#if PFX == 1
#define P "bytes="
#elif PFX == 2
#define P "bytes=3-4,"
#else
#define P "bytes=3-4,200- ,"
#endif
#define PL (sizeof(P)-1)
#define PL0 6
#define MR (PFX-1+(N+1)/3)
static char v[PL+N+1]; static unsigned n;
typedef struct { long s, e; int sfx, open; } R;
static R rs[8]; static unsigned nr; static int invalid, incomplete; /* incomplete: the text ends inside an element; that element is ignored */
static int ws(char c) { return c == ' ' || c == '\t'; }
static int dg(char c) { return c >= '0' && c <= '9'; }
static void add(R r) { rs[nr] = r; nr++; }
static void refparse(void) { /* one pass over the list after "bytes=" */
	unsigned st = 0, i; R r = { -1, -1, 0, 0 };
	for (i = PL0; i < PL + N; i++) {
		char c = v[i]; int cm = c == ',', sp = ws(c), d = dg(c), fin = 0;
		if (invalid) break;
		switch (st) {
		case 0: if (cm || sp) ; else if (d) { r.s = c - '0'; r.e = -1; r.sfx = 0; r.open = 1; st = 1; } else if (c == '-') { r.s = -1; r.e = 0; r.sfx = 1; r.open = 0; st = 6; } else invalid = 1; break;
		case 1: if (d) r.s = 10*r.s + (c - '0'); else if (sp) st = 2; else if (c == '-') st = 3; else invalid = 1; break;
		case 2: if (c == '-') st = 3; else if (!sp) invalid = 1; break;
		case 3: if (d) { r.e = c - '0'; r.open = 0; st = 4; } else if (cm) fin = 1; else if (!sp) invalid = 1; break;
		case 4: if (d) r.e = 10*r.e + (c - '0'); else if (cm) fin = 1; else if (sp) st = 5; else invalid = 1; break;
		case 5: if (cm) fin = 1; else if (!sp) invalid = 1; break;
		case 6: if (d) { r.e = c - '0'; st = 4; } else if (!sp) invalid = 1; break;
		}
		if (fin) { add(r); st = 0; }
	}
	if (invalid) return;
	if (st == 1 || st == 2 || st == 6 || (st == 0 && nr == 0)) incomplete = 1;
	else if (st != 0) add(r);
}
static long limit; static int found, clipped; static unsigned cur;
/* one call of the parser, checked against the next satisfiable range of the reference list */
static liParseHttpRangeResult call(liParseHttpRangeState *s) {
	unsigned i; int have = 0; long a = 0, e = 0; liParseHttpRangeResult res = li_parse_http_range_next(s);
	for (i = 0; i < MR; i++) if (i >= cur && i < nr && !have) {
		cur = i + 1;
		if (rs[i].sfx) { a = rs[i].e >= limit ? 0 : limit - rs[i].e; e = limit - 1; }
		else { a = rs[i].s; e = rs[i].open || rs[i].e >= limit ? limit - 1 : rs[i].e; if (!rs[i].open && rs[i].e >= limit) clipped = 1; }
		if (a <= e) have = 1;
	}
	if (res == LI_PARSE_HTTP_RANGE_OK) {
		VH_ASSERT(0 <= s->range_start && s->range_start <= s->range_end && s->range_end < limit && s->range_length == s->range_end - s->range_start + 1, "ranges lie inside the file");
		VH_ASSERT(have, "only requested ranges are returned");
		VH_ASSERT(s->range_start == a && s->range_end == e, "the range is the requested one clipped to the file");
		found = 1;
	} else if (have) VH_ASSERT(invalid && cur == nr && res == LI_PARSE_HTTP_RANGE_INVALID, "each satisfiable range is returned");
	else if (invalid) VH_ASSERT(res == LI_PARSE_HTTP_RANGE_INVALID, "malformed ranges are reported as invalid");
	else VH_ASSERT((incomplete && res == LI_PARSE_HTTP_RANGE_INVALID) || res == (found ? LI_PARSE_HTTP_RANGE_DONE : LI_PARSE_HTTP_RANGE_NOT_SATISFIABLE), "the end, or that no range is satisfiable, is reported");
	return res;
}
void vh_main(void) {
	liParseHttpRangeState s; GString *str; unsigned i; liParseHttpRangeResult res = 0;
	limit = PFX == 1 ? vh_i64_range(0, G_MAXINT64 - 1) : 100;
	for (i = 0; i < PL; i++) v[i] = P[i];
	n = PL + N;
	for (i = PL; i < PL + N; i++) { v[i] = (char) vh_u8(); }
	v[n] = 0;
	str = g_string_new_len(v, n);
	refparse();
	li_parse_http_range_init(&s, str, limit);
	if (PFX > 1) { VH_ASSERT(li_parse_http_range_next(&s) == LI_PARSE_HTTP_RANGE_OK && s.range_start == 3 && s.range_end == 4 && s.range_length == 2, "first range"); found = 1; cur = 1; }
	for (i = 0; i < CALLS; i++) res = call(&s);
	li_parse_http_range_clear(&s);
	VH_REACH_IF(res == LI_PARSE_HTTP_RANGE_INVALID, "invalid");
#if PFX == 1
	VH_REACH_IF(!invalid && nr == MR, "max ranges");
	VH_REACH_IF(res == LI_PARSE_HTTP_RANGE_NOT_SATISFIABLE, "unsatisfiable");
	VH_REACH_IF(clipped, "clipped");
	VH_REACH_IF(res == LI_PARSE_HTTP_RANGE_OK && rs[0].sfx, "suffix");
#else
	VH_REACH_IF(res == LI_PARSE_HTTP_RANGE_DONE, "done");
#endif
#if CALLS == 1
	VH_REACH_IF(res == LI_PARSE_HTTP_RANGE_OK, "ok");
#endif
}
