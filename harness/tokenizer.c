/*@
prop: C17
src: src/main/http_headers.c
light: 1
defs: VH_GSTR_CAP=24 N=6 M=0
unwind: 12
munwind: 20
hunwind: 12
unwindset: g_ascii_strncasecmp.0:3 li_http_header_find_next.0:4 li_http_header_find_first.0:4 li_http_header_tokenizer_next.0:3
quick: one N=5 M=0 unwind=7
quick: two N=3 M=2 unwind=7
thorough: one N=9 M=0 unwind=13 hunwind=16
thorough: two N=4 M=4 unwind=14
outside: header values longer than N / M bytes, more than two headers of that name
@*/
#include <lighttpd/base.h>
#include "vh.h"
#define MT ((N+1)/2+(M+1)/2+1)
static struct { char c; unsigned t, i; int on; } add_[N+M+1]; /* per input byte: the token it belongs to and its place there */
static unsigned tl[MT], nt, base; static int bad;
static void ref(const char *v, unsigned n) { /* one pass: 0 between tokens, 1 token, 2 quoted, 3 escape in token, 4 escape in quoted */
	unsigned p, st = 0, cur = 0;
	for (p = 0; p < n; p++) {
		char c = v[p]; int add = 0, end = 0;
		if (bad) break;
		if (st >= 3) { add = 1; st -= 2; }
		else if (st == 2) { if (c == '"') end = 1; else if (c == '\\') st = 4; else add = 1; }
		else if (c == ' ' || c == ',') end = (st == 1);
		else if (c == '"') { if (st == 1) bad = 1; else st = 2; }
		else if (c == '\\') st = 3;
		else { add = 1; st = 1; }
		if (add) { add_[base+p].c = c; add_[base+p].t = nt; add_[base+p].i = cur; add_[base+p].on = 1; cur++; }
		if (end) { tl[nt] = cur; nt++; st = 0; cur = 0; }
	}
	if (st >= 2) bad = 1; else if (st == 1 && !bad) { tl[nt] = cur; nt++; }
	base += n;
}
static void get(char *v, unsigned n) { unsigned i; for (i = 0; i < n; i++) { v[i] = (char) vh_u8(); VH_ASSUME(v[i] != 0 && v[i] != '\r' && v[i] != '\n'); } }
void vh_main(void) {
	liHttpHeaders *hs = li_http_headers_new(); char v[N+1], w[M+1]; unsigned i, j, pr = vh_range(0, N-1); liHttpHeaderTokenizer t; GString *g = g_string_sized_new(16);
	get(v, N); li_http_header_insert(hs, "k", 1, v, N); ref(v, N);
#if M > 0
	li_http_header_insert(hs, "x", 1, "q", 1);
	get(w, M); li_http_header_insert(hs, "K", 1, w, M); if (!bad) ref(w, M);
#endif
	li_http_header_tokenizer_start(&t, hs, "k", 1);
	for (i = 0; i < MT-1; i++) if (i < nt) {
		VH_ASSERT(li_http_header_tokenizer_next(&t, g), "every token is delivered");
		VH_ASSERT(g->len == tl[i], "token length");
		for (j = 0; j < N+M; j++) if (add_[j].on && add_[j].t == i && add_[j].i == pr) VH_ASSERT(g->str[pr] == add_[j].c, "token content");
	}
	VH_ASSERT(!li_http_header_tokenizer_next(&t, g), "nothing after the last token or after malformed input");
	VH_REACH_IF(nt >= 2 && !bad, "two tokens");
	VH_REACH_IF(nt >= 1 && bad, "token then error");
	VH_REACH_IF(nt == 0 && !bad, "no token");
#if N >= 4
	VH_REACH_IF(!bad && v[0] == '"' && nt == 1 && tl[0] == 2 && v[1] == ',', "quoted");
#endif
}
