/*@
prop: C06
src: src/main/url_parser.rl src/common/utils.c
stub: li_url_decode li_path_simplify
light: 1
defs: N=5 VH_GSTR_CAP=12
unwind: 4
munwind: 14
hunwind: 14
eunwind: 7
quick: path FN=0
quick: url FN=1
thorough: path FN=0 N=7 eunwind=9 VH_GSTR_CAP=16 munwind=18 hunwind=18
thorough: url FN=1 N=7 eunwind=9 VH_GSTR_CAP=16 munwind=18 hunwind=18
outside: request targets longer than N bytes; absolute URIs (scheme://) are checked by url_abs
@*/
#include <lighttpd/base.h>
#include <lighttpd/url_parser.h>
#include "vh.h"
/* decoding and simplification are decided separately (C01, C02); here they only mark that they ran */
static int decoded, simplified;
void li_url_decode(GString *s) { VH_ASSERT(!simplified, "decoding happens before simplification"); decoded++; }
void li_path_simplify(GString *s) { simplified++; }
static int okchar(unsigned char c) { return c > 32 && c < 127; }
void vh_main(void) {
	liRequestUri uri; char in[N+1]; unsigned i, n = vh_range(1, N), q = N+1, pr = vh_range(0, N-1); gboolean ok; GString *raw; int hash = 0, bad = 0; unsigned hp = 0;
	for (i = 0; i < N; i++) { in[i] = (char) vh_u8(); if (i < n) { if (in[i] == '#' && !hash) { hash = 1; hp = i; } if (q > N && !hash && in[i] == '?') q = i; if (!okchar(in[i]) && in[i] != ' ') bad = 1; } }
	in[n] = 0;
	VH_ASSUME(in[0] == '/');
	raw = g_string_new_len(in, n);
	if (hash) n = hp; /* a fragment is not part of the target */
	uri.raw = raw; uri.raw_path = g_string_new(NULL); uri.raw_orig_path = g_string_new(NULL); uri.scheme = g_string_new(NULL); uri.authority = g_string_new(NULL); uri.path = g_string_new(NULL); uri.query = g_string_new(NULL); uri.host = g_string_new(NULL);
#if FN == 0
	ok = li_parse_raw_path(&uri, raw);
	if (ok) VH_ASSERT(decoded == 1 && simplified == 1, "an accepted path is decoded and simplified");
#else
	ok = li_parse_raw_url(&uri);
#endif
	VH_ASSERT(!ok || !bad, "control characters and non-ascii bytes are rejected");
	if (ok) {
		unsigned pl = q > N ? n : q;
		VH_ASSERT(uri.path->len == pl, "path is the target up to the first question mark");
		if (pr < pl) VH_ASSERT(uri.path->str[pr] == in[pr], "path bytes");
		VH_ASSERT(uri.query->len == (q > N ? 0 : n - q - 1), "query is the rest");
		if (q <= N && q + 1 + pr < n) VH_ASSERT(uri.query->str[pr] == in[q + 1 + pr], "query bytes");
		VH_ASSERT(uri.raw_path->len == n, "raw path is the whole target");
		if (pr < n) VH_ASSERT(uri.raw_path->str[pr] == in[pr], "raw path bytes");
		VH_ASSERT(uri.host->len == 0 && uri.authority->len == 0 && uri.scheme->len == 0, "no host in a path");
	} else VH_ASSERT(bad, "every printable target is accepted");
	VH_REACH_IF(ok && q <= N && q + 2 < n, "query");
	VH_REACH_IF(ok && n == N && q > N, "path only");
	VH_REACH_IF(!ok, "rejected");
	VH_REACH_IF(ok && hash && q < n, "query and fragment");
}
