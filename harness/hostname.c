/*@
prop: C06
src: src/main/url_parser.rl src/common/utils.c
stub: li_url_decode li_path_simplify
light: 1
defs: N=5 VH_GSTR_CAP=16
unwind: 4
munwind: 18
hunwind: 18
eunwind: 15
quick: host ABSU=0 eunwind=7
quick: abs ABSU=1
thorough: host ABSU=0 N=8 eunwind=10
thorough: abs ABSU=1 N=7 eunwind=17 VH_GSTR_CAP=24 munwind=26 hunwind=26
outside: authorities longer than N bytes
@*/
#include <lighttpd/base.h>
#include <lighttpd/url_parser.h>
#include "vh.h"
void li_url_decode(GString *s) { }
void li_path_simplify(GString *s) { }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int isname(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '.' ; }
void vh_main(void) {
	liRequestUri uri; char in[N+1]; unsigned i, n = vh_range(1, N), pr = vh_range(0, N-1), hs = 0, he, al; gboolean ok; int simple = 1, at = 0, slash = 0, brk = 0, portdigits = 0;
	for (i = 0; i < N; i++) { in[i] = (char) vh_u8(); VH_ASSUME(i >= n || in[i] != 0); }
	in[n] = 0;
	uri.raw_path = g_string_new(NULL); uri.raw_orig_path = g_string_new(NULL); uri.scheme = g_string_new("http"); uri.path = g_string_new(NULL); uri.query = g_string_new(NULL); uri.host = g_string_new(NULL);
#if ABSU
	uri.authority = g_string_new("hh"); /* from a Host header */
	uri.raw = g_string_new("https://"); g_string_append_len(uri.raw, in, n);
	ok = li_parse_raw_url(&uri);
	al = n; for (i = 0; i < N; i++) if (i < n && !slash && in[i] == '/') { slash = 1; al = i; }
	VH_ASSERT(!ok || (slash && al > 0), "an absolute target needs an authority and a path");
#else
	uri.raw = g_string_new(NULL); uri.authority = g_string_new_len(in, n);
	ok = li_parse_hostname(&uri);
	al = n;
#endif
	for (i = 0; i < N; i++) if (i < al) { if (in[i] == '@') { at++; hs = i + 1; } }
	he = al;
	for (i = 0; i < N; i++) if (i >= hs && i < al) { if (in[i] == '[') brk = 1; if (in[i] == ':' && he == al) he = i; if (i < he && !isname(low(in[i]))) simple = 0; }
	if (he == hs) simple = 0;
	for (i = 0; i < N; i++) if (i > he && i < al) { portdigits++; if (in[i] < '0' || in[i] > '9') simple = 0; }
	if (he < al && portdigits == 0) simple = 0;
	if (ok) {
		VH_ASSERT(uri.host->len > 0, "host is not empty");
		if (!brk) {
			VH_ASSERT(uri.host->len == he - hs, "host is the authority without user info and port");
			if (hs + pr < he) VH_ASSERT(uri.host->str[pr] == low(in[hs + pr]), "host bytes, lower case");
		} else VH_ASSERT(uri.host->str[0] == '[' && uri.host->str[uri.host->len-1] == ']', "address literal");
		if (pr < uri.host->len) {
			unsigned char c = uri.host->str[pr];
			VH_ASSERT(c > 32 && c < 127 && c != '/' && c != '\\' && c != '?' && c != '#' && c != '<' && c != '>' && c != '"' && c != '@' && !(c >= 'A' && c <= 'Z'), "no separators in host");
		}
		VH_ASSERT(ABSU ? at <= 1 : at == 0, "user info only in absolute targets");
#if ABSU
		VH_ASSERT(uri.authority->len == al, "authority is taken from the target");
		if (pr < al) VH_ASSERT(uri.authority->str[pr] == low(in[pr]), "authority bytes");
		VH_ASSERT(uri.path->len >= 1 && uri.path->str[0] == '/', "path starts at the slash");
		VH_ASSERT(uri.scheme->len == 5 && uri.scheme->str[4] == 's', "scheme is the one of the target");
#endif
	} else if (!ABSU && at == 0) VH_ASSERT(!simple, "plain host names with optional port are accepted");
	VH_REACH_IF(ok && !brk && he < al, "port");
	VH_REACH_IF(ok && !brk && he == al && al > hs + 1, "no port");
	VH_REACH_IF(!ok, "rejected");
#if ABSU
	VH_REACH_IF(ok && at, "userinfo");
#else
	VH_REACH_IF(ok && brk, "address literal");
#endif
}
