/*@
prop: C02
src: src/common/utils.c
defs: N=5 VH_GSTR_CAP=8
unwind: 8
hunwind: 10
thorough: main N=8 unwind=11 hunwind=12 VH_GSTR_CAP=12
outside: inputs longer than N bytes
@*/
#include <lighttpd/base.h>
#include "vh.h"
static int hexv(unsigned char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
/* every %XX is replaced by its byte, malformed escapes are dropped, control characters never survive */
void vh_main(void) {
	unsigned char in[N+3], ref[N+1]; unsigned n = vh_range(0, N), i, o = 0;
	int truncated = 0, malformed = 0;
	GString *s;
	for (i = 0; i < N; i++) { in[i] = vh_u8(); VH_ASSUME(i >= n || in[i] != 0); if (i >= n) in[i] = 0; }
	in[N] = in[N+1] = in[N+2] = 0;
	s = g_string_new_len((char*) in, n);
	li_url_decode(s);
	for (i = 0; i < N; i++) {
		unsigned char c;
		if (i >= n) break;
		c = in[i];
		if (c == '%') {
			int a, b;
			if (i + 2 >= n) { truncated = 1; break; }
			a = hexv(in[i+1]); b = hexv(in[i+2]);
			i += 2;
			if (a < 0 || b < 0) { malformed = 1; continue; }
			c = (unsigned char) (a * 16 + b);
		}
		if (c < 32 || c == 127) c = '_';
		ref[o++] = c;
	}
	VH_ASSERT(s->str[s->len] == 0, "result is terminated");
	VH_ASSERT(s->len <= n, "decoding never grows");
	for (i = 0; i < N; i++) if (i < s->len) VH_ASSERT((unsigned char) s->str[i] >= 32 && s->str[i] != 127, "no control characters");
	{
		VH_ASSERT(s->len == o, "decoded length");
		for (i = 0; i < N; i++) if (i < o) VH_ASSERT((unsigned char) s->str[i] == ref[i], "decoded bytes");
	}
	VH_REACH_IF(truncated && o == 1, "truncated escape");
	VH_REACH_IF(malformed && !truncated && o == 2, "malformed escape");
	VH_REACH_IF(!truncated && !malformed && o + 2 == n, "one escape");
}
