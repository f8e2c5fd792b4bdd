/*@
prop: C03
src: src/common/encoding.c src/common/utils.c
defs: N=4 VH_GSTR_CAP=32
unwind: 8
hunwind: 34
munwind: 30
quick: html ENC=LI_ENCODING_HTML
quick: hex ENC=LI_ENCODING_HEX
quick: uri ENC=LI_ENCODING_URI
thorough: html ENC=LI_ENCODING_HTML N=5 VH_GSTR_CAP=40 hunwind=42 munwind=42 unwind=9
thorough: hex ENC=LI_ENCODING_HEX N=8 unwind=12
thorough: uri ENC=LI_ENCODING_URI N=8 unwind=12
outside: inputs longer than N bytes
@*/
#include <lighttpd/base.h>
#include <lighttpd/encoding.h>
#include "vh.h"
static int hexv(unsigned char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
void vh_main(void) {
	char in[N+1], dec[VH_GSTR_CAP]; unsigned n = vh_range(0, N), i, o = 0; int append = vh_bool(), usedest = vh_bool(); unsigned skip = 0;
	GString *d = NULL, *r;
	for (i = 0; i < N; i++) { in[i] = (char) vh_u8(); VH_ASSUME(i >= n || in[i] != 0); }
	in[n] = 0;
	if (usedest) { d = g_string_new("ab"); if (append) skip = 2; }
	r = append ? li_string_encode_append(in, d, ENC) : li_string_encode(in, d, ENC);
	VH_ASSERT(!usedest || r == d, "appends to the given string");
	if (skip) VH_ASSERT(r->str[0] == 'a' && r->str[1] == 'b', "keeps the prefix");
	VH_ASSERT(r->len >= skip + n && r->len < VH_GSTR_CAP && r->str[r->len] == 0, "result length is set and terminated");
	/* decode independently */
	for (i = skip; i < VH_GSTR_CAP; i++) {
		unsigned char c;
		if (i >= r->len) break;
		c = r->str[i];
		if (ENC == LI_ENCODING_HTML) {
			VH_ASSERT(c != '<' && c != '>' && c >= 32 && c != 127, "no markup or control character in html output");
			if (c == '&') {
				VH_ASSERT(i + 5 < r->len && r->str[i+1] == '#' && r->str[i+2] == 'x' && hexv(r->str[i+3]) >= 0 && hexv(r->str[i+4]) >= 0 && r->str[i+5] == ';', "entity well formed");
				c = hexv(r->str[i+3]) * 16 + hexv(r->str[i+4]); i += 5;
			}
		} else if (ENC == LI_ENCODING_HEX) {
			VH_ASSERT(i + 1 < r->len && hexv(r->str[i]) >= 0 && hexv(r->str[i+1]) >= 0, "hex digits");
			c = hexv(r->str[i]) * 16 + hexv(r->str[i+1]); i += 1;
		} else {
			if (c == '%') {
				VH_ASSERT(i + 2 < r->len && hexv(r->str[i+1]) >= 0 && hexv(r->str[i+2]) >= 0, "percent escape well formed");
				c = hexv(r->str[i+1]) * 16 + hexv(r->str[i+2]); i += 2;
			} else {
				VH_ASSERT((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '!' || c == '(' || c == ')' || c == '*' || c == '-' || c == '.' || c == '/' || c == '_', "only safe characters are left unescaped");
			}
		}
		VH_ASSERT(o < n, "no extra characters");
		dec[o++] = c;
	}
	VH_ASSERT(o == n, "decoded length equals input length");
	for (i = 0; i < N; i++) if (i < n) VH_ASSERT(dec[i] == in[i], "encoding is reversible");
	VH_REACH_IF(n == N && usedest && r->len >= skip + n + 2, "escaped");
	VH_REACH_IF(n == 2 && !usedest, "fresh string");
}
