/*@
prop: C18
src: src/common/utils.c
defs: VH_GSTR_CAP=32
unwind: 22
hunwind: 24
munwind: 24
timeout: 400
quick: small LO=-100000 HI=100000
quick: edge EDGE=1 LO=0 HI=0
thorough: small LO=-10000000000L HI=10000000000L
thorough: edge EDGE=1 LO=0 HI=0
outside: values outside the stated window other than the 64-bit edges
@*/
#include <lighttpd/base.h>
#include "vh.h"
void vh_main(void) {
	gint64 v = 0; GString *s; unsigned i = 0, nd = 0; guint64 acc = 0; int neg = 0;
#ifdef EDGE
	unsigned k = vh_range(0, 6);
	static const gint64 vals[7] = { G_MAXINT64, G_MAXINT64 - 1, -G_MAXINT64, G_MININT64 + 1, 0, 4294967296L, 1000000000000000000L };
	v = vals[k];
#else
	v = vh_i64_range(LO, HI);
#endif
	s = g_string_new("x");
	li_string_append_int(s, v);
	VH_ASSERT(s->str[0] == 'x' && s->len >= 2 && s->str[s->len] == 0, "appended and terminated");
	i = 1;
	if (s->str[1] == '-') { neg = 1; i = 2; }
	VH_ASSERT(i < s->len && (s->str[i] != '0' || i + 1 == s->len), "no leading zeros");
	for (nd = 0; nd < 21; nd++) {
		if (i + nd >= s->len) break;
		VH_ASSERT(s->str[i+nd] >= '0' && s->str[i+nd] <= '9', "decimal digits only");
		acc = acc * 10 + (s->str[i+nd] - '0');
	}
	VH_ASSERT(neg == (v < 0), "sign");
	VH_ASSERT((neg ? - acc : acc) == (guint64) v, "decimal value");
	VH_REACH_IF(neg, "negative");
}
