/*@
prop: C01
src: src/common/utils.c
defs: N=6 VH_GSTR_CAP=16
unwind: 10
unwindset: vh_main.0:16
quick: main
thorough: main N=8 unwind=12
outside: paths longer than N bytes
@*/
#include <lighttpd/base.h>
#include "vh.h"

/* reference: split on '/', drop "" and ".", ".." pops, keep a trailing slash for directory-like ends */
static unsigned ref_simplify(const char *in, unsigned n, char *out) {
	unsigned i = 0, o = 0, s, e; int dirlike = 1;
	while (i < n && in[i] == ' ') i++;
	out[o++] = '/';
	/* invariant: out ends with '/' */
	while (i <= n) {
		s = i;
		while (i < n && in[i] != '/') i++;
		e = i; i++;
		if (e == s || (e - s == 1 && in[s] == '.')) {
			dirlike = 1;
		} else if (e - s == 2 && in[s] == '.' && in[s+1] == '.') {
			dirlike = 1;
			if (o > 1) { o--; while (o > 0 && out[o-1] != '/') o--; }
		} else {
			unsigned k;
			for (k = s; k < e; k++) out[o++] = in[k];
			out[o++] = '/';
			dirlike = 0;
		}
	}
	if (!dirlike) o--;
	return o;
}

void vh_main(void) {
	char in[N+1], ref[2*N+4]; unsigned n = vh_range(1, N), i, rn; int dotdot = 0;
	GString *s;
	for (i = 0; i < N; i++) { in[i] = (char) vh_u8(); VH_ASSUME(i >= n || in[i] != 0); }
	in[n] = 0;
	VH_ASSUME(in[0] != ' ');
	s = g_string_new_len(in, n);
	li_path_simplify(s);
	rn = ref_simplify(in, n, ref);
	VH_ASSERT(s->len >= 1 && s->str[0] == '/', "simplified path is absolute");
	VH_ASSERT(s->str[s->len] == 0, "terminated");
	for (i = 0; i + 2 < s->len; i++) {
		if (s->str[i] == '/' && s->str[i+1] == '.' && s->str[i+2] == '.' && (i + 3 == s->len || s->str[i+3] == '/')) dotdot = 1;
	}
	VH_ASSERT(!dotdot, "no dot-dot segment survives simplification");
	VH_ASSERT(s->len == rn, "simplified length equals reference");
	for (i = 0; i < rn; i++) VH_ASSERT(s->str[i] == ref[i], "simplified path equals reference");
	VH_REACH_IF(rn + 3 <= n, "something was removed");
	VH_REACH_IF(rn == n + 1, "slash was added");
}
