/*@
prop: C16
src: src/main/http_headers.c src/common/utils.c
light: 1
defs: VH_GSTR_CAP=24 OP=0 VL=2 KL=2 NI=2 NOCHK=0
unwind: 4
munwind: 20
hunwind: 24
quick: insert OP=0 unwind=9
quick: append OP=1 unwind=13
quick: overwrite OP=2 unwind=9
quick: remove OP=3 unwind=9
quick: value OP=0 NI=0 VL=5 unwind=11
quick: appendv OP=1 NI=1 VL=3 KL=1 unwind=14
quick: overwritev OP=2 NI=1 VL=4 KL=1 unwind=12
quick: safe OP=2 NI=1 VL=2 KL=1 light=0 unwind=9 NOCHK=1 VH_GSTR_CAP=14 hunwind=5
quick: safeappend OP=1 NI=1 VL=2 KL=1 light=0 unwind=9 NOCHK=1 VH_GSTR_CAP=14 hunwind=5
thorough: insert OP=0 VL=3 NI=3 unwind=12
thorough: append OP=1 VL=3 NI=3 unwind=16
thorough: overwrite OP=2 VL=3 NI=3 unwind=12
thorough: remove OP=3 VL=2 NI=3 unwind=12
thorough: value OP=0 NI=0 VL=9 unwind=16
thorough: appendv OP=1 NI=1 VL=5 KL=1 unwind=20
thorough: overwritev OP=2 NI=1 VL=7 KL=1 unwind=16
outside: more than NI+1 headers, keys longer than KL, values longer than VL bytes
@*/
#include <lighttpd/base.h>
#include "vh.h"
#define MAXV (2*VL+3)
typedef struct { unsigned kl, vl; char k[KL+1], v[MAXV]; int live; } Ref;
static Ref ref[NI+2]; static unsigned nref;
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same(const Ref *a, const Ref *b) { unsigned i; if (a->kl != b->kl) return 0; for (i = 0; i < KL; i++) if (i < a->kl && low(a->k[i]) != low(b->k[i])) return 0; return 1; }
static void get(Ref *r) {
	unsigned i; r->kl = vh_range(1, KL); r->vl = vh_range(0, VL); r->live = 1;
	for (i = 0; i < KL; i++) { r->k[i] = (char) vh_u8(); VH_ASSUME(r->k[i] == 'a' || r->k[i] == 'A' || r->k[i] == 'b'); }
	for (i = 0; i < VL; i++) { r->v[i] = (char) vh_u8(); VH_ASSUME(r->v[i] != 0); }
	r->k[r->kl] = 0; r->v[r->vl] = 0;
}
static int ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static void checkval(const Ref *r, liHttpHeader *h) { /* h must hold r's key and (sanitised) value */
	unsigned i, n = h->data->len, vs = h->keylen + 2, clean = 1, a = 0, b = 0, p = vh_range(0, MAXV-1); char ca = 0, cb = 0;
	VH_ASSERT(h->keylen == r->kl, "key length");
	VH_ASSERT(n >= vs && h->data->str[n] == 0 && h->data->str[h->keylen] == ':' && h->data->str[h->keylen+1] == ' ', "header layout");
	for (i = 0; i < KL; i++) if (i < r->kl) VH_ASSERT(low(h->data->str[i]) == low(r->k[i]), "key bytes");
	for (i = 0; i < MAXV; i++) { if (i < r->vl && (r->v[i] == '\r' || r->v[i] == '\n')) clean = 0; if (i < r->vl && !ws(r->v[i])) { if (a == p) ca = r->v[i]; a++; } }
	for (i = 0; i < MAXV; i++) if (vs + i < n) { char c = h->data->str[vs + i]; VH_ASSERT(c != '\r' && c != '\n', "no line break inside a stored header"); if (!ws(c)) { if (b == p) cb = c; b++; } }
	VH_ASSERT(a == b && ca == cb, "visible characters of the value are kept in order");
	if (clean) { VH_ASSERT(n - vs == r->vl, "value length kept"); if (p < r->vl) VH_ASSERT(h->data->str[vs + p] == r->v[p], "value bytes kept"); }
}
void vh_main(void) {
	liHttpHeaders *hs = li_http_headers_new(); unsigned i, j, cnt = 0, last = 99, first = 99, all = 0; Ref op, q; GList *l; liHttpHeader *h; GString *g; int removed = 0; int dup = 0;
	for (i = 0; i < NI; i++) { get(&ref[i]); li_http_header_insert(hs, ref[i].k, ref[i].kl, ref[i].v, ref[i].vl); }
	nref = NI;
	get(&op);
	for (i = 0; i < NI; i++) if (same(&ref[i], &op)) { last = i; dup++; }
#if OP == 0
	li_http_header_insert(hs, op.k, op.kl, op.v, op.vl); ref[nref++] = op;
#elif OP == 1
	{ /* the stored old value may already be cleaned: keep the combination */
		li_http_header_append(hs, op.k, op.kl, op.v, op.vl);
		if (last == 99) ref[nref++] = op;
		else { Ref n = ref[last]; unsigned o = n.vl; n.v[o] = ','; n.v[o+1] = ' '; for (i = 0; i < VL; i++) if (i < op.vl) n.v[o+2+i] = op.v[i]; n.vl = o + 2 + op.vl; ref[last] = n; }
	}
#elif OP == 2
	li_http_header_overwrite(hs, op.k, op.kl, op.v, op.vl);
	if (last == 99) ref[nref++] = op;
	else { ref[last].vl = op.vl; for (i = 0; i < VL; i++) ref[last].v[i] = op.v[i]; }
#else
	removed = li_http_header_remove(hs, op.k, op.kl);
	VH_ASSERT(!!removed == (dup > 0), "remove reports whether it removed something");
	for (i = 0; i < NI; i++) if (same(&ref[i], &op)) ref[i].live = 0;
	VH_ASSERT(NULL == li_http_header_lookup(hs, op.k, op.kl), "removed headers are gone");
#endif
	/* the list holds exactly the live entries in order */
	l = hs->entries.head; j = vh_range(0, NI);
	for (i = 0; i < nref; i++) if (ref[i].live) {
		VH_ASSERT(l != NULL, "no header is lost");
		if (i == j && !NOCHK) checkval(&ref[i], (liHttpHeader*) l->data);
		l = l->next;
	}
	VH_ASSERT(l == NULL, "no header appears from nowhere");
	/* lookups ignore case and find exactly the entries with that key */
	get(&q);
	for (i = 0; i < nref; i++) if (ref[i].live && same(&ref[i], &q)) { if (first == 99) first = i; cnt++; all = i; }
	h = li_http_header_lookup(hs, q.k, q.kl);
	VH_ASSERT((h != NULL) == (cnt > 0), "lookup finds a header exactly if there is one");
	if (h && !NOCHK && KL + VL < 5) checkval(&ref[all], h);
	j = 0; for (l = li_http_header_find_first(hs, q.k, q.kl); l; l = li_http_header_find_next(l, q.k, q.kl)) { j++; VH_ASSERT(j <= NI+1, "iteration ends"); }
	VH_ASSERT(j == cnt, "iteration visits every header with the key once");
	VH_REACH_IF(cnt > 1 || NI == 0 || OP != 0, "several");
	VH_REACH_IF(dup > 0 || NI == 0, "key exists");
	VH_REACH_IF(dup == 0, "new key");
}
