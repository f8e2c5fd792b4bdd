/*@
prop: C25
src: src/modules/mod_access.c
stub: li_parse_ipv4 li_parse_ipv6 li_radixtree_new li_radixtree_insert li_radixtree_lookup li_radixtree_free li_plugin_register li_action_new_function li_vrequest_handle_direct li_vrequest_is_handled
light: 1
union-as-struct: 1
object-bits: 10
defs: V6=0 ORDER=0 ALL=0
unwind: 6
munwind: 12
hunwind: 18
quick: allow_deny V6=0 ORDER=0
quick: deny_allow V6=0 ORDER=1
quick: all V6=0 ORDER=0 ALL=1
quick: denyall V6=0 ORDER=1 ALL=1
quick: v6 V6=1 ORDER=0
quick: v6all V6=1 ORDER=0 ALL=1
quick: single V6=0 ORDER=2
quick: denied V6=0 ORDER=3
outside: more than two networks per list
@*/
#include <lighttpd/radix.h>
#include "inc/mod.h"
gboolean mod_access_init(liModules *mods, liModule *mod);
/* address parsing (property C23) yields arbitrary networks; prefix matching (C24) by comparing the masked addresses */
#define KL (V6 ? 16 : 4)
typedef struct { unsigned char a[16]; unsigned w; } Net;
static Net net[4]; static unsigned nn;
gboolean li_parse_ipv4(const char *s, guint32 *ip, guint32 *mask, guint16 *port) {
	unsigned i; guint32 m; unsigned char *b = (unsigned char*) ip; VH_ASSERT(mask != NULL, "networks are allowed");
	if (V6 || s[0] != 'n') return FALSE;
	for (i = 0; i < 4; i++) { net[nn].a[i] = vh_u8(); b[i] = net[nn].a[i]; }
	net[nn].w = vh_range(0, 32); m = net[nn].w ? 0xffffffffu << (32 - net[nn].w) : 0; *mask = htonl(m); nn++;
	return TRUE;
}
gboolean li_parse_ipv6(const char *s, guint8 *ip, guint *w, guint16 *port) {
	unsigned i; if (!V6 || s[0] != 'n') return FALSE; VH_ASSERT(w != NULL, "networks are allowed");
	for (i = 0; i < 16; i++) ip[i] = net[nn].a[i] = vh_u8();
	net[nn].w = vh_range(0, 128); *w = net[nn].w; nn++;
	return TRUE;
}
/* later entries replace equal ones: among equally long prefixes the last one counts */
struct liRadixTree { uint64_t h[6], l[6]; unsigned w[6], n; gpointer d[6]; };
static void pack(const unsigned char *a, uint64_t *h, uint64_t *l) { unsigned i; *h = *l = 0; for (i = 0; i < KL; i++) if (i < 8) *h |= (uint64_t) a[i] << (56 - 8*i); else *l |= (uint64_t) a[i] << (120 - 8*i); }
static int match(uint64_t ah, uint64_t al, uint64_t bh, uint64_t bl, unsigned w) { return w == 0 ? 1 : w <= 64 ? (ah ^ bh) >> (64 - w) == 0 : ah == bh && (al ^ bl) >> (128 - w) == 0; }
static liRadixTree tr[2]; static unsigned nt;
liRadixTree* li_radixtree_new(void) { return &tr[nt++]; }
gpointer li_radixtree_insert(liRadixTree *t, const void *key, guint32 bits, gpointer data) { unsigned i; unsigned char k[16] = {0};
	VH_ASSERT(bits <= 8 * KL, "prefix length"); VH_BOUND(t->n < 6, "entries");
	if (key) for (i = 0; i < KL; i++) if (8*i < bits) k[i] = ((const unsigned char*) key)[i];
	pack(k, &t->h[t->n], &t->l[t->n]); t->w[t->n] = bits; t->d[t->n] = data; t->n++; return NULL; }
gpointer li_radixtree_lookup(liRadixTree *t, const void *key, guint32 bits) { unsigned i; int best = -1; gpointer r = NULL; uint64_t h, l;
	VH_ASSERT(bits == 8 * KL, "complete addresses are looked up"); pack(key, &h, &l);
	for (i = 0; i < 6; i++) if (i < t->n && (int) t->w[i] >= best && match(t->h[i], t->l[i], h, l, t->w[i])) { best = t->w[i]; r = t->d[i]; }
	return r; }
void li_radixtree_free(liRadixTree *t, GFunc f, gpointer u) { }
void vh_main(void) {
	static liConInfo info; liVRequest *vr = vr_init(&info); gpointer ctx = NULL; liHandlerResult r; unsigned i; static struct sockaddr_in a4; static struct sockaddr_in6 a6; unsigned char ip[16]; int best, deny, kind[4], had = 0, ad = -1; const char *first = ORDER == 1 ? "deny" : "allow", *second = ORDER == 1 ? "allow" : "deny"; liAction *act; uint64_t ih, il, nh, nl;
	md_init(mod_access_init);
	vr->response.http_status = 0; info.remote_addr_str = g_string_new("x");
#if ORDER == 3
	act = md_action("access.deny", NULL); deny = 1; best = 0;
#else
#if ORDER == 2
	act = md_action("access.check", vl1(vl2(vs("allow"), vl2(vs("n1"), vs("n2"))))); kind[0] = kind[1] = 0;
#elif ALL && ORDER == 0
	act = md_action("access.check", vl1(vl2(vl2(vs("allow"), vl1(vs("all"))), vl2(vs("deny"), vl2(vs("n1"), vs("n2")))))); kind[0] = kind[1] = 1; ad = 0;
#elif ALL
	act = md_action("access.check", vl1(vl2(vl2(vs("deny"), vl1(vs("all"))), vl2(vs("allow"), vl2(vs("n1"), vs("n2")))))); kind[0] = kind[1] = 0; ad = 1;
#else
	act = md_action("access.check", vl1(vl2(vl2(vs(first), vl1(vs("n1"))), vl2(vs(second), vl2(vs("n2"), vs("n3")))))); kind[0] = ORDER; kind[1] = kind[2] = !ORDER;
#endif
#endif
	VH_ASSERT(act != NULL, "a valid configuration is accepted");
	for (i = 0; i < KL; i++) ip[i] = vh_u8();
	pack(ip, &ih, &il);
	if (V6) { a6.sin6_family = AF_INET6; for (i = 0; i < 16; i++) a6.sin6_addr.s6_addr[i] = ip[i]; info.remote_addr.addr_up.ipv6 = &a6; }
	else { a4.sin_family = AF_INET; for (i = 0; i < 4; i++) ((unsigned char*) &a4.sin_addr.s_addr)[i] = ip[i]; info.remote_addr.addr_up.ipv4 = &a4; }
	if (vh_bool()) { md_taken = 1; vr->response.http_status = 200; had = 1; }
#if ORDER != 3
	best = ad < 0 ? -1 : 0; deny = ad != 0;
	for (i = 0; i < nn; i++) if ((int) net[i].w >= best && (pack(net[i].a, &nh, &nl), match(nh, nl, ih, il, net[i].w))) { best = net[i].w; deny = kind[i]; }
#endif
	r = md_run(vr, &ctx);
	VH_ASSERT(r == LI_HANDLER_GO_ON, "checking access does not fail");
	if (had) VH_ASSERT(vr->response.http_status == 200, "an answer already given is kept");
	else {
		VH_ASSERT(md_handled == deny, "the request is answered exactly if access is denied by the most specific matching rule");
		VH_ASSERT(vr->response.http_status == (deny ? 403 : 0), "status 403 exactly if denied");
	}
#if ORDER != 3
#if ORDER != 2 && !(ALL && ORDER == 1)
	VH_REACH_IF(deny && best > 8 && !had, "denied");
#endif
	VH_REACH_IF(!deny && best > (ALL && ORDER == 0 ? -1 : 8) && !had, "allowed");
#endif
#if !(ALL && ORDER == 0)
	VH_REACH_IF(deny && best <= 0 && !had, "default");
#endif

}
