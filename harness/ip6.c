/*@
prop: C23
src: src/common/ip_parsers.rl
light: 1
object-bits: 10
defs: PFX=0 N=6 MODE=3 VH_STRTOL_DIGITS=4
unwind: 9
munwind: 8
hunwind: 40
eunwind: 40
cost: 15
quick: any N=6 MODE=3 eunwind=8
quick: plain N=5 MODE=0 eunwind=7
quick: full PFX=1 N=5 MODE=1 eunwind=23
quick: mid PFX=2 N=6 MODE=0 eunwind=20
quick: tail PFX=3 N=5 MODE=0 eunwind=12
quick: v4 PFX=4 N=5 MODE=1 eunwind=18
quick: brack PFX=5 N=6 MODE=3 eunwind=14
quick: net PFX=6 N=5 MODE=1 eunwind=11
quick: port PFX=7 N=6 MODE=3 eunwind=14
thorough: any N=8 MODE=3 eunwind=10
thorough: full PFX=1 N=7 MODE=1 eunwind=25
thorough: mid PFX=2 N=8 MODE=0 eunwind=22
thorough: tail PFX=3 N=8 MODE=3 eunwind=14
thorough: v4 PFX=4 N=7 MODE=1 eunwind=20
thorough: brack PFX=5 N=8 MODE=3 eunwind=16
outside: strings with more than N arbitrary bytes after the prefix
@*/
#include <lighttpd/base.h>
#include <lighttpd/ip_parsers.h>
#include "vh.h"
#if PFX == 0
#define P ""
#elif PFX == 1
#define P "1:2:a:4:5:6:7:ff"
#elif PFX == 2
#define P "1:2:3:4:5:b"
#elif PFX == 3
#define P "fe80::"
#elif PFX == 4
#define P "::ffff:1.20"
#elif PFX == 5
#define P "[a::b1"
#elif PFX == 6
#define P "2::/"
#else
#define P "[2::]:"
#endif
#define PL (sizeof(P)-1)
/* states: START nothing yet; GRP inside a group (digits seen); C1 after one leading/separating colon; C2 right after "::" */
enum { START, LEAD, GRP, SEP, CC, V4, NETB, NET, CLOSED, PORT, DONE, ERR };
void vh_main(void) {
	char s[PL+N+1]; unsigned i, st = START, br = 0, ng = 0, nd = 0, ndec = 0, dec = 1, cpos = 99, net = 128, port = 0, k, vn = 0, dig = 0, netseen = 0, b0 = 0; unsigned long hv = 0, dv = 0, v = 0; unsigned short g[12] = {0}; unsigned char vo[4] = {0};
	unsigned char e[16]; guint8 ip[16] = {0}; guint nw = 0; guint16 pt = 0; gboolean r;
	const int hm = MODE & 1, hp = MODE & 2;
	for (i = 0; i < PL; i++) s[i] = P[i];
	for (i = 0; i < N; i++) s[PL+i] = (char) vh_u8();
	s[PL+N] = 0;
	for (i = 0; i <= PL+N; i++) if (st < DONE) {
		unsigned char c = s[i]; int end = c == 0 || c == ' ' || (c >= 9 && c <= 13), d = c >= '0' && c <= '9', x = d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); unsigned hx = d ? c - '0' : (c | 32) - 'a' + 10;
		int fin = 0; /* the address ended before this byte */
		switch (st) {
		case START: if (c == '[' && !br) { br = 1; break; } if (c == ':') { st = LEAD; break; } /* fall through */
		case SEP: case CC:
			if (x) { nd = 1; hv = hx; dec = d; dv = hx; st = GRP; }
			else if (st == SEP && c == ':') { if (cpos != 99) st = ERR; else { cpos = ng; st = CC; } }
			else if (st == CC) fin = 1;
			else st = ERR;
			break;
		case LEAD: if (c == ':') { cpos = 0; st = CC; } else st = ERR; break;
		case GRP:
			if (x && nd < 4) { nd++; hv = hv * 16 + hx; if (d) dv = dv * 10 + hx; else dec = 0; }
			else if (c == '.' && dec && ng <= 6 && (ng || cpos != 99)) { if (dv > 255) st = ERR; else { vo[0] = dv; vn = 1; v = 0; dig = 0; st = V4; } }
			else if (d && dec && nd < 20 && nd >= 4) { nd++; if (dv < 100000) dv = dv * 10 + hx; hv = 0x10000; } /* only an octet may go on */
			else if (nd > 4) st = ERR;
			else { g[ng < 10 ? ng : 10] = hv; ng++; if (c == ':') st = SEP; else fin = 1; }
			break;
		case V4:
			if (d) { dig = 1; if (v < 100000) v = v * 10 + hx; }
			else if (!dig || v > 255) st = ERR;
			else { vo[vn & 3] = v; vn++; v = 0; dig = 0; if (c == '.' && vn < 4) break; if (vn != 4) { st = ERR; break; } g[ng < 10 ? ng : 10] = vo[0] * 256 + vo[1]; ng++; g[ng < 10 ? ng : 10] = vo[2] * 256 + vo[3]; ng++; fin = 1; }
			break;
		case NET: case NETB:
			if (d) { dig = 1; if (v < 100000) v = v * 10 + hx; }
			else if (!dig || v > 128) st = ERR;
			else { net = v; v = 0; dig = 0; if (st == NETB) st = c == ']' ? CLOSED : ERR; else if (end) st = DONE; else if (c == ':' && br && hp) st = PORT; else st = ERR; }
			break;
		case CLOSED:
			if (end) st = DONE; else if (c == '/' && hm && !netseen) { netseen = 1; st = NET; } else if (c == ':' && hp) st = PORT; else st = ERR;
			break;
		case PORT:
			if (d) { dig = 1; if (v < 100000) v = v * 10 + hx; }
			else if (!dig || v > 65535 || !end) st = ERR; else { port = v; st = DONE; }
			break;
		}
		if (fin) {
			if (c == '/' && hm) { netseen = 1; st = br ? NETB : NET; }
			else if (br) st = c == ']' ? CLOSED : ERR;
			else st = end ? DONE : ERR;
		}
	}
	if (st == DONE && (cpos == 99 ? ng != 8 : ng > 7)) st = ERR;
	for (i = 0; i < 8; i++) { unsigned short w = cpos == 99 || i < cpos ? g[i] : i < 8 - (ng - cpos) ? 0 : g[(i + ng - 8) & 7]; e[2*i] = w >> 8; e[2*i+1] = w; }
	r = li_parse_ipv6(s, ip, hm ? &nw : NULL, hp ? &pt : NULL);
	VH_ASSERT((!!r) == (st == DONE), "an address is accepted exactly if it is well formed and in range");
	if (r) {
		k = vh_range(0, 15);
		VH_ASSERT(ip[k] == e[k], "address bytes");
		if (hm) VH_ASSERT(nw == net, "network length");
		if (hp) VH_ASSERT(pt == port, "port");
	}
	VH_REACH_IF(!r, "refused");
	VH_REACH_IF(r, "accepted");
}
