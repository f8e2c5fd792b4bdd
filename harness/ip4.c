/*@
prop: C23
src: src/common/ip_parsers.rl
light: 1
object-bits: 10
defs: PFX=0 N=8 MODE=3
unwind: 6
munwind: 6
hunwind: 24
eunwind: 24
cost: 8
quick: any0 N=8 MODE=0 eunwind=10
quick: any3 N=8 MODE=3 eunwind=10
quick: octet PFX=1 N=6 MODE=3 eunwind=14
quick: mask PFX=2 N=5 MODE=1 eunwind=15
quick: maskport PFX=2 N=7 MODE=3 eunwind=17
quick: port PFX=3 N=7 MODE=2 eunwind=17
quick: plain PFX=1 N=5 MODE=0 eunwind=13
quick: over PFX=4 N=3 MODE=3 eunwind=20
quick: overmask PFX=5 N=3 MODE=1 eunwind=22
thorough: any3 N=11 MODE=3 eunwind=13
thorough: octet PFX=1 N=10 MODE=3 eunwind=18
thorough: plain PFX=1 N=8 MODE=0 eunwind=18
thorough: mask PFX=2 N=7 MODE=1 eunwind=18
thorough: port PFX=3 N=9 MODE=2 eunwind=20
thorough: over PFX=4 N=5 MODE=3 eunwind=22
outside: strings with more than N arbitrary bytes after the prefix
@*/
#include <lighttpd/base.h>
#include <lighttpd/ip_parsers.h>
#include "vh.h"
#if PFX == 0
#define P ""
#elif PFX == 1
#define P "12.0.3."
#elif PFX == 2
#define P "1.20.3.4/"
#elif PFX == 3
#define P "1.2.30.4:"
#elif PFX == 4
#define P "1.2.3.42949672"
#else
#define P "1.2.3.4/42949672"
#endif
#define PL (sizeof(P)-1)
enum { OCT, MASK, PORT, DONE, ERR };
void vh_main(void) {
	char s[PL+N+1]; unsigned i, st = OCT, no = 0, dig = 0, mask = 32, port = 0, k; unsigned long v = 0; unsigned char o[4] = {0,0,0,0}; guint32 ip = 0, nm = 0; guint16 pt = 0; gboolean r;
	const int hm = MODE & 1, hp = MODE & 2;
	for (i = 0; i < PL; i++) s[i] = P[i];
	for (i = 0; i < N; i++) s[PL+i] = (char) vh_u8();
	s[PL+N] = 0;
	for (i = 0; i <= PL+N; i++) if (st < DONE) {
		unsigned char c = s[i]; int end = c == 0 || c == ' ' || (c >= 9 && c <= 13);
		if (c >= '0' && c <= '9') { v = v > 100000 ? v : v * 10 + (c - '0'); dig = 1; }
		else if (!dig) st = ERR;
		else {
			if (st == OCT) {
				if (v > 255) st = ERR; else { o[no & 3] = v; no++;
				if (c == '.' && no < 4) st = OCT;
				else if (no == 4 && c == '/' && hm) st = MASK;
				else if (no == 4 && c == ':' && hp) st = PORT;
				else if (no == 4 && end) st = DONE; else st = ERR; }
			} else if (st == MASK) {
				mask = v;
				if (v > 32) st = ERR; else if (c == ':' && hp) st = PORT; else st = end ? DONE : ERR;
			} else { port = v; st = v <= 65535 && end ? DONE : ERR; }
			v = 0; dig = 0;
		}
	}
	r = li_parse_ipv4(s, &ip, hm ? &nm : NULL, hp ? &pt : NULL);
	VH_ASSERT((!!r) == (st == DONE), "an address is accepted exactly if it is well formed and in range");
	if (r) {
		k = vh_range(0, 3);
		VH_ASSERT(((unsigned char*) &ip)[k] == o[k], "address octets");
		if (hm) { unsigned b = vh_range(0, 31); VH_ASSERT(((((unsigned char*) &nm)[b / 8] >> (7 - b % 8)) & 1) == (b < mask), "the network mask has exactly the leading bits set"); }
		if (hp) VH_ASSERT(pt == port, "port");
	}
	VH_REACH_IF(!r, "refused");
#if PFX < 4
	VH_REACH_IF(r, "accepted");
#endif
#if PFX == 2
	VH_REACH_IF(r && mask == 1, "/1");
#endif
}
