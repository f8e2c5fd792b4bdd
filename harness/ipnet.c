/*@
prop: C23
src: src/common/utils.c
light: 1
object-bits: 10
unwind: 17
munwind: 18
hunwind: 18
quick: net
outside: nothing: all addresses, networks and prefix lengths
@*/
#include <lighttpd/base.h>
#include "vh.h"
void vh_main(void) {
	unsigned char a[16], m[16]; unsigned i, net = vh_range(0, 128); guint32 v4 = vh_u32(), n4 = vh_u32(), mask = vh_u32(), low; int same = 1, mapped = 1, r4, r6; unsigned char b[16];
	for (i = 0; i < 16; i++) { a[i] = vh_u8(); m[i] = vh_u8(); }
	for (i = 0; i < 16; i++) { unsigned bits = net >= 8 * (i + 1) ? 8 : net <= 8 * i ? 0 : net - 8 * i; unsigned mk = (0xff00u >> bits) & 0xff; if (((a[i] ^ m[i]) & mk) != 0) same = 0; if (i < 12 && a[i] != (i < 10 ? 0 : 0xff)) mapped = 0; }
	r6 = !!li_ipv6_in_ipv6_net(a, m, net); r4 = !!li_ipv4_in_ipv4_net(v4, n4, mask);
	VH_ASSERT(r6 == same, "an IPv6 address lies in a network exactly if its first bits agree");
	VH_ASSERT(r4 == (((v4 ^ n4) & mask) == 0), "an IPv4 address lies in a network exactly if the masked bits agree");
	memcpy(&low, a + 12, 4);
	VH_ASSERT(!!li_ipv6_in_ipv4_net(a, n4, mask) == (mapped && ((low ^ n4) & mask) == 0), "an IPv6 address lies in an IPv4 network exactly if it is a mapped address in it");
	memset(b, 0, 10); b[10] = b[11] = 0xff; memcpy(b + 12, &v4, 4); same = 1;
	for (i = 0; i < 16; i++) { unsigned bits = net >= 8 * (i + 1) ? 8 : net <= 8 * i ? 0 : net - 8 * i; unsigned mk = (0xff00u >> bits) & 0xff; if (((b[i] ^ m[i]) & mk) != 0) same = 0; }
	VH_ASSERT(!!li_ipv4_in_ipv6_net(v4, m, net) == same, "an IPv4 address lies in an IPv6 network exactly if its mapped address does");
	VH_REACH_IF(r6 && net == 13, "in the network");
	VH_REACH_IF(!r6 && net == 127, "not in the network");
	VH_REACH_IF(mapped, "mapped");
}
